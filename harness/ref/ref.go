// Package ref is an independent statement of the wire protocol: frame format
// and payload layouts. It shares no code with the repository.
package ref

import "strings"

const (
	Esc = 0x07
	Ack = 0xF3
	Beg = 0xF0
	End = 0x0F
)

// Get request command codes, and set request command codes.
const (
	GetFans       = 0x0B
	GetBootloader = 0x67
	GetFirmware   = 0x69
	GetProfiles   = 0xCD
	GetTemps      = 0xD1
	GetErrors     = 0xD9
	GetBypass     = 0xDF
	GetHours      = 0xDD

	SetSpeed    = 0x99
	SetComfort  = 0xD3
	SetProfiles = 0xCF
)

var AckSeq = []byte{Esc, Ack}

// Checksum as published: everything unescaped, without the leading start
// sequence, plus 173, modulo 256.
func Checksum(cmd byte, payload []byte) byte {
	s := int(cmd) + len(payload) + 173
	for _, b := range payload {
		s += int(b)
	}
	return byte(s % 256)
}

// Body is the part of the frame between the start and end sequences.
func Body(cmd byte, payload []byte) []byte {
	b := []byte{0, cmd, byte(len(payload))}
	for _, v := range payload {
		b = append(b, v)
		if v == Esc {
			b = append(b, Esc)
		}
	}
	return append(b, Checksum(cmd, payload))
}

// Frame is the complete frame.
func Frame(cmd byte, payload []byte) []byte {
	f := append([]byte{Esc, Beg}, Body(cmd, payload)...)
	return append(f, Esc, End)
}

// Status of a parse attempt.
type Status int

const (
	OK Status = iota
	Incomplete
	Invalid
)

// ParseFrame strictly parses one frame at the start of b.
func ParseFrame(b []byte) (cmd byte, payload []byte, n int, st Status) {
	at := func(i int, v byte) Status {
		if i >= len(b) {
			return Incomplete
		}
		if b[i] != v {
			return Invalid
		}
		return OK
	}
	for i, v := range []byte{Esc, Beg, 0} {
		if s := at(i, v); s != OK {
			return 0, nil, 0, s
		}
	}
	if len(b) < 5 {
		return 0, nil, 0, Incomplete
	}
	cmd = b[3]
	want := int(b[4])
	i := 5
	payload = []byte{}
	for len(payload) < want {
		if i >= len(b) {
			return 0, nil, 0, Incomplete
		}
		v := b[i]
		i++
		if v == Esc {
			if s := at(i, Esc); s != OK {
				return 0, nil, 0, s
			}
			i++
		}
		payload = append(payload, v)
	}
	if i >= len(b) {
		return 0, nil, 0, Incomplete
	}
	ck := b[i]
	i++
	for k, v := range []byte{Esc, End} {
		if s := at(i+k, v); s != OK {
			return 0, nil, 0, s
		}
	}
	if ck != Checksum(cmd, payload) {
		return 0, nil, 0, Invalid
	}
	return cmd, payload, i + 2, OK
}

// ParseReply strictly parses ACK [+ frame] at the start of b.
func ParseReply(b []byte, withFrame bool) (cmd byte, payload []byte, st Status) {
	for i, v := range AckSeq {
		if i >= len(b) {
			return 0, nil, Incomplete
		}
		if b[i] != v {
			return 0, nil, Invalid
		}
	}
	if !withFrame {
		return 0, nil, OK
	}
	cmd, payload, _, st = ParseFrame(b[2:])
	return
}

// PayloadLen is the response payload length per get request.
var PayloadLen = map[byte]int{
	GetFans: 6, GetBootloader: 13, GetFirmware: 13, GetProfiles: 14,
	GetTemps: 9, GetErrors: 17, GetBypass: 7, GetHours: 20,
}

// Gets lists the get commands in a fixed order.
var Gets = []byte{GetFans, GetBootloader, GetFirmware, GetProfiles, GetTemps, GetErrors, GetBypass, GetHours}

// Val is a decoded reading: field name to value. Unsigned numbers are uint64,
// temperatures float64, flags bool, names string.
type Val map[string]any

// Decode decodes a response payload per the documented layout. ok is false
// when the documented outcome is an error.
func Decode(get byte, p []byte) (v Val, ok bool) {
	if n, known := PayloadLen[get]; !known || len(p) != n {
		return nil, false
	}
	be := func(b []byte) (x uint64) {
		for _, c := range b {
			x = x*256 + uint64(c)
		}
		return
	}
	u := func(i int) uint64 { return uint64(p[i]) }
	t := func(i int) float64 { return float64(p[i]/2) - 20 }
	switch get {
	case GetFans:
		a, b := be(p[2:4]), be(p[4:6])
		if a == 0 || b == 0 || 1875000/a > 65535 || 1875000/b > 65535 {
			return nil, false
		}
		return Val{"InPercent": u(0), "OutPercent": u(1), "InSpeed": 1875000 / a, "OutSpeed": 1875000 / b}, true
	case GetBootloader, GetFirmware:
		return Val{"MajorVersion": u(0), "MinorVersion": u(1), "BetaVersion": u(2), "DeviceName": strings.TrimSpace(string(p[3:]))}, true
	case GetProfiles:
		return Val{
			"OutAway": u(0), "OutLow": u(1), "OutMid": u(2), "InAway": u(3), "InLow": u(4), "InMid": u(5),
			"CurrentOut": u(6), "CurrentIn": u(7), "CurrentMode": u(8), "InFanActive": p[9] == 1,
			"OutHigh": u(10), "InHigh": u(11)}, true
	case GetTemps:
		return Val{"Comfort": t(0), "OutsideAir": t(1), "SupplyAir": t(2), "InsideAir": t(3), "ExhaustAir": t(4),
			"GeoHeat": t(6), "Reheating": t(7), "KitchenHood": t(8)}, true
	case GetErrors:
		return Val{"Filter": p[8] == 1}, true
	case GetBypass:
		return Val{"Factor": u(2), "Level": u(3), "Correction": u(4), "SummerMode": p[6] == 1}, true
	case GetHours:
		return Val{"FanAway": be(p[0:3]), "FanLow": be(p[3:6]), "FanMid": be(p[6:9]),
			"FrostProtect": be(p[9:11]), "Reheating": be(p[11:13]), "BypassOpen": be(p[13:15]), "Filter": be(p[15:17]),
			"FanHigh": be(p[17:20])}, true
	}
	return nil, false
}

// Equal compares two readings field by field.
func Equal(a, b Val) bool {
	if len(a) != len(b) {
		return false
	}
	for k, x := range a {
		if y, ok := b[k]; !ok || x != y {
			return false
		}
	}
	return true
}
