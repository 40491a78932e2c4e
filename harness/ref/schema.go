package ref

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"unicode/utf8"
)

// The API contract, restated from comfo.proto.

type Kind int

const (
	U32 Kind = iota
	Bool
	F32
	Str
	Enum
)

type Field struct {
	Name string
	Num  int
	Kind Kind
}

type Message []Field

var (
	noop     = Message{}
	Schema   = map[string]Message{}
	Methods  = map[string][2]string{}
	MethodNm []string
)

// EnumNames are the cache types.
var EnumNames = map[uint64]string{0: "BootInfo", 1: "Fans", 2: "Temps", 3: "Profiles", 4: "Bypass", 10: "All"}

func init() {
	u := func(names ...string) (m Message) {
		for i, n := range names {
			m = append(m, Field{n, i + 1, U32})
		}
		return
	}
	Schema["Noop"] = noop
	Schema["Bypass"] = append(u("Factor", "Level", "Correction"), Field{"SummerMode", 4, Bool})
	Schema["BootInfo"] = append(u("MajorVersion", "MinorVersion", "BetaVersion"), Field{"DeviceName", 4, Str})
	Schema["ComfortTarget"] = u("ComfortTemp")
	Schema["ComfortModified"] = Message{{"Modified", 1, Bool}, {"OriginalTemp", 2, U32}, {"TargetTemp", 3, U32}, {"ReqTime", 4, Str}}
	Schema["Errors"] = Message{{"Filter", 1, Bool}}
	Schema["Fans"] = u("InPercent", "OutPercent", "InSpeed", "OutSpeed")
	Schema["FanProfiles"] = Message{
		{"OutAway", 1, U32}, {"OutLow", 2, U32}, {"OutMid", 3, U32}, {"OutHigh", 4, U32},
		{"InFanActive", 5, Bool}, {"InAway", 6, U32}, {"InLow", 7, U32}, {"InMid", 8, U32}, {"InHigh", 9, U32},
		{"CurrentOut", 10, U32}, {"CurrentIn", 11, U32}, {"CurrentMode", 12, U32}}
	Schema["FanProfileTarget"] = u("Mode", "TargetSpeed")
	mod := Message{{"Modified", 1, Bool}, {"OriginalSpeed", 2, U32}, {"TargetSpeed", 3, U32}, {"ReqTime", 4, Str}}
	Schema["FanProfileModified"] = mod
	Schema["FanSpeedModified"] = mod
	Schema["FanSpeedTarget"] = Message{{"Abs", 1, U32}, {"Rel", 2, Bool}}
	var t Message
	for i, n := range []string{"Comfort", "OutsideAir", "SupplyAir", "InsideAir", "ExhaustAir", "GeoHeat", "Reheating", "KitchenHood"} {
		t = append(t, Field{n, i + 1, F32})
	}
	Schema["Temps"] = t
	Schema["FlushCacheRequest"] = Message{{"Cache", 1, Enum}}
	Schema["FlushCacheResponse"] = Message{{"Success", 1, Bool}, {"ReqTime", 2, Str}}

	add := func(m, in, out string) {
		Methods[m] = [2]string{in, out}
		MethodNm = append(MethodNm, m)
	}
	add("GetBootInfo", "Noop", "BootInfo")
	add("GetTemps", "Noop", "Temps")
	add("GetBypass", "Noop", "Bypass")
	add("GetFans", "Noop", "Fans")
	add("GetFanProfiles", "Noop", "FanProfiles")
	add("GetErrors", "Noop", "Errors")
	add("SetFanSpeed", "FanSpeedTarget", "FanSpeedModified")
	add("SetComfortTemp", "ComfortTarget", "ComfortModified")
	add("SetFanProfile", "FanProfileTarget", "FanProfileModified")
	add("FlushCache", "FlushCacheRequest", "FlushCacheResponse")
}

// Zero returns the message with all defaults.
func (m Message) Zero() Val {
	v := Val{}
	for _, f := range m {
		switch f.Kind {
		case U32, Enum:
			v[f.Name] = uint64(0)
		case Bool:
			v[f.Name] = false
		case F32:
			v[f.Name] = float64(0)
		case Str:
			v[f.Name] = ""
		}
	}
	return v
}

// EncodeProto encodes v in protobuf. Missing fields are omitted.
func (m Message) EncodeProto(v Val) []byte {
	var out []byte
	for _, f := range m {
		x, ok := v[f.Name]
		if !ok {
			continue
		}
		switch f.Kind {
		case U32, Enum:
			if n := x.(uint64); n != 0 {
				out = binary.AppendUvarint(out, uint64(f.Num)<<3)
				out = binary.AppendUvarint(out, n)
			}
		case Bool:
			if x.(bool) {
				out = binary.AppendUvarint(out, uint64(f.Num)<<3)
				out = append(out, 1)
			}
		case F32:
			if g := float32(x.(float64)); g != 0 {
				out = binary.AppendUvarint(out, uint64(f.Num)<<3|5)
				out = binary.LittleEndian.AppendUint32(out, math.Float32bits(g))
			}
		case Str:
			if s := x.(string); s != "" {
				out = binary.AppendUvarint(out, uint64(f.Num)<<3|2)
				out = binary.AppendUvarint(out, uint64(len(s)))
				out = append(out, s...)
			}
		}
	}
	return out
}

// DecodeProto decodes strictly: unknown fields or wrong wire types are errors.
func (m Message) DecodeProto(b []byte) (Val, error) {
	v := m.Zero()
	byNum := map[int]Field{}
	for _, f := range m {
		byNum[f.Num] = f
	}
	for len(b) > 0 {
		tag, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, errors.New("bad tag")
		}
		b = b[n:]
		f, ok := byNum[int(tag>>3)]
		if !ok {
			return nil, fmt.Errorf("unknown field %d", tag>>3)
		}
		want := map[Kind]uint64{U32: 0, Enum: 0, Bool: 0, F32: 5, Str: 2}[f.Kind]
		if tag&7 != want {
			return nil, fmt.Errorf("field %s has wire type %d", f.Name, tag&7)
		}
		switch want {
		case 0:
			x, n := binary.Uvarint(b)
			if n <= 0 {
				return nil, errors.New("bad varint")
			}
			b = b[n:]
			if f.Kind == Bool {
				v[f.Name] = x != 0
			} else {
				v[f.Name] = x
			}
		case 5:
			if len(b) < 4 {
				return nil, errors.New("short float")
			}
			v[f.Name] = float64(math.Float32frombits(binary.LittleEndian.Uint32(b)))
			b = b[4:]
		case 2:
			x, n := binary.Uvarint(b)
			if n <= 0 || uint64(len(b)-n) < x {
				return nil, errors.New("short string")
			}
			s := string(b[n : n+int(x)])
			if !utf8.ValidString(s) {
				return nil, errors.New("invalid UTF-8 string")
			}
			v[f.Name] = s
			b = b[n+int(x):]
		}
	}
	return v, nil
}

// EncodeJSON encodes v with the proto field names.
func (m Message) EncodeJSON(v Val) []byte {
	o := map[string]any{}
	for _, f := range m {
		if x, ok := v[f.Name]; ok {
			o[f.Name] = x
		}
	}
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	return b
}

// HasAll checks that a JSON object has every field, also those of zero value.
func (m Message) HasAll(b []byte) error {
	var o map[string]json.RawMessage
	if err := json.Unmarshal(b, &o); err != nil {
		return err
	}
	for _, f := range m {
		if _, ok := o[f.Name]; !ok {
			return fmt.Errorf("no JSON field %q", f.Name)
		}
	}
	return nil
}

// DecodeJSON decodes strictly by proto field name.
func (m Message) DecodeJSON(b []byte) (Val, error) {
	v := m.Zero()
	var o map[string]json.RawMessage
	if err := json.Unmarshal(b, &o); err != nil {
		return nil, err
	}
	byName := map[string]Field{}
	for _, f := range m {
		byName[f.Name] = f
	}
	for k, raw := range o {
		f, ok := byName[k]
		if !ok {
			return nil, fmt.Errorf("unknown JSON field %q", k)
		}
		switch f.Kind {
		case U32, Enum:
			var n uint64
			if err := json.Unmarshal(raw, &n); err != nil {
				return nil, fmt.Errorf("field %s: %v", k, err)
			}
			v[k] = n
		case Bool:
			var x bool
			if err := json.Unmarshal(raw, &x); err != nil {
				return nil, fmt.Errorf("field %s: %v", k, err)
			}
			v[k] = x
		case F32:
			var x float64
			if err := json.Unmarshal(raw, &x); err != nil {
				return nil, fmt.Errorf("field %s: %v", k, err)
			}
			v[k] = x
		case Str:
			var x string
			if err := json.Unmarshal(raw, &x); err != nil {
				return nil, fmt.Errorf("field %s: %v", k, err)
			}
			v[k] = x
		}
	}
	return v, nil
}
