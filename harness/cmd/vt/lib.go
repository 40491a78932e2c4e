package main

import (
	"bytes"
	"fmt"
	"io"
	"sync"
	"time"

	"github.com/ti-mo/comfo/libcomfo"

	"verif/ref"
	"verif/sim"
)

func init() {
	workloads["c01"] = c01
	workloads["c02"] = c02
	workloads["c03"] = c03
	workloads["c04"] = c04
}

// libGet performs a library get and returns its fields.
func libGet(cmd byte, conn io.ReadWriter) (ref.Val, error) {
	u := func(x any) uint64 {
		switch v := x.(type) {
		case uint8:
			return uint64(v)
		case uint16:
			return uint64(v)
		case uint32:
			return uint64(v)
		}
		panic("kind")
	}
	switch cmd {
	case ref.GetFans:
		x, err := libcomfo.GetFans(conn)
		return ref.Val{"InPercent": u(x.InPercent), "OutPercent": u(x.OutPercent), "InSpeed": u(x.InSpeed), "OutSpeed": u(x.OutSpeed)}, err
	case ref.GetBootloader, ref.GetFirmware:
		f := libcomfo.GetBootloader
		if cmd == ref.GetFirmware {
			f = libcomfo.GetFirmware
		}
		x, err := f(conn)
		return ref.Val{"MajorVersion": u(x.MajorVersion), "MinorVersion": u(x.MinorVersion), "BetaVersion": u(x.BetaVersion), "DeviceName": x.DeviceName}, err
	case ref.GetProfiles:
		x, err := libcomfo.GetFanProfiles(conn)
		return profVal(x), err
	case ref.GetTemps:
		x, err := libcomfo.GetTemperatures(conn)
		return ref.Val{"Comfort": float64(x.Comfort), "OutsideAir": float64(x.OutsideAir), "SupplyAir": float64(x.SupplyAir), "InsideAir": float64(x.InsideAir),
			"ExhaustAir": float64(x.ExhaustAir), "GeoHeat": float64(x.GeoHeat), "Reheating": float64(x.Reheating), "KitchenHood": float64(x.KitchenHood)}, err
	case ref.GetErrors:
		x, err := libcomfo.GetErrors(conn)
		return ref.Val{"Filter": x.Filter}, err
	case ref.GetBypass:
		x, err := libcomfo.GetBypass(conn)
		return ref.Val{"Factor": u(x.Factor), "Level": u(x.Level), "Correction": u(x.Correction), "SummerMode": x.SummerMode}, err
	case ref.GetHours:
		x, err := libcomfo.GetHours(conn)
		return ref.Val{"FanAway": u(x.FanAway), "FanLow": u(x.FanLow), "FanMid": u(x.FanMid), "FanHigh": u(x.FanHigh),
			"FrostProtect": u(x.FrostProtect), "Reheating": u(x.Reheating), "BypassOpen": u(x.BypassOpen), "Filter": u(x.Filter)}, err
	}
	panic("get")
}

func profVal(x libcomfo.FanProfiles) ref.Val {
	u := func(b uint8) uint64 { return uint64(b) }
	return ref.Val{"OutAway": u(x.OutAway), "OutLow": u(x.OutLow), "OutMid": u(x.OutMid), "OutHigh": u(x.OutHigh),
		"InAway": u(x.InAway), "InLow": u(x.InLow), "InMid": u(x.InMid), "InHigh": u(x.InHigh), "InFanActive": x.InFanActive,
		"CurrentOut": u(x.CurrentOut), "CurrentIn": u(x.CurrentIn), "CurrentMode": u(x.CurrentMode)}
}

type capture struct{ bytes.Buffer }

// ---- C01 ----

// nested is a connection whose Write is slow: while it runs, another packet is
// written to another connection. It keeps what its caller handed over when the
// other packet is done (or waiting for its turn).
type nested struct {
	bytes.Buffer
	other func()
}

func (w *nested) Write(p []byte) (int, error) {
	done := make(chan struct{})
	go func() { w.other(); close(done) }()
	select {
	case <-done:
	case <-time.After(100 * time.Millisecond):
	}
	return w.Buffer.Write(p)
}

// c01apart: packets of different connections, and packets of one connection at
// different times, have nothing to do with each other.
func c01apart(c *Ctx) {
	type kept struct {
		what      string
		got, want []byte
	}
	var keep []kept
	for i := 0; i < c.N/10 && !c.Failed(); i++ {
		n := 1 + c.Rnd.Intn(3)
		type job struct {
			cmd  byte
			data []byte
			w    nested
			got  []byte
			err  error
		}
		js := make([]*job, n+1)
		for k := range js {
			js[k] = &job{cmd: byte(c.Rnd.Intn(256)), data: randBytes(c.Rnd, c.Rnd.Intn(40))}
		}
		// Each write is interrupted by the next one.
		var write func(k int)
		via := c.Rnd.Intn(3)
		write = func(k int) {
			j := js[k]
			if k == n {
				if via == 1 {
					j.got, j.err = libcomfo.MarshalPacket(libcomfo.Packet{Command: j.cmd, Data: append([]byte(nil), j.data...)})
				} else {
					_, j.err = libcomfo.WritePacket(libcomfo.Packet{Command: j.cmd, Data: append([]byte(nil), j.data...)}, &j.w.Buffer)
				}
				return
			}
			j.w.other = func() { write(k + 1) }
			_, j.err = libcomfo.WritePacket(libcomfo.Packet{Command: j.cmd, Data: append([]byte(nil), j.data...)}, &j.w)
		}
		write(0)
		for k, j := range js {
			got, want := j.w.Bytes(), ref.Frame(j.cmd, j.data)
			if k == n && via == 1 {
				got, want = j.got, ref.Body(j.cmd, j.data)
			}
			// The rest is written later if writes take turns.
			if !wait(5*time.Second, func() bool { return len(got) > 0 || len(j.w.Bytes()) > 0 }) {
				c.Viol("WritePacket(cmd %02x, payload % x), while another connection is written, does not come to an end", j.cmd, j.data)
				return
			}
			if len(got) == 0 {
				got = j.w.Bytes()
			}
			if j.err != nil || !bytes.Equal(got, want) {
				c.Viol("WritePacket(cmd %02x, payload % x) wrote % x (%v) when another connection was written meanwhile; the protocol says % x", j.cmd, j.data, got, j.err, want)
			}
			if k < n && k > 0 {
				c.Count("writes_within_writes", 1)
			}
		}
		c.Eval(fmt.Sprintf("apart%d/%d/%x", n, via, js[n].cmd))
		// What was returned stays as it was.
		j := js[0]
		b, _ := libcomfo.MarshalPacket(libcomfo.Packet{Command: j.cmd, Data: append([]byte(nil), j.data...)})
		keep = append(keep, kept{"MarshalPacket", b, ref.Body(j.cmd, j.data)})
		if p, err := libcomfo.UnmarshalPacket(ref.Body(j.cmd, j.data)); err == nil {
			keep = append(keep, kept{"UnmarshalPacket", p.Data, j.data})
		}
		l := sim.NewLine()
		l.Push(append(append([]byte(nil), ref.AckSeq...), ref.Frame(j.cmd, j.data)...))
		l.Push(append(append([]byte(nil), ref.AckSeq...), ref.Frame(js[1].cmd, js[1].data)...))
		for k := 0; k < 2; k++ {
			t := time.NewTimer(time.Second)
			if p, err := libcomfo.ReadPacket(&sim.Plain{L: l}, t, true); err == nil {
				keep = append(keep, kept{"ReadPacket", p.Data, js[k].data})
			}
			t.Stop()
		}
		l.Fail(io.EOF)
		if len(keep) > 60 {
			keep = keep[20:]
		}
		for _, k := range keep {
			if !bytes.Equal(k.got, k.want) {
				c.Viol("what %s returned for % x has since become % x", k.what, k.want, k.got)
				return
			}
			c.Count("results_kept", 1)
		}
	}
}

func c01(c *Ctx) {
	one := func(cmd byte, data []byte, mode int) {
		if c.Skip() {
			return
		}
		want := ref.Frame(cmd, data)
		in := append([]byte(nil), data...)
		var w capture
		if _, err := libcomfo.WritePacket(libcomfo.Packet{Command: cmd, Data: in}, &w); err != nil {
			c.Viol("WritePacket(cmd %02x, payload % x): error %v", cmd, data, err)
			return
		}
		if !bytes.Equal(w.Bytes(), want) {
			c.Viol("WritePacket(cmd %02x, payload % x) wrote % x, the protocol says % x", cmd, data, w.Bytes(), want)
		}
		if !bytes.Equal(in, data) {
			c.Viol("WritePacket changed the caller's payload % x to % x", data, in)
		}
		if b, err := libcomfo.MarshalPacket(libcomfo.Packet{Command: cmd, Data: in}); err != nil || !bytes.Equal(b, ref.Body(cmd, data)) {
			c.Viol("MarshalPacket(cmd %02x, payload % x) = % x, %v", cmd, data, b, err)
		}
		body := ref.Body(cmd, data)
		if p, err := libcomfo.UnmarshalPacket(append([]byte(nil), body...)); err != nil || p.Command != cmd || !bytes.Equal(p.Data, data) {
			c.Viol("UnmarshalPacket(% x) = %v, %v", body, p, err)
		}
		l := sim.NewLine()
		stream := append(append([]byte(nil), ref.AckSeq...), want...)
		var chunks [][]byte
		if mode == 4 { // trickled in virtual time, within the timeout
			chunks = split(c.Rnd, stream, 3)
			go func() {
				d := 500 * time.Millisecond / time.Duration(len(chunks)+1)
				for _, ch := range chunks {
					time.Sleep(d)
					l.Push(ch)
				}
			}()
		} else {
			chunks = split(c.Rnd, stream, mode)
			for _, ch := range chunks {
				l.Push(ch)
			}
		}
		t := time.NewTimer(time.Second)
		p, err := libcomfo.ReadPacket(&sim.Plain{L: l}, t, true)
		t.Stop()
		if err != nil || p.Command != cmd || !bytes.Equal(p.Data, data) {
			c.Viol("ReadPacket of ACK + frame % x in %d reads (split mode %d) = %v, %v; sent cmd %02x payload % x", want, len(chunks), mode, p, err, cmd, data)
		}
		l.Fail(io.EOF)
		c.Eval(fmt.Sprintf("%x/%x/%d", cmd, data, mode))
		if c.Rnd.Intn(500) == 0 {
			c.Sample("cmd %02x payload % x in %d reads -> wire % x", cmd, data, len(chunks), want)
		}
	}
	cmdFor := func(data []byte, ck byte) byte { return ck - ref.Checksum(0, data) }

	// Enumerated part: only by the process with an even argument.
	if c.Arg == "enum" {
		al := []byte{ref.Esc, ref.End, ref.Beg, ref.Ack, 0x00}
		maxLen := 4
		if c.Thor {
			maxLen = 5
		}
		var rec func(p []byte)
		rec = func(p []byte) {
			for _, ck := range []byte{ref.Esc, ref.End, ref.Beg, ref.Ack, 0x55} {
				one(cmdFor(p, ck), p, c.Rnd.Intn(4))
			}
			if len(p) < maxLen {
				for _, b := range al {
					rec(append(append([]byte(nil), p...), b))
				}
			}
		}
		rec(nil)
		// Length byte equal to the escape byte, followed by every byte.
		for b := 0; b < 256; b++ {
			for m := 0; m < 4; m++ {
				p := randBytes(c.Rnd, 7)
				p[0] = byte(b)
				one(byte(c.Rnd.Intn(256)), p, m)
			}
		}
		// Lengths equal to every value, payload and checksum hostile.
		for n := 0; n < 256; n++ {
			for m := 0; m < 5; m++ {
				p := randBytes(c.Rnd, n)
				one(cmdFor(p, delims[c.Rnd.Intn(len(delims))]), p, m)
			}
			p := bytes.Repeat([]byte{ref.Esc}, n)
			one(byte(c.Rnd.Intn(256)), p, c.Rnd.Intn(4))
			one(cmdFor(p, ref.Esc), p, c.Rnd.Intn(4))
			// The largest sums there are, and constant payloads.
			one(0xFF, bytes.Repeat([]byte{0xFF}, n), c.Rnd.Intn(5))
			one(byte(c.Rnd.Intn(256)), bytes.Repeat([]byte{byte(c.Rnd.Intn(256))}, n), c.Rnd.Intn(5))
		}
		for _, n := range []int{256, 257, 262, 300, 511, 512, 513, 1000, 4096, 65535, 65536, 65541} {
			var w capture
			_, err := libcomfo.WritePacket(libcomfo.Packet{Command: 1, Data: randBytes(c.Rnd, n)}, &w)
			if err == nil || w.Len() != 0 {
				c.Viol("WritePacket with a payload of %d bytes: error %v, %d bytes written", n, err, w.Len())
			}
			if _, err := libcomfo.MarshalPacket(libcomfo.Packet{Command: 1, Data: randBytes(c.Rnd, n)}); err == nil {
				c.Viol("MarshalPacket accepts a payload of %d bytes", n)
			}
			var q capture
			if _, err := libcomfo.QueryPacket(libcomfo.Packet{Command: 1, Data: randBytes(c.Rnd, n)}, &q); err == nil || q.Len() != 0 {
				c.Viol("QueryPacket with a payload of %d bytes: error %v, %d bytes written", n, err, q.Len())
			}
			c.Eval(fmt.Sprint("oversize", n))
			c.Count("oversize", 1)
		}
		return
	}
	for i := 0; i < c.N; i++ {
		n := c.Rnd.Intn(24)
		if c.Rnd.Intn(6) == 0 {
			n = c.Rnd.Intn(256)
		}
		p := randBytes(c.Rnd, n)
		cmd := byte(c.Rnd.Intn(256))
		if c.Rnd.Intn(2) == 0 {
			cmd = cmdFor(p, delims[c.Rnd.Intn(len(delims))])
		}
		one(cmd, p, c.Rnd.Intn(5))
	}
	c01apart(c)
	// Full exchanges, through QueryPacket: the request is on the line and the
	// response is returned, for every command and payload.
	for i := 0; i < c.N/4; i++ {
		cmd := byte(c.Rnd.Intn(256))
		lens := []int{30, 30, 30, 256}
		data, reply := randBytes(c.Rnd, c.Rnd.Intn(lens[c.Rnd.Intn(4)])), randBytes(c.Rnd, c.Rnd.Intn(lens[c.Rnd.Intn(4)]))
		if cmd == 0 {
			continue
		}
		expect := c.Rnd.Intn(4) != 0
		l := sim.NewLine()
		var got []byte
		done := false
		l.OnWrite = func(p []byte) (int, error) {
			got = append(got, p...)
			if bytes.Equal(got, ref.Frame(cmd, data)) && !done {
				done = true
				b := append([]byte(nil), ref.AckSeq...)
				if expect {
					b = append(b, ref.Frame(cmd+1, reply)...)
				}
				for _, ch := range split(c.Rnd, b, c.Rnd.Intn(4)) {
					l.Push(ch)
				}
			}
			return len(p), nil
		}
		p, err := libcomfo.QueryPacket(libcomfo.Packet{Command: cmd, Data: data, Expect: expect}, sim.Conn([]string{"tcp", "plain"}[c.Rnd.Intn(2)], l))
		if err != nil || expect && (p.Command != cmd+1 || !bytes.Equal(p.Data, reply)) {
			c.Viol("QueryPacket(cmd %02x, payload % x), unit replies % x: got %v, %v; wrote % x", cmd, data, reply, p, err, got)
		}
		if want := append(ref.Frame(cmd, data), ref.AckSeq...); !bytes.Equal(got, want) {
			c.Viol("QueryPacket(cmd %02x, payload % x) wrote % x, expected % x", cmd, data, got, want)
		}
		l.Fail(io.EOF)
		c.Eval(fmt.Sprintf("q%x/%x/%x", cmd, data, reply))
		c.Count("queries", 1)
	}
}

// ---- C02 ----

// scripted answers the first request on the line with chunks and then
// optionally fails reads.
func scripted(l *sim.Line, chunks [][]byte, end error) {
	var once sync.Once
	var in []byte
	l.OnWrite = func(p []byte) (int, error) {
		in = append(in, p...)
		if bytes.HasSuffix(in, []byte{ref.Esc, ref.End}) {
			once.Do(func() {
				for _, ch := range chunks {
					l.Push(ch)
				}
				if end != nil {
					l.Fail(end)
				}
			})
		}
		return len(p), nil
	}
}

var kinds = []string{"tcp", "plain"}

type setCall struct {
	name string
	do   func(io.ReadWriter) error
}

// profileFaults: SetFanProfile reads the profiles and writes them. If the
// reply to either is not valid, the call fails; if it was the first, nothing
// is written.
func profileFaults(c *Ctx, n int) {
	l := sim.NewLine()
	u := sim.NewUnit(l)
	bad := byte(0)
	note := ""
	u.Planner = func(q sim.Req, h []byte) sim.Plan {
		if q.Cmd != bad {
			return sim.Plan{Steps: steps(c.Rnd, h, ms(c.Rnd.Intn(300))), Healthy: true}
		}
		bad = 0
		p := badReply(c.Rnd, q, h)
		if q.Cmd == ref.SetProfiles {
			// Nothing but the ACK matters here.
			p = sim.Plan{Note: "no acknowledgement"}
			if b := randBytes(c.Rnd, c.Rnd.Intn(4)); len(b) > 0 {
				if _, _, st := ref.ParseReply(b, false); st != ref.OK {
					p.Steps = []sim.Step{{B: b}}
				}
			}
		}
		note = p.Note
		return p
	}
	kind := kinds[c.Rnd.Intn(2)]
	for i := 0; i < n && !c.Failed(); i++ {
		if kind == "plain" {
			// Abandoned reads are not at issue here.
			l = sim.NewLine()
			v := u
			u = sim.NewUnit(l)
			u.Planner = v.Planner
		}
		conn := sim.Conn(kind, l)
		p := randBytes(c.Rnd, 14)
		u.SetState(ref.GetProfiles, p)
		var n0 int
		u.Lock(func() { n0 = len(u.Exchs); bad = []byte{ref.GetProfiles, ref.SetProfiles}[c.Rnd.Intn(2)] })
		which := bad
		m, s := uint8(c.Rnd.Intn(4)), uint8(c.Rnd.Intn(101))
		err := libcomfo.SetFanProfile(m, s, conn)
		time.Sleep(ms(3000))
		what := fmt.Sprintf("SetFanProfile(%d, %d) on %s with a reply to %02x that is not valid (%s)", m, s, kind, which, note)
		if err == nil {
			c.Viol("%s succeeds", what)
		}
		var got []string
		for _, r := range u.Since(n0) {
			got = append(got, fmt.Sprintf("%02x[% x]", r.Cmd, r.Data))
		}
		if which == ref.GetProfiles && (len(got) != 1 || !bytes.Equal(u.State(ref.GetProfiles), p)) {
			c.Viol("%s puts %v on the line; profiles before % x, after % x", what, got, p, u.State(ref.GetProfiles))
		}
		c.Eval(what)
		c.Count("failed_profile_changes", 1)
		if kind == "plain" {
			l.Fail(io.EOF)
			u.Stop()
		} else {
			// The line settles.
			for k := 0; k < 4; k++ {
				libcomfo.GetErrors(conn)
			}
		}
	}
	l.Fail(io.EOF)
}

var setCalls = []setCall{
	{"SetSpeed", func(c io.ReadWriter) error { return libcomfo.SetSpeed(3, c) }},
	{"SetComfort", func(c io.ReadWriter) error { return libcomfo.SetComfort(21, c) }},
	{"SetFanProfiles", func(c io.ReadWriter) error { return libcomfo.SetFanProfiles(&libcomfo.FanProfiles{InLow: 20}, c) }},
}

func c02(c *Ctx) {
	ends := []error{nil, io.EOF, io.ErrClosedPipe}
	get := func(cmd byte, sent []byte, stream []byte, end error, mustFail bool, what string) {
		if c.Skip() {
			return
		}
		l := sim.NewLine()
		kind := kinds[c.Rnd.Intn(2)]
		scripted(l, split(c.Rnd, stream, c.Rnd.Intn(4)), end)
		v, err := libGet(cmd, sim.Conn(kind, l))
		l.Fail(io.EOF)
		rc, rp, st := ref.ParseReply(stream, true)
		c.Eval(fmt.Sprintf("%x %s %x", cmd, what, stream))
		if err != nil {
			c.Count("rejected", 1)
			if st == ref.OK && rc == cmd+1 {
				if _, ok := ref.Decode(cmd, rp); ok {
					c.Viol("get %02x on %s: valid reply % x refused: %v (%s)", cmd, kind, stream, err, what)
				}
			}
			return
		}
		if st == ref.OK && rc == cmd+1 {
			if want, ok := ref.Decode(cmd, rp); !ok || !ref.Equal(want, v) {
				c.Viol("get %02x: valid reply % x gives %v, want %v (%s)", cmd, stream, v, want, what)
			}
			c.Count("accepted_valid", 1)
			return
		}
		want, ok := ref.Decode(cmd, sent)
		if mustFail || !ok || !ref.Equal(want, v) {
			c.Viol("get %02x on %s: invalid reply % x (%s, then %v) accepted as %v; unit sent payload % x", cmd, kind, stream, what, end, v, sent)
			return
		}
		c.Count("tolerated", 1)
	}
	set := func(s setCall, stream []byte, end error, what string) {
		if c.Skip() {
			return
		}
		l := sim.NewLine()
		kind := kinds[c.Rnd.Intn(2)]
		scripted(l, split(c.Rnd, stream, c.Rnd.Intn(4)), end)
		err := s.do(sim.Conn(kind, l))
		l.Fail(io.EOF)
		_, _, st := ref.ParseReply(stream, false)
		c.Eval(fmt.Sprintf("%s %s %x %v", s.name, what, stream, end))
		if st == ref.OK && err != nil {
			c.Viol("%s on %s: acknowledged (% x) but failed: %v", s.name, kind, stream, err)
		}
		if st != ref.OK && err == nil {
			c.Viol("%s on %s: reply % x (%s, then %v) contains no ACK at its start, yet success is reported", s.name, kind, stream, what, end)
		}
		if err != nil {
			c.Count("set_rejected", 1)
		} else {
			c.Count("set_accepted", 1)
		}
	}

	// query is a request of any kind, whose reply is the frame sent.
	query := func(cmd byte, sent, stream []byte, end error, mustFail bool, what string) {
		if c.Skip() {
			return
		}
		l := sim.NewLine()
		kind := kinds[c.Rnd.Intn(2)]
		scripted(l, split(c.Rnd, stream, c.Rnd.Intn(4)), end)
		v, err := libcomfo.QueryPacket(libcomfo.Packet{Command: cmd, Data: randBytes(c.Rnd, c.Rnd.Intn(3)), Expect: true}, sim.Conn(kind, l))
		l.Fail(io.EOF)
		rc, rp, st := ref.ParseReply(stream, true)
		c.Eval(fmt.Sprintf("q%x %s %x", cmd, what, stream))
		c.Count("queries", 1)
		valid := st == ref.OK && rc == cmd+1
		switch {
		case err != nil && valid:
			c.Viol("request %02x on %s: valid reply % x refused: %v (%s)", cmd, kind, stream, err, what)
		case err == nil && valid && (v.Command != rc || !bytes.Equal(v.Data, rp)):
			c.Viol("request %02x on %s: valid reply % x gives %v (%s)", cmd, kind, stream, v, what)
		case err == nil && !valid && (mustFail || v.Command != cmd+1 || !bytes.Equal(v.Data, sent)):
			c.Viol("request %02x on %s: invalid reply % x (%s, then %v) accepted as %v", cmd, kind, stream, what, end, v)
		}
	}
	if c.Arg == "enum" {
		for _, cmd := range []byte{0x01, 0x06, 0x0B, 0x34, 0x7F, 0xCD, 0xEF, 0xF2, 0xFE, 0xFF} {
			for o := 0; o < 256; o++ {
				p := randBytes(c.Rnd, c.Rnd.Intn(20))
				query(cmd, p, append(append([]byte(nil), ref.AckSeq...), ref.Frame(byte(o), p)...), nil, byte(o) != cmd+1, fmt.Sprintf("reply code %02x", o))
			}
			for n := 0; n < 256; n++ {
				p := randBytes(c.Rnd, n)
				full := append(append([]byte(nil), ref.AckSeq...), ref.Frame(cmd+1, p)...)
				query(cmd, p, full, ends[c.Rnd.Intn(3)], false, "valid")
				j := c.Rnd.Intn(len(full))
				query(cmd, p, full[:j], ends[c.Rnd.Intn(3)], true, "truncated")
				m := append([]byte(nil), full...)
				m[j] ^= byte(1 + c.Rnd.Intn(255))
				query(cmd, p, m, ends[c.Rnd.Intn(3)], j != 4, fmt.Sprintf("byte %d changed", j))
			}
		}
		// Every single change of small frames.
		for _, cmd := range []byte{0x0A, 0x33, 0xFF} {
			for n := 0; n < 3; n++ {
				p := randBytes(c.Rnd, n)
				full := append(append([]byte(nil), ref.AckSeq...), ref.Frame(cmd+1, p)...)
				for j := range full {
					for x := 1; x < 256; x++ {
						m := append([]byte(nil), full...)
						m[j] ^= byte(x)
						query(cmd, p, m, ends[x%3], j != 4, fmt.Sprintf("byte %d changed", j))
					}
				}
			}
		}
		// Frames too short for a command and a checksum, for every request.
		for cmd := 0; cmd < 256; cmd++ {
			for n := 0; n < 4; n++ {
				for _, e := range ends {
					body := append([]byte{7, 0xF0}, []byte{0, byte(cmd + 1), 0}[:n]...)
					if n == 1 && c.Rnd.Intn(2) == 0 {
						body[2] = byte(cmd + 1)
					}
					query(byte(cmd), nil, append(append(append([]byte(nil), ref.AckSeq...), body...), 7, 0x0F), e, true, "short frame")
				}
			}
		}
		for _, cmd := range ref.Gets {
			p := randBytes(c.Rnd, ref.PayloadLen[cmd])
			if cmd == ref.GetFans {
				p = []byte{7, 15, 0x04, 7, 7, 0xF0}
			}
			full := append(append([]byte(nil), ref.AckSeq...), ref.Frame(cmd+1, p)...)
			get(cmd, p, full, nil, false, "valid")
			get(cmd, p, full, io.EOF, false, "valid then EOF")
			for i := 0; i <= len(full); i++ {
				// Truncation, with each kind of end.
				if i < len(full) {
					for _, e := range ends {
						get(cmd, p, full[:i], e, true, fmt.Sprintf("truncated to %d bytes", i))
					}
				}
				// Insertions. A stray escape byte inside the payload carries
				// no data and may be ignored.
				for _, b := range append([]byte{0, 1, 0x55, 0xFF}, delims[1:]...) {
					m := append(append(append([]byte(nil), full[:i]...), b), full[i:]...)
					if i == len(full) {
						get(cmd, p, m, nil, false, "trailing byte")
						continue
					}
					get(cmd, p, m, nil, b != ref.Esc || i < 6 || i == 6 && full[6] != ref.Esc, fmt.Sprintf("%02x inserted at %d", b, i))
				}
				if i == len(full) {
					break
				}
				// Deletion.
				m := append(append([]byte(nil), full[:i]...), full[i+1:]...)
				get(cmd, p, m, ends[c.Rnd.Intn(3)], true, fmt.Sprintf("byte %d deleted", i))
				// Substitutions. The constant first header byte may be ignored.
				for b := 0; b < 256; b++ {
					if byte(b) == full[i] {
						continue
					}
					m := append([]byte(nil), full...)
					m[i] = byte(b)
					get(cmd, p, m, ends[c.Rnd.Intn(3)], i != 4, fmt.Sprintf("byte %d is %02x", i, b))
				}
			}
			// The valid reply to every other command.
			for o := 0; o < 256; o++ {
				if byte(o) == cmd+1 {
					continue
				}
				q := p
				if n, ok := ref.PayloadLen[byte(o-1)]; ok && c.Rnd.Intn(2) == 0 {
					q = randBytes(c.Rnd, n)
				}
				get(cmd, p, append(append([]byte(nil), ref.AckSeq...), ref.Frame(byte(o), q)...), nil, true, fmt.Sprintf("reply code %02x", o))
			}
			frame := ref.Frame(cmd+1, p)
			cat := func(bs ...[]byte) (o []byte) {
				for _, b := range bs {
					o = append(o, b...)
				}
				return
			}
			nack := cat(frame)
			get(cmd, p, nack, nil, true, "frame without ACK")
			get(cmd, p, nack, io.EOF, true, "frame without ACK")
			get(cmd, p, cat([]byte{7, 0x0F}, frame), nil, true, "end sequence for ACK")
			get(cmd, p, cat([]byte{7, 0xF0}, frame), nil, true, "start sequence for ACK")
			get(cmd, p, cat(ref.AckSeq, ref.AckSeq, frame), nil, true, "two ACKs")
			get(cmd, p, cat(ref.AckSeq, ref.AckSeq, frame[2:]), nil, true, "ACK for start sequence")
			get(cmd, p, cat(ref.AckSeq, frame[:len(frame)-2], ref.AckSeq), nil, true, "ACK for end sequence")
			get(cmd, p, cat(ref.AckSeq, frame[:len(frame)-2], frame[:2]), nil, true, "start for end sequence")
			get(cmd, p, ref.AckSeq, nil, true, "ACK only")
			get(cmd, p, ref.AckSeq, io.EOF, true, "ACK only")
			get(cmd, p, cat(ref.AckSeq, []byte{7, 0xF0, 7, 0x0F}), nil, true, "empty frame")
			get(cmd, p, cat(ref.Frame(cmd, nil), ref.AckSeq, frame), nil, true, "echo of the request first")
			get(cmd, p, cat(ref.Frame(cmd, nil)), nil, true, "echo of the request only")
			get(cmd, p, bytes.Repeat([]byte{0x55}, 70000), nil, true, "70000 bytes of noise")
			get(cmd, p, cat(ref.AckSeq, bytes.Repeat([]byte{0x55}, 70000)), nil, true, "70000 bytes of noise after ACK")
			get(cmd, p, cat(ref.AckSeq, frame[:5], bytes.Repeat([]byte{0x55}, 70000)), nil, true, "70000 bytes of noise in the frame")
		}
		for _, s := range setCalls {
			for _, e := range ends {
				set(s, nil, e, "nothing")
				set(s, []byte{ref.Esc}, e, "half an ACK")
				set(s, ref.AckSeq, e, "ACK")
				set(s, ref.Frame(0x9A, []byte{1}), e, "frame, no ACK")
				set(s, ref.Frame(0x99, []byte{3}), e, "echo, no ACK")
				set(s, append([]byte{0}, ref.AckSeq...), e, "noise, ACK")
				set(s, append([]byte{7}, ref.AckSeq...), e, "escape, ACK")
				set(s, bytes.Repeat([]byte{0xF3}, 70000), e, "70000 bytes of noise")
				set(s, bytes.Repeat([]byte{0x07}, 70000), e, "70000 escapes")
			}
			for a := 0; a < 256; a++ {
				for b := 0; b < 256; b++ {
					if s.name == "SetSpeed" || a == ref.Esc || b == ref.Ack || c.Rnd.Intn(64) == 0 {
						set(s, []byte{byte(a), byte(b)}, ends[(a+b)%3], "two bytes")
					}
				}
			}
		}
		return
	}
	profileFaults(c, c.N/100)
	for i := 0; i < c.N; i++ {
		cmd := ref.Gets[c.Rnd.Intn(8)]
		p := randBytes(c.Rnd, ref.PayloadLen[cmd])
		full := append(append([]byte(nil), ref.AckSeq...), ref.Frame(cmd+1, p)...)
		switch c.Rnd.Intn(5) {
		case 0: // one substitution in a hostile payload
			j := c.Rnd.Intn(len(full))
			m := append([]byte(nil), full...)
			m[j] ^= byte(1 + c.Rnd.Intn(255))
			get(cmd, p, m, ends[c.Rnd.Intn(3)], j != 4, fmt.Sprintf("byte %d changed", j))
		case 1: // truncation
			j := c.Rnd.Intn(len(full))
			get(cmd, p, full[:j], ends[c.Rnd.Intn(3)], true, "truncated")
		case 2: // a valid reply of random content
			get(cmd, p, full, ends[c.Rnd.Intn(3)], false, "valid")
		case 3: // random stream from the delimiter alphabet: whatever comes back must be a valid reply
			s := randBytes(c.Rnd, c.Rnd.Intn(60))
			if c.Rnd.Intn(2) == 0 {
				s = append(append([]byte(nil), ref.AckSeq...), s...)
			}
			l := sim.NewLine()
			scripted(l, split(c.Rnd, s, c.Rnd.Intn(4)), ends[c.Rnd.Intn(3)])
			_, err := libGet(cmd, sim.Conn(kinds[c.Rnd.Intn(2)], l))
			l.Fail(io.EOF)
			c.Eval(fmt.Sprintf("r%x%x", cmd, s))
			if rc, _, st := ref.ParseReply(s, true); err == nil && (st != ref.OK || rc != cmd+1) {
				c.Viol("get %02x: random stream % x accepted", cmd, s)
			}
			set(setCalls[c.Rnd.Intn(3)], s, ends[c.Rnd.Intn(3)], "random")
		case 4: // parsers on arbitrary bytes
			s := randBytes(c.Rnd, c.Rnd.Intn(40))
			if c.Rnd.Intn(2) == 0 {
				s = ref.Body(cmd, randBytes(c.Rnd, c.Rnd.Intn(20)))
				s[c.Rnd.Intn(len(s))] ^= byte(c.Rnd.Intn(256))
			}
			pk, err := libcomfo.UnmarshalPacket(append([]byte(nil), s...))
			rc, rp, n, st := ref.ParseFrame(append(append([]byte{ref.Esc, ref.Beg}, s...), ref.Esc, ref.End))
			valid := st == ref.OK && n == len(s)+4
			if valid && (err != nil || pk.Command != rc || !bytes.Equal(pk.Data, rp)) {
				c.Viol("UnmarshalPacket refuses or misreads the valid % x: %v %v", s, pk, err)
			}
			if err == nil && (len(s) < 4 || pk.Command != s[1] || int(s[2]) != len(pk.Data) || s[len(s)-1] != ref.Checksum(pk.Command, pk.Data)) {
				c.Viol("UnmarshalPacket accepts % x (command, length or checksum wrong) as %v", s, pk)
			}
			r, err := libcomfo.DecodeResponse(libcomfo.Packet{Command: byte(c.Rnd.Intn(256)), Data: s})
			_ = r
			_ = err
			c.Eval(fmt.Sprintf("u%x", s))
		}
	}
}

// ---- C03 ----

func c03(c *Ctx) {
	try := func(cmd byte, p []byte) {
		if c.Skip() {
			return
		}
		l := sim.NewLine()
		scripted(l, split(c.Rnd, append(append([]byte(nil), ref.AckSeq...), ref.Frame(cmd+1, p)...), c.Rnd.Intn(4)), nil)
		v, err := libGet(cmd, sim.Conn(kinds[c.Rnd.Intn(2)], l))
		l.Fail(io.EOF)
		want, ok := ref.Decode(cmd, p)
		c.Eval(fmt.Sprintf("%x %x", cmd, p))
		if ok != (err == nil) {
			c.Viol("get %02x with payload % x (%d bytes): error %v, want error: %v", cmd, p, len(p), err, !ok)
		} else if ok && !ref.Equal(v, want) {
			c.Viol("get %02x with payload % x: got %v, layout says %v", cmd, p, v, want)
		}
		if ok {
			c.Count("decoded", 1)
			if c.Rnd.Intn(2000) == 0 {
				c.Sample("get %02x payload % x -> %v", cmd, p, v)
			}
		} else {
			c.Count("refused", 1)
		}
	}
	if c.Arg == "enum" {
		for _, cmd := range ref.Gets {
			n := ref.PayloadLen[cmd]
			for k := 0; k < 256; k++ {
				try(cmd, randBytes(c.Rnd, k))
				try(cmd, make([]byte, k))
			}
			// Every byte value at every position.
			for i := 0; i < n; i++ {
				for b := 0; b < 256; b++ {
					p := randBytes(c.Rnd, n)
					p[i] = byte(b)
					try(cmd, p)
				}
			}
		}
		// Every fan speed word whose handling is special, at both positions.
		for w := 0; w < 4096; w++ {
			x := w
			if w >= 2048 {
				x = c.Rnd.Intn(65536)
			}
			p := []byte{byte(c.Rnd.Intn(256)), byte(c.Rnd.Intn(256)), byte(x >> 8), byte(x), 0x04, 0xE2}
			try(ref.GetFans, p)
			try(ref.GetFans, []byte{p[0], p[1], 0x04, 0xE2, p[2], p[3]})
		}
		// The decoder alone on every word at every place words are, and on many
		// (thorough: all) 24-bit counters.
		dec := func(cmd byte, p []byte) {
			res, err := libcomfo.DecodeResponse(libcomfo.Packet{Command: cmd + 1, Data: p})
			want, ok := ref.Decode(cmd, p)
			c.Count("words", 1)
			if ok != (err == nil) {
				c.Viol("DecodeResponse(%02x, % x): error %v, want error: %v", cmd+1, p, err, !ok)
			} else if ok {
				if got := respVal(res); !ref.Equal(got, want) {
					c.Viol("DecodeResponse(%02x, % x) gives %v, want %v", cmd+1, p, got, want)
				}
			}
		}
		for x := 0; x < 65536 && !c.Failed(); x++ {
			if x%c.shards != c.shard {
				continue
			}
			hi, lo, y := byte(x>>8), byte(x), 29+c.Rnd.Intn(65507)
			dec(ref.GetFans, []byte{hi, lo, hi, lo, byte(y >> 8), byte(y)})
			dec(ref.GetFans, []byte{lo, hi, byte(y >> 8), byte(y), hi, lo})
			dec(ref.GetFans, []byte{lo, lo, hi, lo, hi, lo})
			p := randBytes(c.Rnd, ref.PayloadLen[ref.GetHours])
			for i := 9; i < 17; i += 2 {
				p[i], p[i+1] = hi, lo
			}
			for i := 0; i < 9; i += 3 {
				p[i+x%2], p[i+x%2+1] = hi, lo
			}
			dec(ref.GetHours, p)
			for _, cmd := range ref.Gets { // pairs of bytes anywhere
				p := randBytes(c.Rnd, ref.PayloadLen[cmd])
				i := c.Rnd.Intn(len(p))
				j := (i + 1 + c.Rnd.Intn(len(p)-1)) % len(p)
				p[i], p[j] = hi, lo
				dec(cmd, p)
			}
		}
		step := 61
		if c.Thor {
			step = 1
		}
		for x := c.Rnd.Intn(step); x < 1<<24 && !c.Failed(); x += step {
			if x/step%c.shards != c.shard {
				continue
			}
			p := make([]byte, 20)
			for _, i := range []int{0, 3, 6, 17} {
				p[i], p[i+1], p[i+2] = byte(x>>16), byte(x>>8), byte(x)
			}
			p[9+x%8] = byte(x)
			dec(ref.GetHours, p)
		}
		return
	}
	for i := 0; i < c.N; i++ {
		cmd := ref.Gets[c.Rnd.Intn(8)]
		n := ref.PayloadLen[cmd]
		if c.Rnd.Intn(20) == 0 {
			n = c.Rnd.Intn(256)
		}
		p := randBytes(c.Rnd, n)
		if cmd == ref.GetBootloader || cmd == ref.GetFirmware {
			if n == 13 && c.Rnd.Intn(2) == 0 {
				al := " \t\n\r\v\f\x00\xA0\x85aZ9-\xC3\xA9"
				for j := 3; j < 13; j++ {
					p[j] = al[c.Rnd.Intn(len(al))]
				}
			}
		}
		try(cmd, p)
	}
	// Results share no state: decode concurrently and repeatedly.
	for round := 0; round < c.N/50+1; round++ {
		cmd := ref.Gets[c.Rnd.Intn(8)]
		n := 8
		pays := make([][]byte, n)
		outs := make([]libcomfo.Response, n)
		errs := make([]error, n)
		var wg sync.WaitGroup
		for i := range pays {
			pays[i] = randBytes(c.Rnd, ref.PayloadLen[cmd])
			wg.Add(1)
			go func() {
				defer wg.Done()
				outs[i], errs[i] = libcomfo.DecodeResponse(libcomfo.Packet{Command: cmd + 1, Data: append([]byte(nil), pays[i]...)})
			}()
		}
		wg.Wait()
		for i := range pays {
			want, ok := ref.Decode(cmd, pays[i])
			if ok != (errs[i] == nil) {
				c.Viol("DecodeResponse(%02x, % x): error %v, want error: %v", cmd+1, pays[i], errs[i], !ok)
				continue
			}
			if !ok {
				continue
			}
			if got := respVal(outs[i]); !ref.Equal(got, want) {
				c.Viol("DecodeResponse(%02x, % x) (one of %d concurrent calls) gives %v, want %v", cmd+1, pays[i], n, got, want)
			}
		}
		c.Eval(fmt.Sprintf("conc %x %x", cmd, pays[0]))
		c.Count("concurrent_decodes", n)
	}
}

func respVal(r libcomfo.Response) ref.Val {
	u := func(b uint8) uint64 { return uint64(b) }
	switch x := r.(type) {
	case *libcomfo.Fans:
		return ref.Val{"InPercent": u(x.InPercent), "OutPercent": u(x.OutPercent), "InSpeed": uint64(x.InSpeed), "OutSpeed": uint64(x.OutSpeed)}
	case *libcomfo.BootInfo:
		return ref.Val{"MajorVersion": u(x.MajorVersion), "MinorVersion": u(x.MinorVersion), "BetaVersion": u(x.BetaVersion), "DeviceName": x.DeviceName}
	case *libcomfo.FanProfiles:
		return profVal(*x)
	case *libcomfo.Temps:
		return ref.Val{"Comfort": float64(x.Comfort), "OutsideAir": float64(x.OutsideAir), "SupplyAir": float64(x.SupplyAir), "InsideAir": float64(x.InsideAir),
			"ExhaustAir": float64(x.ExhaustAir), "GeoHeat": float64(x.GeoHeat), "Reheating": float64(x.Reheating), "KitchenHood": float64(x.KitchenHood)}
	case *libcomfo.Errors:
		return ref.Val{"Filter": x.Filter}
	case *libcomfo.Bypass:
		return ref.Val{"Factor": u(x.Factor), "Level": u(x.Level), "Correction": u(x.Correction), "SummerMode": x.SummerMode}
	case *libcomfo.Hours:
		return ref.Val{"FanAway": uint64(x.FanAway), "FanLow": uint64(x.FanLow), "FanMid": uint64(x.FanMid), "FanHigh": uint64(x.FanHigh),
			"FrostProtect": uint64(x.FrostProtect), "Reheating": uint64(x.Reheating), "BypassOpen": uint64(x.BypassOpen), "Filter": uint64(x.Filter)}
	}
	return ref.Val{"unexpected type": fmt.Sprintf("%T", r)}
}

// ---- C04 ----

// c04 drives the setters against a unit and checks line and state.
func c04(c *Ctx) {
	l := sim.NewLine()
	u := sim.NewUnit(l)
	u.Strict = true
	u.Planner = func(r sim.Req, healthy []byte) sim.Plan {
		var steps []sim.Step
		for _, ch := range split(c.Rnd, healthy, c.Rnd.Intn(4)) {
			steps = append(steps, sim.Step{B: ch})
		}
		return sim.Plan{Steps: steps, Healthy: true}
	}
	conn := sim.Conn(kinds[c.Rnd.Intn(2)], l)
	// check runs f and compares the frames the unit received.
	check := func(what string, f func() error, wantErr bool, want ...sim.Req) {
		if c.Failed() {
			return
		}
		var n0, b0, b1 int
		u.Lock(func() { n0, b0 = len(u.Exchs), u.Bytes })
		err := f()
		got := u.Since(n0)
		u.Lock(func() { b1 = u.Bytes })
		c.Eval(what)
		if wantErr != (err != nil) {
			c.Viol("%s: error %v, want error: %v", what, err, wantErr)
			return
		}
		if wantErr {
			if b1 != b0 {
				c.Viol("%s is refused, but %d bytes were written to the line", what, b1-b0)
			}
			c.Count("refused", 1)
			return
		}
		c.Count("accepted", 1)
		var gs, ws []string
		for _, r := range got {
			gs = append(gs, fmt.Sprintf("%02x[% x]", r.Cmd, r.Data))
		}
		for _, r := range want {
			ws = append(ws, fmt.Sprintf("%02x[% x]", r.Cmd, r.Data))
		}
		if fmt.Sprint(gs) != fmt.Sprint(ws) {
			c.Viol("%s put %v on the line, want %v", what, gs, ws)
		}
		if c.Rnd.Intn(3000) == 0 {
			c.Sample("%s -> %v", what, gs)
		}
	}
	if c.Arg == "enum" {
		for v := 0; v < 256; v++ {
			b := uint8(v)
			check(fmt.Sprintf("SetSpeed(%d)", v), func() error { return libcomfo.SetSpeed(b, conn) }, v > 4, sim.Req{Cmd: ref.SetSpeed, Data: []byte{b}})
			check(fmt.Sprintf("SetComfort(%d)", v), func() error { return libcomfo.SetComfort(b, conn) }, v > 107, sim.Req{Cmd: ref.SetComfort, Data: []byte{byte((v + 20) * 2)}})
			if v <= 107 {
				if got := u.State(ref.GetTemps)[0]; got != byte((v+20)*2) {
					c.Viol("after SetComfort(%d) the unit holds %02x", v, got)
				}
				t, err := libcomfo.GetTemperatures(conn)
				if err != nil || float64(t.Comfort) != float64(v) {
					c.Viol("after SetComfort(%d) GetTemperatures gives %v, %v", v, t.Comfort, err)
				}
			}
		}
	}
	setProfile := func(mode, speed uint8) {
		p := u.State(ref.GetProfiles)
		valid := mode <= 3 && speed <= 100
		w := append([]byte(nil), p...)
		if valid {
			switch mode {
			case 0:
				w[0], w[3] = speed, speed
			case 1:
				w[1], w[4] = speed, speed
			case 2:
				w[2], w[5] = speed, speed
			case 3:
				w[10], w[11] = speed, speed
			}
		}
		check(fmt.Sprintf("SetFanProfile(%d, %d) on % x", mode, speed, p), func() error { return libcomfo.SetFanProfile(mode, speed, conn) }, !valid,
			sim.Req{Cmd: ref.GetProfiles}, sim.Req{Cmd: ref.SetProfiles, Data: []byte{w[0], w[1], w[2], w[3], w[4], w[5], w[10], w[11]}})
		q := u.State(ref.GetProfiles)
		for i := range w {
			if i == 6 || i == 7 { // readings of the running fans
				continue
			}
			if q[i] != w[i] {
				c.Viol("after SetFanProfile(%d, %d) the unit holds % x, want % x", mode, speed, q, w)
				break
			}
		}
	}
	if c.Arg == "enum" {
		for m := 0; m < 256; m++ {
			for s := 0; s < 256; s++ {
				if m < 6 || s%16 == 0 || s == 100 || s == 101 || c.Rnd.Intn(16) == 0 {
					setProfile(uint8(m), uint8(s))
				}
			}
		}
	}
	profileFaults(c, c.N/50)
	for i := 0; i < c.N && !c.Failed(); i++ {
		p := randBytes(c.Rnd, 14)
		u.SetState(ref.GetProfiles, p)
		setProfile(uint8(c.Rnd.Intn(5)), uint8(c.Rnd.Intn(110)))
		fp := libcomfo.FanProfiles{OutAway: uint8(c.Rnd.Intn(256)), OutLow: uint8(c.Rnd.Intn(256)), OutMid: uint8(c.Rnd.Intn(256)), OutHigh: uint8(c.Rnd.Intn(256)),
			InAway: uint8(c.Rnd.Intn(256)), InLow: uint8(c.Rnd.Intn(256)), InMid: uint8(c.Rnd.Intn(256)), InHigh: uint8(c.Rnd.Intn(256)),
			CurrentIn: 9, CurrentOut: 8, CurrentMode: 3, InFanActive: true}
		save := fp
		check(fmt.Sprintf("SetFanProfiles(%v)", fp), func() error { return libcomfo.SetFanProfiles(&fp, conn) }, false,
			sim.Req{Cmd: ref.SetProfiles, Data: []byte{fp.OutAway, fp.OutLow, fp.OutMid, fp.InAway, fp.InLow, fp.InMid, fp.OutHigh, fp.InHigh}})
		if fp != save {
			c.Viol("SetFanProfiles changed the caller's structure")
		}
		// Back-to-back: read, modify, write.
		r, err := libcomfo.GetFanProfiles(conn)
		if err != nil || r.InAway != fp.InAway || r.OutHigh != fp.OutHigh || r.InHigh != fp.InHigh || r.OutMid != fp.OutMid || r.OutLow != fp.OutLow ||
			r.OutAway != fp.OutAway || r.InLow != fp.InLow || r.InMid != fp.InMid {
			c.Viol("SetFanProfiles(%v), then GetFanProfiles = %v, %v", fp, r, err)
		}
	}
	u.Lock(func() {
		for _, v := range u.Viols {
			c.Viol("%s", v)
		}
		c.Count("exchanges", len(u.Exchs))
	})
}
