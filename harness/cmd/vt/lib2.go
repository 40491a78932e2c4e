package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/ti-mo/comfo/libcomfo"

	"verif/ref"
	"verif/sim"
)

func init() {
	workloads["c05"] = c05
	workloads["c06"] = c06
	workloads["c07"] = c07
	workloads["c08"] = c08
}

// scale shrinks the delays of a workload that also runs in real time.
var scale = 1.0

func ms(n int) time.Duration { return time.Duration(float64(n) * scale * float64(time.Millisecond)) }

// freshener makes every reading of a kind distinguishable.
type freshener struct{ n map[byte]int }

func (f *freshener) make(r sim.Req, p []byte) []byte {
	if f.n == nil {
		f.n = map[byte]int{}
	}
	f.n[r.Cmd]++
	k := f.n[r.Cmd]
	// mix spreads the counter over all bytes of the payload.
	mix := func(i int) byte { return byte((k*(2*i+1) + i*i*29) ^ (k >> 8 * (i & 1))) }
	switch r.Cmd {
	case ref.GetTemps:
		for i := range p {
			p[i] = 2 * (mix(i) & 0x7F)
		}
		p[0], p[1] = 2*byte(k&0x7F), 2*byte(k>>7&0x7F)
	case ref.GetFans:
		p[0], p[1] = byte(k), byte(k>>8)
		p[2], p[3] = 4+mix(2)&0x0F, mix(3)
		p[4], p[5] = 4+mix(4)&0x0F, mix(5)
	case ref.GetBootloader, ref.GetFirmware:
		p[0], p[1], p[2] = byte(k), byte(k>>8), mix(2)
		copy(p[3:], fmt.Sprintf("%-10s", fmt.Sprintf("n%d", k)))
	case ref.GetErrors:
		p[8] = byte(k) & 1
	case ref.GetBypass:
		p[2], p[3], p[4], p[6] = byte(k), byte(k>>8), mix(4), byte(k)&1
	case ref.GetHours:
		for i := range p {
			p[i] = mix(i)
		}
		p[1], p[2] = byte(k>>8), byte(k)
	case ref.GetProfiles:
		return nil // has the state of the settings
	}
	return p
}

// steps delivers b in random pieces over the time d.
func steps(r *rand.Rand, b []byte, d time.Duration) (out []sim.Step) {
	ch := split(r, b, r.Intn(4))
	for i, c := range ch {
		var w time.Duration
		if d > 0 {
			if i == 0 {
				w = d / 2
			} else if len(ch) > 1 {
				w = d / 2 / time.Duration(len(ch)-1)
			}
		}
		out = append(out, sim.Step{D: w, B: c})
	}
	return
}

// call is a recorded call at the client boundary.
type call struct {
	id       int
	op       string
	get      byte
	val      ref.Val
	data     []byte // set: payload expected on the line
	set      byte
	own      byte   // request the library has no name for, with data
	raw      []byte // its answer
	err      error
	t0, t1   time.Time
	s0, s1   int // requests seen by the unit before and after
	failable bool
}

// ---- C05 ----

func c05(c *Ctx) {
	for h := 0; h < c.N && !c.Failed(); h++ {
		c05history(c)
	}
}

func c05history(c *Ctx) {
	r := rand.New(rand.NewSource(c.Rnd.Int63()))
	l := sim.NewLine()
	u := sim.NewUnit(l)
	u.Strict = true
	var fr freshener
	u.Fresh = func(q sim.Req, p []byte) []byte { return fr.make(q, p) }
	slow := r.Intn(3)
	faults := r.Intn(4) == 0
	kind := "tcp"
	if !faults && r.Intn(3) == 0 {
		kind = "plain"
	}
	var lastSilent time.Time
	var silentID int
	u.OnReq = func(q sim.Req) {
		if !lastSilent.IsZero() && scale == 1 {
			if d := q.At.Sub(lastSilent); d < 900*time.Millisecond {
				c.Viol("request #%d (command %02x) was sent %v after request #%d, which was still unanswered", q.Seq, q.Cmd, d, silentID)
			}
		}
		lastSilent = time.Time{}
	}
	own := map[int][]byte{} // replies to requests the library has no name for
	u.Planner = func(q sim.Req, healthy []byte) sim.Plan {
		unnamed := q.Cmd == 0x21 || q.Cmd == 0x71 || q.Cmd == 0x35
		if unnamed && q.Cmd != 0x35 {
			p := randBytes(r, []int{0, r.Intn(16), r.Intn(256), 255}[r.Intn(4)])
			p = append(p[:max(0, len(p)-2)], byte(q.Seq>>8), byte(q.Seq))
			if r.Intn(8) == 0 {
				p = nil
			}
			own[q.Seq] = p
			healthy = append(healthy, ref.Frame(q.Cmd+1, p)...)
		}
		if faults && r.Intn(5) == 0 {
			lastSilent, silentID = q.At, q.Seq
			return sim.Plan{Note: "silent", NoApply: unnamed}
		}
		d := time.Duration(0)
		switch slow {
		case 1:
			d = ms(r.Intn(60))
		case 2:
			d = ms(r.Intn(600))
		}
		return sim.Plan{Steps: steps(r, healthy, d), Healthy: true, NoApply: unnamed}
	}
	conn := sim.Conn(kind, l)
	nw := 2 + r.Intn(7)
	nops := 2 + r.Intn(6)
	var mu sync.Mutex
	var calls []*call
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < nops; i++ {
				if wr.Intn(3) == 0 {
					time.Sleep(ms(wr.Intn(300)))
				}
				k := &call{id: w*100 + i}
				k.s0, k.t0 = u.Count(), time.Now()
				switch op := wr.Intn(13); {
				case op > 10:
					k.own = []byte{0x21, 0x71, 0x35}[wr.Intn(3)]
					k.data = randBytes(wr, wr.Intn(12))
					var p libcomfo.Packet
					p, k.err = libcomfo.QueryPacket(libcomfo.Packet{Command: k.own, Data: append([]byte(nil), k.data...), Expect: k.own != 0x35}, conn)
					if k.raw = p.Data; k.err == nil && k.own != 0x35 && p.Command != k.own+1 {
						c.Viol("call %d (request %02x) returned the reply %02x", k.id, k.own, p.Command)
					}
				case op < 8:
					k.get = ref.Gets[op]
					k.val, k.err = libGet(k.get, conn)
				case op == 8:
					v := uint8(wr.Intn(5))
					k.set, k.data = ref.SetSpeed, []byte{v}
					k.err = libcomfo.SetSpeed(v, conn)
				case op == 9:
					v := uint8(wr.Intn(108))
					k.set, k.data = ref.SetComfort, []byte{(v + 20) * 2}
					k.err = libcomfo.SetComfort(v, conn)
				case op == 10:
					b := randBytes(wr, 8)
					k.set, k.data = ref.SetProfiles, b
					k.err = libcomfo.SetFanProfiles(&libcomfo.FanProfiles{OutAway: b[0], OutLow: b[1], OutMid: b[2], InAway: b[3], InLow: b[4], InMid: b[5], OutHigh: b[6], InHigh: b[7]}, conn)
				}
				k.t1, k.s1 = time.Now(), u.Count()
				mu.Lock()
				calls = append(calls, k)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	time.Sleep(ms(50))
	u.Lock(func() {
		for _, v := range u.Viols {
			c.Viol("%s (%d callers, %s connection)", v, nw, kind)
		}
		var order []byte
		used := map[int]bool{}
		for _, e := range u.Exchs {
			order = append(order, e.Req.Cmd)
			if e.Plan.Healthy && e.Acks != 1 {
				c.Viol("exchange #%d (command %02x), completely answered, was acknowledged %d times", e.Req.Seq, e.Req.Cmd, e.Acks)
			}
		}
		for _, k := range calls {
			if k.err != nil {
				if !faults {
					c.Viol("call %d (get %02x, set %02x, other %02x) failed although the unit answered everything: %v", k.id, k.get, k.set, k.own, k.err)
				}
				c.Count("failed_calls", 1)
				continue
			}
			found := false
			for i := k.s0; i < k.s1 && i < len(u.Exchs); i++ {
				e := u.Exchs[i]
				if k.get != 0 && e.Req.Cmd == k.get && e.Plan.Healthy {
					if want, ok := ref.Decode(k.get, e.Reply.Payload); ok && ref.Equal(want, k.val) && (k.get == ref.GetErrors || k.get == ref.GetProfiles || !used[i]) {
						found, used[i] = true, true
						break
					}
				}
				if k.own != 0 && e.Req.Cmd == k.own && bytes.Equal(e.Req.Data, k.data) && !used[i] && e.Plan.Healthy && bytes.Equal(own[e.Req.Seq], k.raw) {
					found, used[i] = true, true
					break
				}
				if k.set != 0 && e.Req.Cmd == k.set && bytes.Equal(e.Req.Data, k.data) && !used[i] && e.Plan.Healthy {
					found, used[i] = true, true
					break
				}
			}
			if !found {
				c.Viol("call %d (get %02x, set %02x, other %02x, % x) returned %v % x, which is no answer to a request of its own sent during the call", k.id, k.get, k.set, k.own, k.data, k.val, k.raw)
			}
		}
		if len(u.Exchs) != len(calls) {
			c.Viol("%d calls put %d requests on the line", len(calls), len(u.Exchs))
		}
		c.Eval(fmt.Sprintf("%x %d %v", order, nw, faults))
		c.Count("exchanges", len(u.Exchs))
		c.Count("calls", len(calls))
		if r.Intn(40) == 0 {
			c.Sample("%d callers on %s, slow %d, faults %v: request order % x", nw, kind, slow, faults, order)
		}
	})
	l.Fail(io.EOF)
	u.Stop()
}

// ---- C06 ----

func c06(c *Ctx) {
	type job struct {
		name string
		cmd  byte // of the decisive exchange
		do   func(io.ReadWriter) (ref.Val, error)
	}
	var jobs []job
	for _, g := range ref.Gets {
		jobs = append(jobs, job{fmt.Sprintf("get %02x", g), g, func(x io.ReadWriter) (ref.Val, error) { return libGet(g, x) }})
	}
	for i, s := range setCalls {
		jobs = append(jobs, job{s.name, []byte{ref.SetSpeed, ref.SetComfort, ref.SetProfiles}[i], func(x io.ReadWriter) (ref.Val, error) { return nil, s.do(x) }})
	}
	jobs = append(jobs, job{"SetFanProfile", ref.SetProfiles, func(x io.ReadWriter) (ref.Val, error) { return nil, libcomfo.SetFanProfile(1, 40, x) }})

	// run performs one job; plan gets the healthy reply of the decisive exchange.
	run := func(j job, kind, what string, plan func(healthy []byte) []sim.Step) {
		if c.Skip() {
			return
		}
		l := sim.NewLine()
		u := sim.NewUnit(l)
		var fr freshener
		u.Fresh = func(q sim.Req, p []byte) []byte { return fr.make(q, p) }
		var sentAt time.Time
		var healthy []byte
		var stream []sim.Step
		u.Planner = func(q sim.Req, h []byte) sim.Plan {
			if q.Cmd == j.cmd {
				sentAt, healthy = q.At, h
				stream = plan(h)
				return sim.Plan{Steps: stream}
			}
			return sim.Plan{Steps: []sim.Step{{B: h}}, Healthy: true}
		}
		conn := sim.Conn(kind, l)
		type result struct {
			v   ref.Val
			err error
			at  time.Time
		}
		done := make(chan result, 1)
		go func() {
			v, err := j.do(conn)
			done <- result{v, err, time.Now()}
		}()
		var res result
		var got bool
		select {
		case res = <-done:
			got = true
		case <-time.After(30 * time.Second):
		}
		var viols []string
		u.Lock(func() {
			viols = u.Viols
		})
		for _, v := range viols {
			c.Viol("%s on %s, %s: %s", j.name, kind, what, v)
		}
		c.Eval(j.name + kind + what)
		if !got {
			c.Viol("%s on %s, unit %s: no return within 30 s", j.name, kind, what)
			return
		}
		took := res.at.Sub(sentAt)
		if took > 1500*time.Millisecond {
			c.Viol("%s on %s, unit %s: returned %v after the request", j.name, kind, what, took)
		}
		// When was the healthy reply complete, if what came before it was exactly it?
		at, acc := time.Duration(0), []byte{}
		complete := time.Duration(-1)
		for _, s := range stream {
			at += s.D
			acc = append(acc, s.B...)
			if complete < 0 && bytes.Equal(acc, healthy) {
				complete = at
			}
		}
		switch {
		case complete >= 0 && complete <= 900*time.Millisecond:
			if res.err != nil {
				c.Viol("%s on %s, unit %s: the complete reply arrived %v after the request, yet the call failed: %v", j.name, kind, what, complete, res.err)
			}
			c.Count("answered", 1)
		case res.err == nil && (complete < 0 || complete > took):
			// Bytes may have arrived that contain the reply with noise
			// tolerated; a valid prefix is required anyway.
			rc, _, st := ref.ParseReply(arrived(stream, took), sim.IsGet(j.cmd))
			if st != ref.OK || sim.IsGet(j.cmd) && rc != j.cmd+1 {
				c.Viol("%s on %s, unit %s: success reported %v after the request, but by then no complete reply had arrived", j.name, kind, what, took)
			}
		}
		if res.err != nil {
			c.Count("failed", 1)
			c.Count(fmt.Sprintf("return_at_%.1fs", took.Seconds()), 1)
		}
		if c.Rnd.Intn(700) == 0 {
			c.Sample("%s on %s, unit %s: %v after %v", j.name, kind, what, res.err, took)
		}
		l.Fail(io.EOF)
		u.Stop()
	}
	noise := func(b byte, every time.Duration, total time.Duration) (out []sim.Step) {
		for t := time.Duration(0); t < total; t += every {
			out = append(out, sim.Step{D: every, B: []byte{b}})
		}
		return
	}
	if c.Arg == "enum" {
		for _, j := range jobs {
			for _, kind := range kinds {
				// Stall after every prefix.
				for k := 0; k < 40; k++ {
					n := -1
					run(j, kind, fmt.Sprintf("stops after %d bytes", k), func(h []byte) []sim.Step {
						n = len(h)
						if k >= n {
							return []sim.Step{{B: h}}
						}
						if k == 0 {
							return nil
						}
						return []sim.Step{{B: h[:k]}}
					})
					if n >= 0 && k > n {
						break
					}
				}
				// Whole or halved reply at various times.
				for _, t := range []int{0, 1, 100, 500, 800, 890, 899, 900, 950, 999, 1000, 1001, 1100, 1400, 2000, 5000} {
					run(j, kind, fmt.Sprintf("replies after %d ms", t), func(h []byte) []sim.Step {
						return []sim.Step{{D: ms(t), B: h}}
					})
					run(j, kind, fmt.Sprintf("acknowledges at once, rest after %d ms", t), func(h []byte) []sim.Step {
						if len(h) == 2 {
							return []sim.Step{{B: h[:1]}, {D: ms(t), B: h[1:]}}
						}
						return []sim.Step{{B: h[:2]}, {D: ms(t), B: h[2:]}}
					})
					run(j, kind, fmt.Sprintf("sends the last byte after %d ms", t), func(h []byte) []sim.Step {
						return []sim.Step{{B: h[:len(h)-1]}, {D: ms(t), B: h[len(h)-1:]}}
					})
				}
				// Trickle.
				for _, total := range []int{100, 600, 890, 1200, 1600, 3000, 8000} {
					run(j, kind, fmt.Sprintf("trickles its reply over %d ms", total), func(h []byte) (out []sim.Step) {
						d := ms(total) / time.Duration(len(h))
						for i := range h {
							out = append(out, sim.Step{D: d, B: h[i : i+1]})
						}
						return
					})
				}
				// Endless noise, of all kinds, from the start, after the ACK, in the frame.
				for _, b := range []byte{0, 0x55, ref.Esc, ref.Ack, ref.Beg, ref.End} {
					for _, ev := range []int{1, 30, 400, 950} {
						run(j, kind, fmt.Sprintf("sends %02x every %d ms", b, ev), func([]byte) []sim.Step { return noise(b, ms(ev), 2*time.Second) })
						run(j, kind, fmt.Sprintf("acknowledges, then sends %02x every %d ms", b, ev), func([]byte) []sim.Step {
							return append([]sim.Step{{B: ref.AckSeq}}, noise(b, ms(ev), 2*time.Second)...)
						})
						run(j, kind, fmt.Sprintf("begins its reply, then sends %02x every %d ms", b, ev), func(h []byte) []sim.Step {
							if len(h) == 2 {
								return append([]sim.Step{{B: h[:1]}}, noise(b, ms(ev), 2*time.Second)...)
							}
							return append([]sim.Step{{B: h[:7]}}, noise(b, ms(ev), 2*time.Second)...)
						})
					}
				}
			}
		}
		return
	}
	for i := 0; i < c.N; i++ {
		j := jobs[c.Rnd.Intn(len(jobs))]
		total := 50 + c.Rnd.Intn(2500)
		mode := c.Rnd.Intn(3)
		run(j, kinds[c.Rnd.Intn(2)], fmt.Sprintf("random %d over %d ms #%d", mode, total, c.Rnd.Intn(1000)), func(h []byte) (out []sim.Step) {
			var b []byte
			switch mode {
			case 0:
				b = h
			case 1:
				b = h[:c.Rnd.Intn(len(h))]
			case 2:
				b = randBytes(c.Rnd, 1+c.Rnd.Intn(80))
			}
			ch := split(c.Rnd, b, 3)
			for _, x := range ch {
				out = append(out, sim.Step{D: time.Duration(c.Rnd.Int63n(int64(2*ms(total))/int64(len(ch)) + 1)), B: x})
			}
			return
		})
	}
}

func arrived(stream []sim.Step, by time.Duration) (b []byte) {
	at := time.Duration(0)
	for _, s := range stream {
		if at += s.D; at <= by {
			b = append(b, s.B...)
		}
	}
	return
}

// ---- C07 ----

func c07(c *Ctx) {
	for h := 0; h < c.N && !c.Failed(); h++ {
		c07history(c)
	}
}

// faultPlan makes a random faulty reply.
func faultPlan(r *rand.Rand, q sim.Req, healthy []byte) sim.Plan {
	cut := func() []byte { return healthy[:r.Intn(len(healthy))] }
	var p sim.Plan
	p.NoApply = r.Intn(2) == 0
	st := func(b []byte) []sim.Step { return steps(r, b, ms(r.Intn(500))) }
	switch f := r.Intn(9); f {
	case 0:
		p.Note = "lost"
	case 1:
		p.Note = "late"
		p.Steps = []sim.Step{{D: ms(1000 + r.Intn(1800)), B: healthy}}
	case 2:
		p.Note = "truncated"
		p.Steps = st(cut())
	case 3:
		p.Note = "garbled"
		b := append([]byte(nil), healthy...)
		b[r.Intn(len(b))] ^= byte(1 + r.Intn(255))
		p.Steps = st(b)
	case 4:
		p.Note = "prefixed"
		p.Steps = st(append(randBytes(r, 1+r.Intn(20)), healthy...))
	case 5:
		p.Note = "followed by noise"
		p.Steps = st(append(append([]byte(nil), healthy...), randBytes(r, 1+r.Intn(20))...))
	case 6:
		p.Note = "twice"
		p.Steps = st(append(append([]byte(nil), healthy...), healthy...))
	case 7:
		p.Note = "noise"
		p.Steps = st(randBytes(r, 1+r.Intn(200)))
		if r.Intn(8) == 0 { // for long
			p.Note, p.Steps = "babble", nil
			for n := 1 + r.Intn(80); n > 0; n-- {
				p.Steps = append(p.Steps, sim.Step{D: ms(r.Intn(50)), B: randBytes(r, 1+r.Intn(1000))})
			}
		}
	case 8:
		p.Note = "started late"
		k := r.Intn(len(healthy))
		p.Steps = []sim.Step{{D: ms(200), B: healthy[:k]}, {D: ms(900 + r.Intn(900)), B: healthy[k:]}}
	}
	if len(p.Steps) == 1 && len(p.Steps[0].B) == 0 {
		p.Steps = nil
	}
	return p
}

func c07history(c *Ctx) {
	r := rand.New(rand.NewSource(c.Rnd.Int63()))
	l := sim.NewLine()
	u := sim.NewUnit(l)
	var fr freshener
	u.Fresh = func(q sim.Req, p []byte) []byte { return fr.make(q, p) }
	faulty := true
	only := -1
	notes := ""
	u.Planner = func(q sim.Req, h []byte) sim.Plan {
		if !faulty || only >= 0 && r.Intn(4) == 0 {
			return sim.Plan{Steps: steps(r, h, ms(r.Intn(300))), Healthy: true}
		}
		p := faultPlan(r, q, h)
		notes += p.Note + " "
		return p
	}
	if r.Intn(2) == 0 {
		only = 0 // with good replies in between
	}
	conn := sim.Conn("tcp", l)
	base := goroutines()
	same := byte(0) // always the same get
	if r.Intn(3) == 0 {
		same = ref.Gets[r.Intn(8)]
	}
	// query performs a random call and judges a success.
	query := func() error {
		s0 := u.Count()
		if same == 0 && r.Intn(4) == 0 {
			// Sets: success needs an ACK that arrived during the call.
			i := r.Intn(3)
			return setCalls[i].do(conn)
		}
		g := same
		if g == 0 {
			g = ref.Gets[r.Intn(8)]
		}
		t0 := time.Now()
		v, err := libGet(g, conn)
		t1 := time.Now()
		if err != nil {
			return err
		}
		ok, old := false, 0
		u.Lock(func() {
			for _, e := range u.Exchs {
				if e.Req.Cmd != g || e.Reply == nil {
					continue
				}
				w, dok := ref.Decode(g, e.Reply.Payload)
				if !dok || !ref.Equal(w, v) {
					continue
				}
				// Its own request, or indistinguishable from it because it
				// arrived during the call.
				if e.Req.Seq > s0 || !e.Last.Before(t0) && !e.First.After(t1) {
					ok = true
				} else {
					old = e.Req.Seq
				}
			}
		})
		if !ok {
			c.Viol("get %02x returned %v, which is not the reply to its own request (it is the reply to request #%d; requests before the call: %d; faults: %s)", g, v, old, s0, notes)
		}
		return nil
	}
	n := 1 + r.Intn(30)
	fails := 0
	for i := 0; i < n && !c.Failed(); i++ {
		if query() != nil {
			fails++
		}
		if r.Intn(3) == 0 {
			time.Sleep(ms(r.Intn(2500)))
		}
	}
	u.Lock(func() { faulty = false })
	// The unit answers normally once its last late reply is out.
	idle := func() bool {
		ok := true
		u.Lock(func() {
			for _, e := range u.Exchs {
				if !e.Sent && len(e.Plan.Steps) > 0 {
					ok = false
				}
			}
		})
		return ok
	}
	if !wait(300*time.Second, idle) {
		c.mu.Lock()
		c.Inconclusive = "the simulated unit did not settle"
		c.mu.Unlock()
		return
	}
	if r.Intn(2) == 0 {
		time.Sleep(ms(r.Intn(3000)))
	}
	after := 0
	for i := 0; i < 14 && !c.Failed(); i++ {
		if err := query(); err != nil {
			after++
			if after > 3 || i >= 4 && after > 0 {
				c.Viol("query %d after the unit recovered still fails (%d failures since): %v; %d faulty exchanges before: %s", i+1, after, err, n, notes)
				break
			}
		} else if r.Intn(2) == 0 {
			time.Sleep(ms(r.Intn(2000)))
		}
	}
	if !wait(3*time.Second, func() bool { return l.Waiting() == 0 }) {
		c.Viol("%d reads are still waiting on the connection 3 s after the last query (faults: %s)", l.Waiting(), notes)
	}
	if !wait(3*time.Second, func() bool { return goroutines() <= base+2 }) {
		c.Viol("%d goroutines before %d queries (%d failed), %d 3 s after the last one (faults: %s)", base, n+14, fails, goroutines(), notes)
	}
	u.Lock(func() {
		for _, v := range u.Viols {
			c.Viol("%s (faults: %s)", v, notes)
		}
	})
	c.Eval(notes)
	c.Count("faulty_exchanges", n)
	c.Count("failed_calls", fails)
	c.Count("failures_after_recovery", after)
	if r.Intn(50) == 0 {
		c.Sample("%d queries with faults [%s] -> %d failed, then %d failures", n, notes, fails, after)
	}
	l.Fail(io.EOF)
	u.Stop()
}

// ---- C08 ----

type profOp struct {
	kind string // set, bulk, get
	mode int
	val  byte
	all  [8]byte // out away/low/mid, in away/low/mid, out high, in high

	maybe bool // failed by a fault of the unit, it may have taken effect
}

var profModel = (&porcupine.NondeterministicModel{
	Init: func() []any { return []any{[8]byte{}} },
	Step: func(st, in, out any) []any {
		s, o := st.([8]byte), in.(profOp)
		t := s
		switch o.kind {
		case "get":
			return iff(o.maybe || out.([8]byte) == s, s)
		case "init", "bulk":
			t = o.all
		case "set":
			switch o.mode {
			case 0:
				t[0], t[3] = o.val, o.val
			case 1:
				t[1], t[4] = o.val, o.val
			case 2:
				t[2], t[5] = o.val, o.val
			case 3:
				t[6], t[7] = o.val, o.val
			}
		}
		if o.maybe {
			return []any{s, t}
		}
		return []any{t}
	},
	DescribeOperation: func(in, out any) string { return fmt.Sprintf("%+v -> %v", in, out) },
}).ToModel()

func unitProfiles(p []byte) [8]byte { return [8]byte{p[0], p[1], p[2], p[3], p[4], p[5], p[10], p[11]} }

func c08(c *Ctx) {
	for h := 0; h < c.N && !c.Failed(); h++ {
		c08history(c)
	}
}

func c08history(c *Ctx) {
	r := rand.New(rand.NewSource(c.Rnd.Int63()))
	l := sim.NewLine()
	u := sim.NewUnit(l)
	slow := r.Intn(3)
	faulty := []int{0, 0, 4, 12}[r.Intn(4)]
	u.Planner = func(q sim.Req, h []byte) sim.Plan {
		if faulty > 0 && r.Intn(faulty) == 0 {
			p := refusable(r, q, h)
			p.NoApply = r.Intn(2) == 0
			return p
		}
		d := time.Duration(0)
		if slow > 0 {
			d = ms(r.Intn(40 * slow * slow))
		}
		return sim.Plan{Steps: steps(r, h, d), Healthy: true}
	}
	conn := sim.Conn("tcp", l)
	var clock atomic.Int64
	var mu sync.Mutex
	var hist []porcupine.Operation
	hist = append(hist, porcupine.Operation{ClientId: 0, Input: profOp{kind: "init", all: unitProfiles(u.State(ref.GetProfiles))}, Call: clock.Add(1), Return: clock.Add(1)})
	nw := 2 + r.Intn(4)
	nops := 2 + r.Intn(3)
	var val atomic.Int32
	start := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := 0; i < nops; i++ {
				if wr.Intn(2) == 0 {
					time.Sleep(ms(wr.Intn(80)))
				}
				var o profOp
				var out [8]byte
				var err error
				k := wr.Intn(8)
				v := byte(val.Add(1))
				t0 := clock.Add(1)
				switch {
				case k < 4:
					o = profOp{kind: "set", mode: wr.Intn(4), val: v}
					err = libcomfo.SetFanProfile(uint8(o.mode), v, conn)
				case k < 6:
					o = profOp{kind: "bulk"}
					for j := range o.all {
						o.all[j] = 100 + v + byte(j)
					}
					a := o.all
					err = libcomfo.SetFanProfiles(&libcomfo.FanProfiles{OutAway: a[0], OutLow: a[1], OutMid: a[2], InAway: a[3], InLow: a[4], InMid: a[5], OutHigh: a[6], InHigh: a[7]}, conn)
				default:
					o = profOp{kind: "get"}
					var p libcomfo.FanProfiles
					p, err = libcomfo.GetFanProfiles(conn)
					out = [8]byte{p.OutAway, p.OutLow, p.OutMid, p.InAway, p.InLow, p.InMid, p.OutHigh, p.InHigh}
				}
				t1 := clock.Add(1)
				if err != nil {
					if faulty == 0 {
						c.Viol("%+v failed on a healthy line: %v", o, err)
					}
					o.maybe = true
					c.Count("failed_operations", 1)
				}
				mu.Lock()
				hist = append(hist, porcupine.Operation{ClientId: w + 1, Input: o, Output: out, Call: t0, Return: t1})
				mu.Unlock()
			}
		}()
	}
	close(start)
	wg.Wait()
	final := unitProfiles(u.State(ref.GetProfiles))
	hist = append(hist, porcupine.Operation{ClientId: 0, Input: profOp{kind: "get"}, Output: final, Call: clock.Add(1), Return: clock.Add(1)})
	linearize(c, profModel, hist, "fan profile")
	c.Eval(fmt.Sprint(final, nw, nops))
	c.Count("operations", len(hist)-2)
	if r.Intn(50) == 0 {
		c.Sample("%d callers x %d operations -> final profiles %v", nw, nops, final)
	}
	l.Fail(io.EOF)
	u.Stop()
}

// linearize checks a history; the checker itself must not depend on the
// virtual clock, so its timeout is disabled and histories are short.
func linearize(c *Ctx, m porcupine.Model, hist []porcupine.Operation, what string) {
	if !porcupine.CheckOperations(m, hist) {
		s := ""
		for _, o := range hist {
			s += fmt.Sprintf("\n  client %d [%d,%d] %+v -> %v", o.ClientId, o.Call, o.Return, o.Input, o.Output)
		}
		c.Viol("the %s history is not linearizable:%s", what, s)
	}
	c.Count("histories", 1)
}
