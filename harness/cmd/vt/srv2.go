package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/rand"
	"sync"
	"time"

	"github.com/anishathalye/porcupine"

	"verif/ref"
	"verif/sim"
)

func init() {
	workloads["c11"] = func(c *Ctx) { sets(c, "SetFanSpeed") }
	workloads["c12"] = func(c *Ctx) { sets(c, "SetComfortTemp") }
	workloads["c13"] = func(c *Ctx) { sets(c, "SetFanProfile") }
	workloads["c16"] = c16
	workloads["c17"] = c17
}

// ---- C11, C12, C13: what a set call reports against what the unit saw ----

// fault hits the nth exchange of a kind within a call.
type fault struct {
	cmd  byte
	nth  int
	kind string
}

func (f fault) String() string {
	if f.kind == "" {
		return "none"
	}
	return fmt.Sprintf("%s on exchange %d of command %02x", f.kind, f.nth, f.cmd)
}

type setWorld struct {
	*world
	r      *rand.Rand
	method string
	fault  fault
	count  map[byte]int
	fired  bool
	in     ref.Val
}

// otherwise is a command near the one given: the unit limits or rounds what it
// is told, or someone is faster at its panel.
func (w *setWorld) otherwise(r *rand.Rand, q sim.Req) []byte {
	d := append([]byte(nil), q.Data...)
	near := func(v byte) byte {
		return []byte{v + 1, v - 1, v + 2, v - 2, v + 10, v - 10, byte(15 + r.Intn(86)), 0}[r.Intn(8)]
	}
	switch q.Cmd {
	case ref.SetSpeed:
		d[0] = byte(r.Intn(5))
	case ref.SetComfort:
		d[0] = near(d[0])
	case ref.SetProfiles:
		m, _ := w.in["Mode"].(uint64)
		for _, j := range [][2]int{{0, 3}, {1, 4}, {2, 5}, {6, 7}}[(m+3)%4] {
			if r.Intn(3) > 0 {
				d[j] = near(d[j])
			}
		}
	}
	return d
}

var big = []uint64{5, 6, 100, 127, 128, 255, 256, 257, 258, 259, 260, 261, 271, 356, 511, 512, 65535, 65536, 65537, 65540, 1 << 24, 1<<24 + 2, 1<<31 - 1, 1 << 31, 1<<31 + 3, 1<<32 - 1, 1<<32 - 256 + 4}

func sets(c *Ctx, method string) {
	w := &setWorld{world: newWorld(c), r: c.Rnd, method: method}
	pr := rand.New(rand.NewSource(w.r.Int63()))
	slow := []int{1, 20, 100}[w.r.Intn(3)]
	w.u.Planner = func(q sim.Req, h []byte) sim.Plan {
		w.count[q.Cmd]++
		if f := w.fault; f.kind != "" && q.Cmd == f.cmd && (w.count[q.Cmd] == f.nth || f.nth == 0) {
			w.fired = true
			switch f.kind {
			case "applied, ACK lost":
				return sim.Plan{Note: f.kind}
			case "not applied, ACK lost":
				return sim.Plan{Note: f.kind, NoApply: true}
			case "not applied, ACK sent":
				p := w.good(pr, h, slow)
				p.NoApply = true
				return p
			case "done otherwise, ACK sent":
				p := w.good(pr, h, slow)
				p.NoApply = true
				w.u.ApplyL(q.Cmd, w.otherwise(pr, q))
				return p
			default:
				return refusable(pr, q, h)
			}
		}
		return w.good(pr, h, slow)
	}
	w.count = map[byte]int{}
	if !w.start("tcp", time.Minute) {
		return
	}
	for i := 0; i < c.N && !c.Failed(); i++ {
		w.step(i)
	}
	w.unitViols("")
}

// refusable is a reply to a get or set request that is no valid one.
func refusable(r *rand.Rand, q sim.Req, h []byte) sim.Plan {
	p := badReply(r, q, h)
	if !sim.IsGet(q.Cmd) {
		// Bad replies to commands must not start with an ACK.
		var all []byte
		for _, s := range p.Steps {
			all = append(all, s.B...)
		}
		if bytes.HasPrefix(all, ref.AckSeq) {
			p.Steps = nil
		}
	}
	return p
}

// step makes one set call and judges it.
func (w *setWorld) step(i int) {
	r, c, u := w.r, w.c, w.u
	if r.Intn(2) == 0 {
		time.Sleep(ms(r.Intn(9000)))
	}
	// Someone changes the settings at the unit's own panel.
	if r.Intn(3) == 0 {
		u.Lock(func() {
			p := u.StateL(ref.GetProfiles)
			switch r.Intn(4) {
			case 0:
				p[8] = byte(r.Intn(5))
			case 1:
				for _, j := range []int{0, 1, 2, 3, 4, 5, 10, 11} {
					p[j] = byte(15 + r.Intn(86))
				}
			case 2: // equal percentages, or in and out differing
				j := [][2]int{{0, 3}, {1, 4}, {2, 5}, {10, 11}}[r.Intn(4)]
				v := byte(15 + r.Intn(86))
				p[j[0]], p[j[1]] = v, v
				if r.Intn(2) == 0 {
					p[j[r.Intn(2)]] = byte(15 + r.Intn(86))
				}
				if r.Intn(3) == 0 {
					k := [][2]int{{0, 3}, {1, 4}, {2, 5}, {10, 11}}[r.Intn(4)]
					p[k[0]], p[k[1]] = p[j[0]], p[j[1]]
				}
			case 3:
				t := u.StateL(ref.GetTemps)
				t[0] = byte(40 + r.Intn(216))
				if r.Intn(8) == 0 {
					t[0] = byte(r.Intn(40)) // below zero
				}
				if r.Intn(3) > 0 {
					t[0] &^= 1
				}
				u.SetStateL(ref.GetTemps, t)
			}
			u.SetStateL(ref.GetProfiles, p)
		})
	}
	set := map[string]byte{"SetFanSpeed": ref.SetSpeed, "SetComfortTemp": ref.SetComfort, "SetFanProfile": ref.SetProfiles}[w.method]
	read := []byte{ref.GetProfiles, ref.GetProfiles, ref.GetFans}
	if w.method == "SetComfortTemp" {
		read = []byte{ref.GetTemps}
	}
	var f fault
	if r.Intn(2) == 0 {
		if r.Intn(2) == 0 {
			f = fault{set, 1, []string{"applied, ACK lost", "not applied, ACK lost", "not applied, ACK sent", "done otherwise, ACK sent", "done otherwise, ACK sent", "bad reply"}[r.Intn(6)]}
		} else {
			f = fault{read[r.Intn(len(read))], r.Intn(5), "bad reply"}
		}
	}
	ramp := ms([]int{0, 0, 700, 2000, 4000, 60000}[r.Intn(6)])
	rampN := 0
	if r.Intn(5) == 0 {
		rampN = []int{1, 2, 5, 8, 9, 10, 10, 11, 11, 12, 13}[r.Intn(11)]
		ramp = time.Hour
	}
	u.Lock(func() {
		u.RampN = rampN
		w.fault, w.fired, w.count = f, false, map[byte]int{}
		u.Ramp = ramp
	})
	p0, t0 := u.State(ref.GetProfiles), u.State(ref.GetTemps)
	n0 := u.Count()
	in := w.args(p0, t0)
	u.Lock(func() { w.in = in })
	begin := time.Now()
	var out ref.Val
	var err *sim.RPCErr
	leaves := r.Intn(10) == 0
	if leaves {
		out, err = w.leave(r, ms([]int{0, 1, r.Intn(100), r.Intn(5000)}[r.Intn(4)]), w.method, in)
	} else {
		out, err = w.call(r, w.method, in)
	}
	took := time.Since(begin)
	n1 := u.Count()
	if leaves && err != nil {
		// Whether it was done is not told; it is over soon.
		time.Sleep(time.Minute)
		u.Lock(func() { w.fault = fault{} })
		if q := sim.SetCmds(u.Since(n0)); len(q) > 1 {
			c.Viol("a call whose client left sent %s; %s%v", reqs(q), w.method, in)
		}
		return
	}
	u.Lock(func() { w.fault = fault{} })
	p1, t1 := u.State(ref.GetProfiles), u.State(ref.GetTemps)
	cmds := sim.SetCmds(u.Since(n0))
	ctx := fmt.Sprintf("call %d: %s%v, fault: %s (hit: %v), fans take %v to adjust (reading %d); unit before: profiles % d comfort %d -> %v, %v after %v; commands: %s", i, w.method, in, f, w.fired, ramp, rampN, p0, t0[0], out, err, took, reqs(cmds))
	if i == c.N/2 {
		c.Sample("%s", ctx)
	}
	if err != nil && err.Code != "invalid_argument" && err.Code != "internal" {
		c.Viol("unexpected error code; %s", ctx)
	}
	if took > 2*time.Minute {
		c.Viol("call took %v; %s", took, ctx)
	}
	for _, q := range cmds {
		if q.Cmd != set {
			c.Viol("the call sent command %02x; %s", q.Cmd, ctx)
		}
	}
	if len(cmds) > 1 {
		c.Viol("the call sent %d commands; %s", len(cmds), ctx)
	}
	faulty := w.fired
	c.Eval(fmt.Sprintf("%s %v %s %v %d %v %v %d %d", w.method, in, f, ramp, rampN, err == nil, len(cmds), p0[8], t0[0]))
	if err != nil {
		c.Count("error_"+err.Code, 1)
	} else {
		c.Count(fmt.Sprintf("success_modified_%v", out["Modified"]), 1)
	}
	if faulty {
		c.Count("calls_hit_by_fault", 1)
	}
	noCmd := func(why string) {
		if len(cmds) > 0 {
			c.Viol("%s, yet a command was sent; %s", why, ctx)
		}
	}
	invalid := func(why string, strict bool) {
		noCmd(why)
		if err == nil {
			c.Viol("%s, yet the call succeeded; %s", why, ctx)
		} else if strict && err.Code != "invalid_argument" {
			c.Viol("%s, but the error is %v; %s", why, err, ctx)
		}
	}
	// common judges a valid call whose effect is described by the arguments.
	common := func(modified bool, data []byte, orig uint64, origKey string, target uint64, targetKey string, done bool, mayFail bool) {
		if err != nil {
			if !faulty && !mayFail {
				c.Viol("the call failed although the unit did everything asked of it; %s", ctx)
			}
			if err.Code == "invalid_argument" {
				c.Viol("valid arguments refused; %s", ctx)
			}
			if !modified {
				noCmd("nothing had to be changed")
			}
			if len(cmds) == 1 && !bytes.Equal(cmds[0].Data, data) {
				c.Viol("wrong command, expected % x; %s", data, ctx)
			}
			return
		}
		if out["Modified"] != modified {
			c.Viol("Modified should be %v; %s", modified, ctx)
		}
		if out[origKey] != orig {
			c.Viol("%s should be %d; %s", origKey, orig, ctx)
		}
		if out[targetKey] != target {
			c.Viol("%s should be %d; %s", targetKey, target, ctx)
		}
		if s, _ := out["ReqTime"].(string); s == "" {
			c.Viol("ReqTime is empty; %s", ctx)
		}
		if !done {
			c.Viol("success reported but the unit is not in the requested state: profiles % d comfort byte %d; %s", p1, t1[0], ctx)
		}
		if modified {
			if len(cmds) != 1 || !bytes.Equal(cmds[0].Data, data) {
				c.Viol("expected exactly one command % x; %s", data, ctx)
			}
		} else {
			noCmd("nothing had to be changed")
		}
	}
	switch w.method {
	case "SetFanSpeed":
		abs, rel := in["Abs"].(uint64), in["Rel"].(bool)
		mode := uint64(p0[8])
		tgt := abs
		switch {
		case abs != 0 && rel:
			invalid("Abs and Rel are both set", true)
			return
		case abs > 4:
			invalid("Abs is out of range", true)
			return
		case abs == 0 && rel:
			tgt = mode + 1
		case abs == 0:
			tgt = mode - 1
		}
		if tgt < 1 || tgt > 4 {
			invalid("the step leaves the range 1-4", !faulty)
			return
		}
		common(tgt != mode, []byte{byte(tgt)}, mode, "OriginalSpeed", tgt, "TargetSpeed", uint64(p1[8]) == tgt, ramp > 4*time.Second)
		if tgt != mode && !faulty && len(cmds) == 1 {
			w.tenReadings(n0, n1, p1, byte(tgt), err, ctx)
		}
		if err == nil && tgt != mode {
			in, out := sim.Pct(p1, byte(tgt))
			ok := false
			u.Lock(func() {
				seen := false
				for _, e := range u.Exchs[n0:n1] {
					if e.Req.Cmd == ref.SetSpeed {
						seen = true
					}
					if seen && e.Req.Cmd == ref.GetFans && e.Plan.Healthy && e.Reply.Acked && e.Reply.Payload[0] == in && e.Reply.Payload[1] == out {
						ok = true
					}
				}
			})
			if !ok {
				c.Viol("success without a fan reading that shows the target's %d/%d percent; %s", in, out, ctx)
			}
			if v := w.get(r, ref.GetFans); v["InPercent"] != uint64(in) || v["OutPercent"] != uint64(out) {
				c.Viol("after success GetFans shows %v, expected in %d out %d; %s", v, in, out, ctx)
			}
		}
		if err == nil {
			if v := w.get(r, ref.GetProfiles); v["CurrentMode"] != tgt {
				c.Viol("after success GetFanProfiles shows mode %v; %s", v["CurrentMode"], ctx)
			}
		}
	case "SetComfortTemp":
		t := in["ComfortTemp"].(uint64)
		if t > 107 {
			invalid("the target is out of range", t > 255)
			if !bytes.Equal(t0, t1) {
				c.Viol("a refused call changed the unit; %s", ctx)
			}
			return
		}
		cur := float64(t0[0]/2) - 20
		orig := uint64(0)
		if cur >= 0 {
			orig = uint64(cur)
		} else if err == nil {
			orig = out["OriginalTemp"].(uint64) // not representable
		}
		mod := cur != float64(t)
		common(mod, []byte{byte((t + 20) * 2)}, orig, "OriginalTemp", t, "TargetTemp", uint64(t1[0]/2) == t+20, false)
		if err == nil {
			if v := w.get(r, ref.GetTemps); v["Comfort"] != float64(t) {
				c.Viol("after success GetTemps shows %v; %s", v["Comfort"], ctx)
			}
		}
	case "SetFanProfile":
		m, t := in["Mode"].(uint64), in["TargetSpeed"].(uint64)
		if m < 1 || m > 4 || t < 15 || t > 100 {
			invalid("mode or target is out of range", true)
			return
		}
		oi, oo := sim.Pct(p0, byte(m))
		ni, no := sim.Pct(p1, byte(m))
		want := append([]byte(nil), p0...)
		k := [][2]int{{0, 3}, {1, 4}, {2, 5}, {10, 11}}[m-1]
		want[k[0]], want[k[1]] = byte(t), byte(t)
		data := []byte{want[0], want[1], want[2], want[3], want[4], want[5], want[10], want[11]}
		common(uint64(oi) != t || uint64(oo) != t, data, uint64(oi), "OriginalSpeed", t, "TargetSpeed", uint64(ni) == t && uint64(no) == t, false)
		for _, j := range []int{0, 1, 2, 3, 4, 5, 10, 11} {
			if j != k[0] && j != k[1] && p0[j] != p1[j] {
				c.Viol("the call changed another mode: profiles % d; %s", p1, ctx)
				break
			}
		}
		if err == nil {
			v := w.get(r, ref.GetProfiles)
			nm := []string{"Away", "Low", "Mid", "High"}[m-1]
			if v["In"+nm] != t || v["Out"+nm] != t {
				c.Viol("after success GetFanProfiles shows %v; %s", v, ctx)
			}
		}
	}
}

// tenReadings judges how a change of speed was confirmed: success if, and only
// if, one of the ten fan readings after the command shows it.
func (w *setWorld) tenReadings(n0, n1 int, p []byte, tgt byte, err *sim.RPCErr, ctx string) {
	in, out := sim.Pct(p, tgt)
	n, extra, first := 0, 0, 0
	var last time.Time
	w.u.Lock(func() {
		for i, e := range w.u.Exchs[n0:n1] {
			if e.Req.Cmd == ref.SetSpeed {
				n, last = 0, time.Time{}
			}
			if i == 0 || e.Req.Cmd != ref.GetFans {
				continue
			}
			// Two in quick succession: one may be a regular refresh.
			if n++; e.Req.At.Sub(last) < 450*time.Millisecond {
				extra++
			}
			last = e.Req.At
			if pl := e.Reply.Payload; first == 0 && e.Plan.Healthy && pl[0] == in && pl[1] == out {
				first = n
			}
		}
	})
	w.c.Count("changes_with_readings_counted", 1)
	if err == nil && first > 10+extra {
		w.c.Viol("success although none of ten fan readings, only the %dth, showed the target; %s", first, ctx)
	}
	if err != nil && first == 0 && n < 10 {
		w.c.Viol("the call gave up after %d fan readings; %s", n, ctx)
	}
	if err != nil && first > 0 && first <= 10 {
		w.c.Viol("the call failed although the %dth fan reading showed the target; %s", first, ctx)
	}
	if first > 0 {
		w.c.Count(fmt.Sprintf("confirmed_by_reading_%02d", first), 1)
	}
}

// args picks arguments: mostly near the unit's state, and every boundary.
func (w *setWorld) args(p, t []byte) ref.Val {
	r := w.r
	pick := func(lo, hi int) uint64 { return uint64(lo + r.Intn(hi-lo+1)) }
	switch w.method {
	case "SetFanSpeed":
		v := ref.Val{"Abs": pick(0, 4), "Rel": r.Intn(6) == 0}
		if r.Intn(3) == 0 {
			v = ref.Val{"Abs": uint64(0), "Rel": r.Intn(2) == 0}
		} else if r.Intn(5) == 0 {
			v["Abs"] = big[r.Intn(len(big))]
		} else if r.Intn(12) == 0 {
			v["Abs"] = uint64(r.Uint32())
		}
		return v
	case "SetComfortTemp":
		switch r.Intn(8) {
		case 0:
			return ref.Val{"ComfortTemp": []uint64{0, 1, 106, 107, 108, 109, 127, 128, 235, 236, 255}[r.Intn(11)]}
		case 1:
			return ref.Val{"ComfortTemp": big[r.Intn(len(big))]}
		case 2:
			if t[0] >= 40 {
				return ref.Val{"ComfortTemp": uint64(t[0]/2 - 20)}
			}
			return ref.Val{"ComfortTemp": uint64(uint32(int(t[0]/2)-20)) & []uint64{0xff, 0xffff, 0xffffffff}[r.Intn(3)]}
		case 3:
			return ref.Val{"ComfortTemp": uint64(256*(1+r.Intn(4000))) + pick(0, 107)}
		}
		return ref.Val{"ComfortTemp": pick(0, 107)}
	default:
		v := ref.Val{"Mode": pick(1, 4), "TargetSpeed": pick(15, 100)}
		m := byte(v["Mode"].(uint64))
		in, out := sim.Pct(p, m)
		switch r.Intn(10) {
		case 0:
			v["TargetSpeed"] = uint64(in)
		case 1:
			v["TargetSpeed"] = uint64(out)
		case 2:
			v["Mode"] = []uint64{0, 5, 6, 255, 256, 257, 260, 261, 1 << 31}[r.Intn(9)]
		case 3:
			v["TargetSpeed"] = []uint64{0, 1, 14, 15, 16, 99, 100, 101, 255, 256}[r.Intn(10)]
		case 4:
			v["TargetSpeed"] = uint64(256*(1+r.Intn(1<<20))) + pick(15, 100)
		case 5:
			v["Mode"] = uint64(256*(1+r.Intn(1<<20))) + pick(1, 4)
		}
		return v
	}
}

func reqs(rs []sim.Req) string {
	s := ""
	for _, q := range rs {
		s += fmt.Sprintf("%02x[% x] ", q.Cmd, q.Data)
	}
	return "{" + s + "}"
}

// ---- C16 ----

func c16(c *Ctx) {
	r := c.Rnd
	w := newWorld(c)
	fr := &freshAll{r: rand.New(rand.NewSource(r.Int63())), hostile: true}
	w.u.Fresh = func(q sim.Req, p []byte) []byte {
		switch q.Cmd {
		case ref.GetProfiles, ref.GetTemps, ref.GetFans: // settings and what follows from them
			return nil
		}
		return fr.make(q, p)
	}
	pr := rand.New(rand.NewSource(r.Int63()))
	const (
		fine = iota
		mixed
		silent
		garbage
		slowly
		lazily
	)
	mode := r.Intn(5)
	w.u.Planner = func(q sim.Req, h []byte) sim.Plan {
		switch mode {
		case mixed:
			if pr.Intn(3) > 0 {
				return faultPlan(pr, q, h)
			}
		case silent:
			return sim.Plan{Note: "silent"}
		case garbage:
			return sim.Plan{Steps: steps(pr, randBytes(pr, 1+pr.Intn(300)), ms(pr.Intn(3000)))}
		case slowly:
			return w.good(pr, h, 1300)
		case lazily:
			return sim.Plan{Steps: []sim.Step{{D: 700 * time.Millisecond, B: h}}, Healthy: true}
		}
		return w.good(pr, h, 100)
	}
	u := w.u
	u.Ramp = ms([]int{0, 1000, 30000}[r.Intn(3)])
	odd := func() {
		u.Lock(func() {
			p := u.StateL(ref.GetProfiles)
			p[8] = []byte{0, 1, 2, 3, 4, 5, 7, 200, 255}[r.Intn(9)]
			if r.Intn(2) == 0 {
				for i := range p {
					if i != 8 {
						p[i] = byte(r.Intn(256))
					}
				}
			}
			u.SetStateL(ref.GetProfiles, p)
			t := u.StateL(ref.GetTemps)
			t[0] = byte(r.Intn(256))
			u.SetStateL(ref.GetTemps, t)
			f := u.StateL(ref.GetFans)
			f[2+2*r.Intn(2)] = byte(r.Intn(4))
			f[3+2*r.Intn(2)] = byte(r.Intn(256)) * byte(r.Intn(2))
			u.SetStateL(ref.GetFans, f)
		})
	}
	if r.Intn(2) == 0 {
		odd()
	}
	if r.Intn(4) == 0 {
		u.WriteFail = 1 + r.Intn(20)
	}
	modes := []string{"fine", "mixed faults", "silent", "garbage", "slow"}
	hist := "start-up with unit " + modes[mode]
	if !w.start("tcp", 10*time.Minute) {
		return
	}
	// Calls in progress.
	type running struct {
		name string
		t    time.Time
	}
	var mu sync.Mutex
	run := map[int]running{}
	next, calls := 0, 0
	var worst time.Duration
	// A call waits for those before it, also for those whose clients have left.
	leavers := r.Intn(2) * 4
	timed := func(cr *rand.Rand, method string, in ref.Val) {
		mu.Lock()
		id := next
		next++
		calls++
		run[id] = running{fmt.Sprint(method, in), time.Now()}
		mu.Unlock()
		t0 := time.Now()
		if leavers > 0 && cr.Intn(leavers) == 0 {
			w.leave(cr, ms([]int{0, 1, cr.Intn(100), cr.Intn(5000)}[cr.Intn(4)]), method, in)
		} else {
			w.call(cr, method, in)
		}
		mu.Lock()
		delete(run, id)
		if d := time.Since(t0); d > worst {
			worst = d
		}
		mu.Unlock()
	}
	callOf := func(cr *rand.Rand) (string, ref.Val) {
		n := uint64(cr.Intn(8))
		if cr.Intn(4) == 0 {
			n = big[cr.Intn(len(big))]
		}
		switch k := cr.Intn(14); {
		case k < 6:
			return getMethod[apiKinds[k]], nil
		case k < 9:
			return "SetFanSpeed", ref.Val{"Abs": n * uint64(cr.Intn(2)), "Rel": cr.Intn(3) == 0}
		case k < 11:
			return "SetComfortTemp", ref.Val{"ComfortTemp": n * uint64(1+cr.Intn(20))}
		case k < 13:
			return "SetFanProfile", ref.Val{"Mode": n, "TargetSpeed": uint64(cr.Intn(120))}
		}
		return "FlushCache", ref.Val{"Cache": []uint64{0, 1, 2, 3, 4, 5, 10, 11}[cr.Intn(8)]}
	}
	var wg sync.WaitGroup
	nw := 1 + r.Intn(6)
	stopAt := time.Now().Add(time.Duration(c.N) * time.Second)
	for i := 0; i < nw; i++ {
		cr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(stopAt) {
				if cr.Intn(2) == 0 {
					time.Sleep(ms(cr.Intn(1500)))
				}
				m, in := callOf(cr)
				timed(cr, m, in)
			}
		}()
	}
	for time.Now().Before(stopAt) {
		time.Sleep(ms(1000 + r.Intn(15000)))
		m := r.Intn(5)
		u.Lock(func() { mode = m })
		hist += ", " + modes[m]
		switch r.Intn(6) {
		case 0:
			odd()
			hist += ", odd settings"
		case 1:
			u.Lock(func() { u.WriteFail = 1 + r.Intn(6) })
			hist += ", write failures"
		case 2:
			w.l.Fail(io.EOF)
			hist += ", stream ended"
			time.Sleep(ms(r.Intn(9000)))
			w.l.Fail(nil)
		}
	}
	w.l.Fail(nil)
	u.Lock(func() { u.WriteFail = 0 })
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Hour):
		mu.Lock()
		for _, x := range run {
			c.Viol("%s, called %v ago, has not returned (%d callers; %s)", x.name, time.Since(x.t), nw, hist)
		}
		mu.Unlock()
		return
	}
	c.Count("calls", calls)
	c.Eval(hist)
	c.Evals += calls
	if limit := time.Minute + time.Duration(nw)*30*time.Second; leavers == 0 && worst > limit {
		c.Viol("with %d callers, a call took %v (limit %v); unit: %s", nw, worst, limit, hist)
	}
	c.Count("slowest_call_seconds", int(worst.Seconds()))
	// The unit is well again; everything has to work.
	u.Lock(func() { mode = fine; u.Ramp = ms(500) })
	wait(5*time.Hour, func() bool { // what the unit still has to say, it says first
		ok := true
		u.Lock(func() {
			for _, e := range u.Exchs {
				if !e.Sent && len(e.Plan.Steps) > 0 {
					ok = false
				}
			}
		})
		return ok
	})
	time.Sleep(12 * time.Second)
	u.Lock(func() {
		p := []byte{15, 35, 50, 16, 36, 51, 35, 36, 2, 1, 70, 71, 0, 0}
		u.SetStateL(ref.GetProfiles, p)
		u.SetStateL(ref.GetFans, []byte{36, 35, 4, 5, 6, 7})
	})
	after := func(method string, in ref.Val, ok func(ref.Val) bool) {
		fin := make(chan struct{})
		go func() {
			defer close(fin)
			v, err := w.call(rand.New(rand.NewSource(1)), method, in)
			if err != nil || !ok(v) {
				c.Viol("after the faults (%s; %d callers) %s%v gives %v, %v", hist, nw, method, in, v, err)
			}
		}()
		select {
		case <-fin:
		case <-time.After(30 * time.Minute):
			c.Viol("after the faults (%s; %d callers) %s%v does not return within 30 minutes", hist, nw, method, in)
		}
	}
	any := func(ref.Val) bool { return true }
	for _, k := range apiKinds {
		after(getMethod[k], nil, any)
	}
	for _, f := range []uint64{0, 1, 2, 3, 4, 10} {
		after("FlushCache", ref.Val{"Cache": f}, func(v ref.Val) bool { return v["Success"] == true })
	}
	after("SetFanSpeed", ref.Val{"Abs": uint64(3)}, func(v ref.Val) bool { return v["Modified"] == true && v["OriginalSpeed"] == uint64(2) })
	after("SetFanSpeed", ref.Val{"Rel": true}, func(v ref.Val) bool { return v["TargetSpeed"] == uint64(4) })
	after("SetComfortTemp", ref.Val{"ComfortTemp": uint64(31)}, any)
	after("SetComfortTemp", ref.Val{"ComfortTemp": uint64(23)}, func(v ref.Val) bool { return v["Modified"] == true })
	after("SetFanProfile", ref.Val{"Mode": uint64(2), "TargetSpeed": uint64(44)}, func(v ref.Val) bool { return v["Modified"] == true })
	if p := u.State(ref.GetProfiles); !c.Failed() && (p[8] != 4 || p[1] != 44 || p[4] != 44 || u.State(ref.GetTemps)[0] != 86) {
		c.Viol("after the faults (%s) the unit is not in the state the API was asked for: % d", hist, p)
	}
	// A change that takes long does not hold up the get calls.
	u.Lock(func() {
		mode, u.Ramp = lazily, time.Minute
	})
	changed := make(chan struct{})
	slow := ref.Val{"Abs": uint64(1 + r.Intn(3))}
	go func() {
		defer close(changed)
		w.call(rand.New(rand.NewSource(1)), "SetFanSpeed", slow)
	}()
	time.Sleep(ms(r.Intn(1500)))
	for ended := false; !ended && !c.Failed(); {
		k := apiKinds[r.Intn(len(apiKinds))]
		g0 := time.Now()
		after(getMethod[k], nil, any)
		if d := time.Since(g0); d > 5*time.Second {
			c.Viol("%s, called while SetFanSpeed waits for the unit, took %v", getMethod[k], d)
		}
		c.Count("gets_during_changes", 1)
		select {
		case <-changed:
			ended = true
		case <-time.After(ms(r.Intn(700))):
		}
	}
	u.Lock(func() { mode, u.Ramp = fine, ms(500) })
	time.Sleep(12 * time.Second)
	// Background refresh of everything.
	n0 := u.Count()
	time.Sleep(2*time.Hour + 20*time.Second)
	seen := map[byte]bool{}
	u.Lock(func() {
		for _, e := range u.Exchs[n0:] {
			seen[e.Req.Cmd] = seen[e.Req.Cmd] || e.Reply != nil && e.Reply.Acked
		}
	})
	for _, k := range apiKinds {
		if !seen[k] {
			c.Viol("after the faults (%s; %d callers) %s is not refreshed any more", hist, nw, getMethod[k])
		}
	}
	c.Sample("%d calls by %d callers; unit: %s; slowest call %v", calls, nw, hist, worst)
}

// ---- C17 ----

type regOp struct {
	kind string // init, set, step, get
	val  int
	up   bool
}

type regOut struct {
	err      bool
	maybe    bool // failed by a fault of the unit: it may have taken effect, then or later
	left     bool // its client was gone
	orig     int
	modified bool
	val      int
}

// forever is when a call returns whose effect may show at any later time.
const forever = math.MaxInt64 / 2

// modeModel is a register with bounds for steps. For profiles, orig is the in
// percentage and the value packs in and out.
var modeModel = (&porcupine.NondeterministicModel{
	Init: func() []any { return []any{0} },
	Step: func(st, in, out any) []any {
		s, o := st.(int), in.(regOp)
		if o.kind == "init" {
			return []any{o.val}
		}
		x := out.(regOut)
		if o.kind == "get" || o.kind == "unit" {
			return iff(x.val == s, s)
		}
		t := o.val
		if o.kind == "step" {
			if t = s - 1; o.up {
				t = s + 1
			}
			if t < 1 || t > 4 {
				return iff(x.err || x.maybe, s)
			}
		}
		if x.maybe {
			return []any{s, t}
		}
		return iff(!x.err && x.orig == s && x.modified == (s != t) && x.val == t, t)
	},
}).ToModel()

func iff(ok bool, s any) []any {
	if ok {
		return []any{s}
	}
	return nil
}

var profileModel = (&porcupine.NondeterministicModel{
	Init: func() []any { return []any{0} },
	Step: func(st, in, out any) []any {
		s, o := st.(int), in.(regOp)
		if o.kind == "init" {
			return []any{o.val}
		}
		x := out.(regOut)
		if o.kind == "get" || o.kind == "unit" {
			return iff(x.val == s, s)
		}
		t := o.val<<8 | o.val
		if x.maybe {
			return []any{s, t}
		}
		return iff(!x.err && x.orig == s>>8 && x.modified == (s != t) && x.val == o.val, t)
	},
}).ToModel()

func c17(c *Ctx) {
	r := c.Rnd
	w := newWorld(c)
	u := w.u
	pr := rand.New(rand.NewSource(r.Int63()))
	slow := []int{1, 30, 200}[r.Intn(3)]
	faulty := 0 // one in so many exchanges is not answered properly
	w.u.Planner = func(q sim.Req, h []byte) sim.Plan {
		if faulty > 0 && pr.Intn(faulty) == 0 {
			w.c.Count("faulty_exchanges", 1)
			switch {
			case sim.IsGet(q.Cmd):
				return refusable(pr, q, h)
			case pr.Intn(4) == 0:
				p := w.good(pr, h, slow)
				p.NoApply = true
				return p
			default:
				p := refusable(pr, q, h)
				p.NoApply = pr.Intn(2) == 0
				return p
			}
		}
		return w.good(pr, h, slow)
	}
	u.Ramp = ms([]int{0, 0, 300, 1500}[r.Intn(4)])
	if !w.start("tcp", time.Minute) {
		return
	}
	modes := []string{"Away", "Low", "Mid", "High"}
	for h := 0; h < c.N && !c.Failed(); h++ {
		// reg 0: mode, 1: comfort, 2-5: profiles
		// hist has everything, strict what the unit and the changes say: a failed
		// change has its effect before it returns, though the cached readings
		// need not show it.
		hist, strict := make([][]porcupine.Operation, 6), make([][]porcupine.Operation, 6)
		var mu sync.Mutex
		add := func(client, reg int, in regOp, out regOut, s0, s1 int) {
			mu.Lock()
			if out.maybe && out.left {
				s1 = forever
			}
			if in.kind != "get" {
				strict[reg] = append(strict[reg], porcupine.Operation{ClientId: client, Input: in, Output: out, Call: int64(s0), Return: int64(s1)})
			}
			if out.maybe {
				s1 = forever
				c.Count("failed_changes", 1)
			}
			hist[reg] = append(hist[reg], porcupine.Operation{ClientId: client, Input: in, Output: out, Call: int64(s0), Return: int64(s1)})
			mu.Unlock()
		}
		profiles := func(client int, v ref.Val, s0, s1 int) {
			add(client, 0, regOp{kind: "get"}, regOut{val: int(v["CurrentMode"].(uint64))}, s0, s1)
			for i, m := range modes {
				add(client, 2+i, regOp{kind: "get"}, regOut{val: int(v["In"+m].(uint64)<<8 | v["Out"+m].(uint64))}, s0, s1)
			}
		}
		{
			// The API's initial view is the unit's.
			if v, err := w.call(r, "FlushCache", ref.Val{"Cache": uint64(10)}); err != nil || v["Success"] != true {
				c.Viol("FlushCache on a healthy unit: %v, %v", v, err)
				return
			}
			s0, s1 := w.seq(), w.seq()
			p, t := u.State(ref.GetProfiles), u.State(ref.GetTemps)
			add(0, 0, regOp{kind: "init", val: int(p[8])}, regOut{}, s0, s1)
			add(0, 1, regOp{kind: "init", val: int(t[0]/2) - 20}, regOut{}, s0, s1)
			for m := byte(1); m <= 4; m++ {
				in, out := sim.Pct(p, m)
				add(0, 1+int(m), regOp{kind: "init", val: int(in)<<8 | int(out)}, regOut{}, s0, s1)
			}
		}
		nw := 2 + r.Intn(4)
		nops := 2 + r.Intn(4)
		focus := r.Intn(4)
		faults := []int{0, 0, 4, 12}[r.Intn(4)]
		leavers := []int{1, 1, 4}[r.Intn(3)] // one in so many calls that change something
		u.Lock(func() { faulty = faults })
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 1; i <= nw; i++ {
			wr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < nops; k++ {
					if wr.Intn(3) == 0 {
						time.Sleep(ms(wr.Intn(700)))
					}
					what := focus
					if focus == 3 || wr.Intn(4) == 0 {
						what = wr.Intn(3)
					}
					if wr.Intn(4) == 0 {
						s0 := w.seq()
						if what == 1 {
							v, err := w.call(wr, "GetTemps", nil)
							if err == nil {
								add(i, 1, regOp{kind: "get"}, regOut{val: int(v["Comfort"].(float64))}, s0, w.seq())
							}
						} else {
							v, err := w.call(wr, "GetFanProfiles", nil)
							if err == nil {
								profiles(i, v, s0, w.seq())
							}
						}
						continue
					}
					left := false
					fail := func(v ref.Val, err *sim.RPCErr, op any) bool {
						if err != nil && !left && (faults == 0 || err.Code != "internal") {
							c.Viol("%v failed on a healthy unit: %v (%d callers)", op, err, nw)
						}
						return err != nil && !left && faults == 0
					}
					set := func(method string, in ref.Val) (ref.Val, *sim.RPCErr) {
						if left = wr.Intn(leavers) == 1; left {
							return w.leave(wr, ms([]int{0, 1, wr.Intn(100), wr.Intn(5000)}[wr.Intn(4)]), method, in)
						}
						return w.call(wr, method, in)
					}
					s0 := w.seq()
					switch what {
					case 0:
						o := regOp{kind: "set", val: 1 + wr.Intn(4)}
						in := ref.Val{"Abs": uint64(o.val)}
						if wr.Intn(2) == 0 {
							o = regOp{kind: "step", up: wr.Intn(2) == 0}
							in = ref.Val{"Rel": o.up}
						}
						v, err := set("SetFanSpeed", in)
						out := regOut{err: err != nil}
						if err != nil && (o.kind == "set" || err.Code != "invalid_argument") {
							fail(v, err, in)
							out = regOut{maybe: true, left: left}
						} else if err == nil {
							out = regOut{orig: int(v["OriginalSpeed"].(uint64)), modified: v["Modified"].(bool), val: int(v["TargetSpeed"].(uint64))}
						}
						add(i, 0, o, out, s0, w.seq())
					case 1:
						o := regOp{kind: "set", val: wr.Intn(5) + 15}
						v, err := set("SetComfortTemp", ref.Val{"ComfortTemp": uint64(o.val)})
						if fail(v, err, o) {
							return
						}
						out := regOut{maybe: err != nil, left: left}
						if err == nil {
							out = regOut{orig: int(v["OriginalTemp"].(uint64)), modified: v["Modified"].(bool), val: int(v["TargetTemp"].(uint64))}
						}
						add(i, 1, o, out, s0, w.seq())
					case 2:
						m := wr.Intn(4)
						o := regOp{kind: "set", val: 20 + wr.Intn(4) + 8*m} // distinct between modes
						v, err := set("SetFanProfile", ref.Val{"Mode": uint64(m + 1), "TargetSpeed": uint64(o.val)})
						if fail(v, err, o) {
							return
						}
						out := regOut{maybe: err != nil, left: left}
						if err == nil {
							out = regOut{orig: int(v["OriginalSpeed"].(uint64)), modified: v["Modified"].(bool), val: int(v["TargetSpeed"].(uint64))}
						}
						add(i, 2+m, o, out, s0, w.seq())
					}
				}
			}()
		}
		close(start)
		fin := make(chan struct{})
		go func() { wg.Wait(); close(fin) }()
		select {
		case <-fin:
		case <-time.After(time.Hour):
			c.Viol("concurrent changes by %d callers do not return within an hour", nw)
			return
		}
		u.Lock(func() { faulty = 0 })
		// The result, as the API shows it and as the unit has it.
		s0 := w.seq()
		if v, err := w.call(r, "GetFanProfiles", nil); err == nil {
			profiles(0, v, s0, w.seq())
		}
		s0 = w.seq()
		if v, err := w.call(r, "GetTemps", nil); err == nil {
			add(0, 1, regOp{kind: "get"}, regOut{val: int(v["Comfort"].(float64))}, s0, w.seq())
		}
		s0 = w.seq()
		p, t := u.State(ref.GetProfiles), u.State(ref.GetTemps)
		s1 := w.seq()
		add(0, 0, regOp{kind: "unit"}, regOut{val: int(p[8])}, s0, s1)
		add(0, 1, regOp{kind: "unit"}, regOut{val: int(t[0]/2) - 20}, s0, s1)
		for m := byte(1); m <= 4; m++ {
			in, out := sim.Pct(p, m)
			add(0, 1+int(m), regOp{kind: "unit"}, regOut{val: int(in)<<8 | int(out)}, s0, s1)
		}
		names := []string{"fan mode", "comfort temperature", "profile away", "profile low", "profile mid", "profile high"}
		n := 0
		for i, hs := range hist {
			m := modeModel
			if i >= 2 {
				m = profileModel
			}
			linearize(c, m, hs, names[i])
			if (faults > 0 || leavers > 1) && !c.Failed() {
				linearize(c, m, strict[i], names[i]+" without cached readings")
			}
			n += len(hs)
		}
		c.Count("operations", n)
		c.Eval(fmt.Sprint(nw, nops, focus, p, t[0]))
		if h == c.N/2 {
			c.Sample("%d callers x %d calls -> profiles % d, comfort byte %d; %d operations on 6 settings", nw, nops, p, t[0], n)
		}
	}
	w.unitViols("")
}
