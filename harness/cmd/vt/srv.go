package main

import (
	"context"
	"fmt"
	"io"
	"math"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/ti-mo/comfo/comfoserver"
	"github.com/ti-mo/comfo/rpc/comfo"

	"verif/ref"
	"verif/sim"
)

func init() {
	workloads["c09"] = c09
	workloads["c10"] = c10
	workloads["c14"] = c14
}

// world is a server on a simulated unit. The server's state is global, so
// there is one per process.
type world struct {
	c   *Ctx
	l   *sim.Line
	u   *sim.Unit
	api sim.API

	mu     sync.Mutex
	gets   []*getRec
	events int
}

// getRec is an observed get call.
type getRec struct {
	kind   byte
	v      ref.Val
	t0, t1 time.Time
	s0, s1 int
}

var (
	apiKinds  = sim.APIKinds
	getMethod = sim.GetMethod
)

var period = map[byte]time.Duration{
	ref.GetTemps: 5 * time.Second, ref.GetFans: 5 * time.Second,
	ref.GetProfiles: 5 * time.Minute, ref.GetBypass: 5 * time.Minute,
	ref.GetBootloader: time.Hour, ref.GetErrors: time.Hour,
}

// cacheKinds are the readings named by a cache type.
var cacheKinds = map[uint64][]byte{
	0: {ref.GetBootloader}, 1: {ref.GetFans}, 2: {ref.GetTemps}, 3: {ref.GetProfiles}, 4: {ref.GetBypass}, 10: apiKinds,
}

func newWorld(c *Ctx) *world {
	w := &world{c: c, l: sim.NewLine()}
	w.u = sim.NewUnit(w.l)
	w.api = sim.API{H: comfo.NewComfoServer(&comfoserver.Server{}, nil)}
	return w
}

// start starts the server; it must come up within the given time.
func (w *world) start(kind string, d time.Duration) bool {
	done := make(chan struct{})
	go func() {
		comfoserver.StartCaches(sim.Conn(kind, w.l))
		close(done)
	}()
	select {
	case <-done:
		return true
	case <-time.After(d):
		w.c.Viol("the server did not start within %v", d)
		return false
	}
}

// call performs an RPC in a random encoding.
func (w *world) call(r *rand.Rand, method string, in ref.Val) (ref.Val, *sim.RPCErr) {
	v, err := w.api.Call(method, r.Intn(2) == 0, in)
	if err != nil && (err.Code == "contract" || err.HTTP == 0) {
		w.c.Viol("%s %v: answer breaks the contract: %v", method, in, err)
	}
	return v, err
}

// leave performs an RPC whose client goes away after d.
func (w *world) leave(r *rand.Rand, d time.Duration, method string, in ref.Val) (ref.Val, *sim.RPCErr) {
	ctx, cancel := context.WithTimeout(context.Background(), d)
	if r.Intn(2) == 0 {
		ctx, cancel = context.WithCancel(context.Background())
		if d == 0 {
			cancel()
		} else {
			t := time.AfterFunc(d, cancel)
			defer t.Stop()
		}
	}
	defer cancel()
	w.c.Count("calls_whose_client_leaves", 1)
	return w.api.CallCtx(ctx, method, r.Intn(2) == 0, in)
}

func (w *world) seq() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.events++
	return w.events
}

// get performs and records a get call.
func (w *world) get(r *rand.Rand, kind byte) ref.Val {
	g := &getRec{kind: kind, s0: w.seq(), t0: time.Now()}
	v, err := w.call(r, getMethod[kind], nil)
	g.t1, g.s1 = time.Now(), w.seq()
	if err != nil {
		w.c.Viol("%s failed: %v", getMethod[kind], err)
		return nil
	}
	g.v = v
	w.mu.Lock()
	w.gets = append(w.gets, g)
	w.mu.Unlock()
	return v
}

func isZero(v ref.Val) bool {
	for _, x := range v {
		if x != uint64(0) && x != false && x != float64(0) && x != "" {
			return false
		}
	}
	return true
}

// deliverable: readings that the client may have stored.
func (w *world) deliverable(kind byte) (rs []*sim.Reading) {
	w.u.Lock(func() {
		for _, x := range w.u.Readings {
			if x.Req.Cmd != kind || !x.Acked {
				continue
			}
			if _, ok := ref.Decode(kind, x.Payload); ok {
				rs = append(rs, x)
			}
		}
	})
	return
}

// judgeGets is the reading monitor: every get returns one whole reading, at
// least as recent as the last one stored before the call and as anything
// returned before.
func (w *world) judgeGets(ctx string) {
	w.mu.Lock()
	gets := append([]*getRec(nil), w.gets...)
	w.mu.Unlock()
	for _, kind := range apiKinds {
		rs := w.deliverable(kind)
		var gs []*getRec
		for _, g := range gets {
			if g.kind == kind {
				gs = append(gs, g)
			}
		}
		sort.Slice(gs, func(i, j int) bool { return gs[i].s0 < gs[j].s0 })
		// done: assigned index by return order, as running maximum.
		type ret struct{ s1, idx int }
		var done []ret
		bad := 0
		seen := map[int]bool{}
		for _, g := range gs {
			lb := -1
			for i, x := range rs {
				if x.Plan.Healthy && x.AckedAt.Before(g.t0) && i > lb {
					lb = i
				}
			}
			stored := lb
			for _, d := range done {
				if d.s1 < g.s0 && d.idx > lb {
					lb = d.idx
				}
			}
			found := -2
			if lb < 0 && isZero(g.v) {
				found = -1
			}
			if found == -2 {
				for i := max(lb, 0); i < len(rs) && !rs[i].SentAt.After(g.t1); i++ {
					if sim.Matches(kind, g.v, rs[i].Payload) {
						found = i
						break
					}
				}
			}
			if found == -2 {
				what := "which matches no reading of the unit"
				for i := range rs {
					if sim.Matches(kind, g.v, rs[i].Payload) {
						what = fmt.Sprintf("which is reading %d", i)
					}
				}
				exp := ref.Val(nil)
				if lb >= 0 {
					exp, _ = ref.Decode(kind, rs[lb].Payload)
				}
				w.c.Viol("%s returned %v, %s; reading %d was stored before the call (%v) and reading %d returned before (%s)", getMethod[kind], g.v, what, stored, exp, lb, ctx)
				if bad++; bad >= 2 {
					break
				}
				continue
			}
			seen[found] = true
			done = append(done, ret{g.s1, found})
			if len(done) > 400 { // compact: keep the maximum of the older half
				sort.Slice(done, func(i, j int) bool { return done[i].s1 < done[j].s1 })
				m := -1
				for _, d := range done[:200] {
					m = max(m, d.idx)
				}
				done = append([]ret{{done[199].s1, m}}, done[200:]...)
			}
		}
		w.c.Count("get_calls", len(gs))
		w.c.Count("distinct_readings_returned", len(seen))
		w.c.Count("readings_stored", len(rs))
	}
}

func (w *world) unitViols(ctx string) {
	w.u.Lock(func() {
		for _, v := range w.u.Viols {
			w.c.Viol("%s (%s)", v, ctx)
		}
	})
}

// freshAll is a freshener that also varies the profiles and hostile names.
type freshAll struct {
	freshener
	r       *rand.Rand
	hostile bool
	np      int
}

func (f *freshAll) make(q sim.Req, p []byte) []byte {
	if q.Cmd == ref.GetProfiles {
		f.np++
		k := f.np
		p[0], p[1] = byte(k), byte(k>>8)
		for _, i := range []int{2, 3, 4, 5, 6, 7, 8, 10, 11} {
			p[i] = byte(k*(2*i+1) + i*29)
		}
		p[9] = byte(k) % 3
		return p
	}
	if p = f.freshener.make(q, p); p == nil {
		return nil
	}
	if f.hostile {
		switch q.Cmd {
		case ref.GetBootloader:
			if f.r.Intn(2) == 0 {
				copy(p[3:], randBytes(f.r, 10))
			}
		case ref.GetFans:
			if f.r.Intn(6) == 0 {
				p[2+2*f.r.Intn(2)] = 0
				p[3+2*f.r.Intn(2)] = byte(f.r.Intn(40))
			}
		case ref.GetErrors:
			p[8] = byte(f.r.Intn(3))
		}
	}
	return p
}

// badReply is a faulty reply that is over before the next request can be sent.
func badReply(r *rand.Rand, q sim.Req, h []byte) sim.Plan {
	p := sim.Plan{}
	switch f := r.Intn(8); f {
	case 0:
		p.Note = "lost"
		return p
	case 1:
		p.Note = "truncated"
		h = h[:r.Intn(len(h))]
	case 2:
		p.Note = "garbled"
		h = append([]byte(nil), h...)
		i := r.Intn(len(h))
		if i == 4 { // the constant byte before the command may be ignored
			i++
		}
		h[i] ^= byte(1 + r.Intn(255))
	case 3:
		p.Note = "noise"
		h = randBytes(r, 1+r.Intn(60))
	case 4:
		p.Note = "prefixed"
		h = append(randBytes(r, 1+r.Intn(9)), h...)
	case 5:
		p.Note = "reply to another request"
		h = append(append([]byte(nil), ref.AckSeq...), ref.Frame(q.Cmd+2+byte(r.Intn(250)), randBytes(r, ref.PayloadLen[q.Cmd]))...)
	case 6:
		p.Note = "other length"
		n := ref.PayloadLen[q.Cmd] - 1
		if r.Intn(2) == 0 {
			n = r.Intn(30)
		}
		if n = max(n, 0); n == ref.PayloadLen[q.Cmd] {
			n++
		}
		h = append(append([]byte(nil), ref.AckSeq...), ref.Frame(q.Cmd+1, randBytes(r, n))...)
	case 7:
		p.Note = "no ACK"
		h = h[2:]
	}
	if len(h) == 0 {
		return p
	}
	// All at once: what follows the point where it is refused must not meet the
	// next request.
	p.Steps = steps(r, h, 0)
	p.Steps[0].D = ms(r.Intn(400))
	return p
}

func (w *world) good(r *rand.Rand, h []byte, maxMs int) sim.Plan {
	return sim.Plan{Steps: steps(r, h, ms(r.Intn(maxMs))), Healthy: true}
}

// ---- C09 ----

func c09(c *Ctx) {
	r := c.Rnd
	w := newWorld(c)
	fr := &freshAll{r: rand.New(rand.NewSource(r.Int63())), hostile: r.Intn(2) == 0}
	w.u.Fresh = fr.make
	pr := rand.New(rand.NewSource(r.Int63()))
	faults := []int{0, 0, 10, 40}[r.Intn(4)] // percent
	startFaults := r.Intn(4) == 0
	slow := []int{1, 30, 300}[r.Intn(3)]
	nfault := 0
	startup := true
	notes := map[string]int{}
	w.u.Planner = func(q sim.Req, h []byte) sim.Plan {
		if pr.Intn(100) < faults || startup && startFaults && pr.Intn(2) == 0 {
			nfault++
			p := badReply(pr, q, h)
			notes[p.Note]++
			return p
		}
		return w.good(pr, h, slow)
	}
	// Getters are woken by the ACK, to meet the store.
	wake := make(chan struct{}, 64)
	w.u.OnAck = func() {
		for i := 0; i < 3; i++ {
			select {
			case wake <- struct{}{}:
			default:
			}
		}
	}
	if !w.start("tcp", 60*time.Second) {
		return
	}
	w.u.Lock(func() { startup = false })
	stop := time.Now().Add(time.Duration(c.N) * time.Second)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		gr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(stop) {
				select {
				case <-wake:
				case <-time.After(ms(1 + gr.Intn(400))):
				}
				for k := gr.Intn(3); k >= 0; k-- {
					w.get(gr, apiKinds[gr.Intn(len(apiKinds))])
				}
			}
		}()
	}
	for i := 0; i < 2; i++ {
		fr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(stop) {
				time.Sleep(ms(fr.Intn(900)))
				_, err := w.call(fr, "FlushCache", ref.Val{"Cache": []uint64{0, 1, 2, 3, 4, 10, 10}[fr.Intn(7)]})
				if err != nil {
					c.Viol("FlushCache failed: %v", err)
				}
			}
		}()
	}
	wg.Wait()
	ctx := fmt.Sprintf("fault rate %d%%, faulty replies: %v, hostile readings: %v", faults, notes, fr.hostile)
	w.judgeGets(ctx)
	w.unitViols(ctx)
	c.Count("faulty_replies", nfault)
	c.Eval(fmt.Sprint(c.Seed))
	c.Evals += len(w.gets)
	sig := ""
	for i, g := range w.gets {
		sig += fmt.Sprint(g.kind, g.v["MajorVersion"], g.v["InPercent"], g.v["Factor"])
		if i%20 == 19 {
			c.Shapes[hash(sig)] = struct{}{}
			sig = ""
		}
	}
	if n := len(w.gets); n > 0 {
		g := w.gets[n/2]
		c.Sample("%s; %s -> %v", ctx, getMethod[g.kind], g.v)
	}
}

// ---- C10 ----

func c10(c *Ctx) {
	r := c.Rnd
	w := newWorld(c)
	fr := &freshAll{r: rand.New(rand.NewSource(r.Int63()))}
	w.u.Fresh = fr.make
	pr := rand.New(rand.NewSource(r.Int63()))
	var faulty bool
	var only byte // faulty kind, 0: all
	var mute bool // it is not answered at all
	w.u.Planner = func(q sim.Req, h []byte) sim.Plan {
		if faulty && (only == 0 || only == q.Cmd) {
			if mute {
				return sim.Plan{Note: "lost"}
			}
			return badReply(pr, q, h)
		}
		return w.good(pr, h, 30)
	}
	if !w.start("tcp", 60*time.Second) {
		return
	}
	// Readings are identified by value within the recent ones.
	age := func(kind byte, v ref.Val, now time.Time) time.Duration {
		d := time.Duration(-1)
		w.u.Lock(func() {
			for i := len(w.u.Readings) - 1; i >= 0 && now.Sub(w.u.Readings[i].Req.At) < 5*time.Hour; i-- {
				x := w.u.Readings[i]
				if x.Req.Cmd == kind && x.Acked && sim.Matches(kind, v, x.Payload) {
					d = max(0, now.Sub(x.Req.At))
					return
				}
			}
		})
		return d
	}
	faultEnd := map[byte]time.Time{}
	// While the server waits for an answer that does not come, its refreshes are
	// late by that, and one that is late may well stand in for the next one.
	var lateUntil time.Time
	limit := func(kind byte) time.Duration {
		if time.Now().Before(lateUntil) {
			return 2*period[kind] + 5*time.Second
		}
		return 2 * period[kind]
	}
	check := func(kind byte, ctx string) {
		now := time.Now()
		v, err := w.call(r, getMethod[kind], nil)
		if err != nil {
			c.Viol("%s failed: %v", getMethod[kind], err)
			return
		}
		c.Evals++
		if kind == ref.GetErrors {
			return // one bit; its queries are monitored instead
		}
		a := age(kind, v, now)
		if fe, ok := faultEnd[kind]; ok && now.Sub(fe) <= 2*period[kind] {
			return
		}
		c.Count("judged_ages", 1)
		if a < 0 || a > limit(kind) {
			c.Viol("%s returned a reading that is %v old (negative: no reading found), the refresh period is %v; %s", getMethod[kind], a, period[kind], ctx)
		}
		if a > period[kind] {
			c.Count("older_than_a_period", 1)
		}
	}
	// refreshed: the last good reading of the kind is recent.
	refreshed := func(kind byte, ctx string) {
		now := time.Now()
		if fe, ok := faultEnd[kind]; ok && now.Sub(fe) <= 2*period[kind] {
			return
		}
		var last time.Time
		w.u.Lock(func() {
			for i := len(w.u.Readings) - 1; i >= 0; i-- {
				if x := w.u.Readings[i]; x.Req.Cmd == kind && x.Acked {
					last = x.Req.At
					return
				}
			}
		})
		if now.Sub(last) > limit(kind) {
			c.Viol("the unit was last asked for %s %v ago, the refresh period is %v; %s", getMethod[kind], now.Sub(last), period[kind], ctx)
		}
	}
	idleCount := func(d time.Duration) {
		n0, t0 := w.u.Count(), time.Now()
		time.Sleep(d)
		cnt := map[byte]int{}
		for _, q := range w.u.Since(n0) {
			cnt[q.Cmd]++
			if !sim.IsGet(q.Cmd) {
				c.Viol("idle server sent command %02x", q.Cmd)
			}
		}
		for _, k := range apiKinds {
			if most := int(time.Since(t0)/period[k]) + 1; cnt[k] > most {
				c.Viol("in %v without API calls the unit was asked for %s %d times, period %v", d, getMethod[k], cnt[k], period[k])
			}
			refreshed(k, "idle")
			c.Count("idle_queries", cnt[k])
		}
		for k := range cnt {
			if period[k] == 0 {
				c.Viol("idle server asked for command %02x", k)
			}
		}
		c.Eval(fmt.Sprint("idle ", d, cnt))
	}
	phase := 0
	for end := time.Now().Add(time.Duration(c.N) * time.Minute); time.Now().Before(end) && !c.Failed(); phase++ {
		mode := r.Intn(6)
		d := time.Duration(1+r.Intn(100)) * time.Minute
		if r.Intn(2) == 0 {
			d = time.Duration(1+r.Intn(200)) * time.Second
		}
		if c.Arg == "long" {
			mode, d = 0, 10*time.Hour+time.Duration(r.Intn(100))*time.Minute
		}
		ctx := fmt.Sprintf("phase %d, kind %d", phase, mode)
		c.Eval(fmt.Sprint(c.Seed, phase, mode))
		switch mode {
		case 0:
			idleCount(d)
			for _, k := range apiKinds {
				check(k, "after an idle phase")
			}
		case 1, 2, 3: // API calls of one sort or mixed
			only := uint64(99)
			if r.Intn(2) == 0 {
				only = []uint64{0, 1, 2, 3, 4, 10}[r.Intn(6)]
			}
			gap := []int{10, 300, 2000, 4600, 5000, 6000}[r.Intn(6)]
			if gap < 1000 && d > 5*time.Minute {
				d = time.Duration(20+r.Intn(40)) * time.Second
			} else if gap < 9000 && d > 30*time.Minute {
				d = 11 * time.Minute
			}
			for e := time.Now().Add(d); time.Now().Before(e) && !c.Failed(); {
				time.Sleep(ms(gap/2 + r.Intn(gap)))
				if x := r.Intn(10); x < 5 || gap > 2000 && x < 8 {
					f := only
					if f == 99 {
						f = []uint64{0, 1, 2, 3, 4, 10, 7}[r.Intn(7)]
					}
					w.call(r, "FlushCache", ref.Val{"Cache": f})
				} else if x == 8 {
					w.call(r, "SetComfortTemp", ref.Val{"ComfortTemp": uint64(r.Intn(130))})
				} else if x == 9 {
					w.call(r, "SetFanSpeed", ref.Val{"Abs": uint64(r.Intn(6))})
				}
				check(apiKinds[r.Intn(6)], ctx)
				refreshed(apiKinds[r.Intn(6)], ctx)
			}
		case 4: // faults
			kind := byte(0)
			if r.Intn(2) == 0 {
				kind = apiKinds[r.Intn(6)]
			}
			w.u.Lock(func() { faulty, only = true, kind })
			if d > 15*time.Minute && r.Intn(3) > 0 {
				d = time.Duration(10+r.Intn(50)) * time.Second
			}
			mark := func() {
				for _, k := range apiKinds {
					faultEnd[k] = time.Now().Add(3 * time.Second)
				}
			}
			for e := time.Now().Add(d); time.Now().Before(e); {
				s := ms(1000 + r.Intn(60000))
				if left := time.Until(e); s > left {
					s = left
				}
				time.Sleep(s)
				w.call(r, "FlushCache", ref.Val{"Cache": []uint64{0, 1, 2, 3, 4, 10, 7}[r.Intn(7)]})
			}
			w.u.Lock(func() { faulty = false })
			mark()
		case 5: // one kind is not answered, the others have to stay current
			kind := apiKinds[r.Intn(6)]
			w.u.Lock(func() { faulty, only, mute = true, kind, true })
			for e := time.Now().Add(d); time.Now().Before(e) && !c.Failed(); {
				time.Sleep(ms(1000 + r.Intn(60000)))
				if r.Intn(4) == 0 {
					w.call(r, "FlushCache", ref.Val{"Cache": []uint64{0, 1, 2, 3, 4, 7}[r.Intn(6)]})
				}
				faultEnd[kind] = time.Now().Add(3 * time.Second)
				lateUntil = time.Now().Add(time.Minute)
				for _, k := range apiKinds {
					if k != kind {
						what := ctx + ", no answer to " + getMethod[kind]
						check(k, what)
						refreshed(k, what)
						c.Count("judged_while_another_kind_is_silent", 1)
					}
				}
			}
			faultEnd[kind] = time.Now().Add(3 * time.Second)
			w.u.Lock(func() { faulty, mute = false, false })
		}
		if w.gets = nil; phase%4 == 0 {
			k := apiKinds[r.Intn(6)]
			time.Sleep(2*period[k] + ms(r.Intn(3000)))
			check(k, ctx+", waited two periods")
			refreshed(k, ctx)
		}
	}
	w.unitViols("")
	c.Count("queries", w.u.Count())
	c.Count("phases", phase)
	c.Sample("%d virtual minutes, %d phases, %d queries", c.N, phase, w.u.Count())
}

// ---- C14 ----

func c14(c *Ctx) {
	r := c.Rnd
	w := newWorld(c)
	fr := &freshAll{r: rand.New(rand.NewSource(r.Int63()))}
	w.u.Fresh = fr.make
	pr := rand.New(rand.NewSource(r.Int63()))
	bad := map[byte]bool{}
	slow := []int{1, 40, 300, 800}[r.Intn(4)]
	rate := []int{0, 20, 50, 100}[r.Intn(4)] // chance in percent that a kind is faulty in a phase
	w.u.Planner = func(q sim.Req, h []byte) sim.Plan {
		if bad[q.Cmd] {
			return badReply(pr, q, h)
		}
		return w.good(pr, h, slow)
	}
	if r.Intn(3) == 0 {
		for _, k := range apiKinds {
			bad[k] = r.Intn(100) < rate
		}
	}
	if !w.start("tcp", 60*time.Second) {
		return
	}
	type flush struct {
		cache  uint64
		ok     bool
		err    *sim.RPCErr
		n0, n1 int
		after  []*getRec
	}
	var mu sync.Mutex
	var all []*flush
	unknown := []uint64{5, 6, 7, 8, 9, 11, 12, 100, 255, 256, 266, 1 << 20, math.MaxInt32}
	for round := 0; round < c.N && !c.Failed(); round++ {
		w.u.Lock(func() {
			for _, k := range apiKinds {
				bad[k] = r.Intn(100) < rate
			}
		})
		var wg sync.WaitGroup
		nc := []int{1, 1, 2, 4}[r.Intn(4)]
		for i := 0; i < nc; i++ {
			fr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 3; k++ {
					if fr.Intn(2) == 0 {
						time.Sleep(ms(fr.Intn(1500)))
					}
					f := &flush{cache: []uint64{0, 1, 2, 3, 4, 10, 99}[fr.Intn(7)]}
					if f.cache == 99 {
						f.cache = unknown[fr.Intn(len(unknown))]
					}
					f.n0 = w.u.Count()
					if fr.Intn(4) == 0 { // nobody waits for the answer
						w.leave(fr, ms([]int{0, 1, fr.Intn(100), fr.Intn(3000)}[fr.Intn(4)]), "FlushCache", ref.Val{"Cache": f.cache})
						continue
					}
					v, err := w.call(fr, "FlushCache", ref.Val{"Cache": f.cache})
					f.n1, f.err = w.u.Count(), err
					if err == nil {
						f.ok = v["Success"].(bool)
					}
					// The gets show it.
					for _, kd := range cacheKinds[f.cache] {
						w.get(fr, kd)
						w.mu.Lock()
						f.after = append(f.after, w.gets[len(w.gets)-1])
						w.mu.Unlock()
					}
					mu.Lock()
					all = append(all, f)
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		time.Sleep(ms(r.Intn(4000)))
	}
	names := func(ks []byte) string {
		var s []string
		for _, k := range ks {
			s = append(s, getMethod[k][3:])
		}
		return strings.Join(s, "+")
	}
	for _, f := range all {
		ks := cacheKinds[f.cache]
		nm := fmt.Sprintf("FlushCache(%d %s)", f.cache, names(ks))
		if f.err != nil {
			c.Viol("%s failed: %v", nm, f.err)
			continue
		}
		okN, badN := map[byte]int{}, map[byte]int{}
		w.u.Lock(func() {
			for _, e := range w.u.Exchs[f.n0:f.n1] {
				if e.Plan.Healthy && e.Reply != nil && e.Reply.Acked {
					okN[e.Req.Cmd]++
				} else {
					badN[e.Req.Cmd]++
				}
			}
		})
		allOK, someBad := len(ks) > 0, len(ks) == 0
		for _, k := range ks {
			if okN[k] == 0 {
				allOK = false
			}
			if badN[k] > 0 {
				someBad = true
			}
		}
		if f.ok && !allOK {
			c.Viol("%s answered Success although not every reading it names was read again during the call (good readings: %s, failed: %s)", nm, kindCount(okN), kindCount(badN))
		}
		if !f.ok && !someBad {
			c.Viol("%s answered Success=false although nothing it names failed (good readings: %s, failed: %s)", nm, kindCount(okN), kindCount(badN))
		}
		for _, k := range ks {
			if okN[k]+badN[k] == 0 {
				c.Viol("%s did not ask the unit for %s (good readings: %s, failed: %s)", nm, getMethod[k][3:], kindCount(okN), kindCount(badN))
			}
		}
		c.Eval(fmt.Sprint(f.cache, f.ok, kindCount(okN), kindCount(badN)))
		if f.ok {
			c.Count("success", 1)
		} else {
			c.Count("no_success", 1)
		}
	}
	w.judgeGets(fmt.Sprintf("fault rate per kind %d%%", rate))
	w.unitViols("")
	if len(all) > 0 {
		f := all[len(all)/2]
		c.Sample("FlushCache(%d) -> Success=%v with exchanges %d..%d of the unit", f.cache, f.ok, f.n0, f.n1)
	}
	w.l.Fail(io.EOF)
}

func kindCount(m map[byte]int) string {
	s := ""
	for _, k := range apiKinds {
		if m[k] > 0 {
			s += fmt.Sprintf("%s:%d ", getMethod[k][3:], m[k])
		}
	}
	return s
}
