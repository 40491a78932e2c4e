package main

import (
	"context"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"verif/ref"
	"verif/sim"
)

// hiccups watches how late this process is woken up, so that a machine that
// is too busy is not mistaken for a slow daemon.
type hiccups struct {
	mu    sync.Mutex
	worst time.Duration
}

func watch() *hiccups {
	h := &hiccups{}
	go func() {
		for {
			t := time.Now()
			time.Sleep(20 * time.Millisecond)
			if d := time.Since(t) - 20*time.Millisecond; d > 0 {
				h.mu.Lock()
				h.worst = max(h.worst, d)
				h.mu.Unlock()
			}
		}
	}()
	return h
}

// take returns the longest delay since the last call.
func (h *hiccups) take() time.Duration {
	h.mu.Lock()
	defer h.mu.Unlock()
	d := h.worst
	h.worst = 0
	return d
}

const disturbed = 200 * time.Millisecond

// badPlan is a reply that makes its query fail, or bothers the next one.
func badPlan(r *rand.Rand, h []byte) sim.Plan { return badPlanOf(r, h, r.Intn(10)) }

func badPlanOf(r *rand.Rand, h []byte, kind int) sim.Plan {
	ms := func(n int) time.Duration { return time.Duration(n) * time.Millisecond }
	switch kind {
	case 0:
		return sim.Plan{Note: "lost"}
	case 9:
		p := sim.Plan{Note: "babble"}
		for n := 1 + r.Intn(60); n > 0; n-- {
			b := make([]byte, 1+r.Intn(1000))
			r.Read(b)
			p.Steps = append(p.Steps, sim.Step{D: ms(r.Intn(20)), B: b})
		}
		return p
	case 1, 2:
		return sim.Plan{Note: "late", Steps: []sim.Step{{D: ms(1050 + r.Intn(900)), B: h}}}
	case 3:
		return sim.Plan{Note: "truncated", Steps: []sim.Step{{B: h[:1+r.Intn(len(h)-1)]}}}
	case 4:
		b := append([]byte(nil), h...)
		b[r.Intn(len(b))] ^= byte(1 + r.Intn(255))
		return sim.Plan{Note: "garbled", Steps: []sim.Step{{B: b}}}
	case 5:
		b := make([]byte, 1+r.Intn(20))
		r.Read(b)
		return sim.Plan{Note: "prefixed", Steps: []sim.Step{{B: append(b, h...)}}}
	case 6:
		return sim.Plan{Note: "twice", Steps: []sim.Step{{B: h}, {D: ms(r.Intn(50)), B: h}}}
	case 7:
		k := 1 + r.Intn(len(h)-1)
		return sim.Plan{Note: "rest late", Steps: []sim.Step{{B: h[:k]}, {D: ms(1050 + r.Intn(700)), B: h[k:]}}}
	default:
		b := make([]byte, 1+r.Intn(100))
		r.Read(b)
		return sim.Plan{Note: "noise", Steps: []sim.Step{{B: b}}}
	}
}

var flushKind = map[uint64]byte{0: ref.GetBootloader, 1: ref.GetFans, 2: ref.GetTemps, 3: ref.GetProfiles, 4: ref.GetBypass}

// c07 lets the built daemon go through bursts of faults.
func c07(r *rand.Rand) {
	h := watch()
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		mode := []string{"tcp", "serial"}[i%2]
		s := r.Int63()
		wg.Add(1)
		go func() { defer wg.Done(); c07daemon(rand.New(rand.NewSource(s)), mode, h) }()
	}
	wg.Wait()
}

func c07daemon(r *rand.Rand, mode string, hc *hiccups) {
	u, d := pairMode("recovery "+mode, mode)
	if d == nil {
		return
	}
	faulty, chatter := false, false
	notes, sent := "", 0
	pr := rand.New(rand.NewSource(r.Int63()))
	u.Lock(func() {
		u.Planner = func(q sim.Req, h []byte) sim.Plan {
			if !faulty {
				return sim.Plan{Steps: []sim.Step{{B: h}}, Healthy: true}
			}
			p := badPlan(pr, h)
			if chatter {
				p = badPlanOf(pr, h, 9)
			}
			notes += p.Note + ", "
			for _, s := range p.Steps {
				sent += len(s.B)
			}
			return p
		}
	})
	for i := 0; i < *num && d.alive(); i++ {
		u.Lock(func() { faulty, notes = true, "" })
		k := 1 + r.Intn(4)
		if i == *num/2 { // once, a lot
			u.Lock(func() { chatter, k = true, 8 })
		}
		for ; k > 0; k-- {
			d.call("FlushCache", r.Intn(2) == 0, ref.Val{"Cache": uint64(r.Intn(5))}, 20*time.Second)
		}
		u.Lock(func() { faulty, chatter = false, false })
		end := time.Now().Add(15 * time.Second)
		for idle := false; !idle && time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
			idle = u.l.Pending() == 0
			u.Lock(func() {
				for _, e := range u.Exchs {
					if !e.Sent && len(e.Plan.Steps) > 0 {
						idle = false
					}
				}
			})
		}
		hc.take()
		fails, told := 0, ""
		for k := 0; k < 9 && d.alive(); k++ {
			randomState(r, u.Unit)
			f := uint64(r.Intn(5))
			p := u.State(flushKind[f])
			m := sim.GetMethod[flushKind[f]]
			v, err := d.call("FlushCache", r.Intn(2) == 0, ref.Val{"Cache": f}, 20*time.Second)
			if err != nil {
				viol("FlushCache(%d) fails: %v", f, err)
				break
			}
			if v["Success"] != true {
				fails++
				told += fmt.Sprint(k+1, " ")
				count("failures_after_recovery", 1)
				if (fails > 3 || k >= 3) && hc.take() < disturbed {
					viol("in %s mode, queries %sto the unit fail after it has recovered (the daemon's other queries aside); faults before: %s", mode, told, notes)
					break
				}
				continue
			}
			g, err := d.call(m, r.Intn(2) == 0, nil, 20*time.Second)
			if err != nil || !sim.Matches(flushKind[f], g, p) {
				w, _ := ref.Decode(flushKind[f], p)
				viol("in %s mode, query %d after the unit has recovered: %s gives %v, %v, but the unit's reading is % x, %v; faults before: %s", mode, k+1, m, g, err, p, w, notes)
			}
			count("readings_compared", 1)
		}
		eval(mode + notes)
		if r.Intn(10) == 0 {
			sample("%s mode, faults: %s-> %d failures after", mode, notes, fails)
		}
		count("bursts_"+mode, 1)
	}
	u.Lock(func() { count("bytes_of_faulty_replies_"+mode, sent) })
	finish("recovery "+mode, u, d)
}

// c15d stresses the daemon, built with the race detector, over HTTP.
func c15d(r *rand.Rand) {
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		s := r.Int63()
		mode := []string{"tcp", "serial"}[i]
		wg.Add(1)
		go func() { defer wg.Done(); c15daemon(rand.New(rand.NewSource(s)), mode) }()
	}
	wg.Wait()
}

func c15daemon(r *rand.Rand, mode string) {
	u := newUnit(mode)
	if u == nil {
		return
	}
	a := addr()
	// Logging is part of the daemon.
	d := startDaemon(a, []string{"COMFO_DEBUG=true"}, "--debug", "--mode", mode, "--target", u.target, "--listen", a)
	if !d.up(30 * time.Second) {
		viol("the daemon (%s) does not serve on %s; output: %s", d.what, a, tail(d.output()))
		d.stop()
		u.close()
		return
	}
	pr := rand.New(rand.NewSource(r.Int63()))
	bad := 0
	u.Lock(func() {
		u.Ramp = 2 * time.Second
		u.Planner = func(q sim.Req, h []byte) sim.Plan {
			if pr.Intn(100) < bad {
				return badPlan(pr, h)
			}
			return sim.Plan{Steps: []sim.Step{{D: time.Duration(pr.Intn(30)) * time.Millisecond, B: h}}, Healthy: true}
		}
	})
	end := time.Now().Add(time.Duration(*num) * time.Second)
	var wg sync.WaitGroup
	for i := 0; i < 12; i++ {
		cr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			cl := &http.Client{Transport: &http.Transport{DisableKeepAlives: i%3 == 0}}
			for time.Now().Before(end) {
				m := ref.MethodNm[cr.Intn(len(ref.MethodNm))]
				if cr.Intn(3) > 0 {
					m = []string{"GetBootloader", "GetTemps", "GetFans", "GetFanProfiles", "GetErrors", "GetBypass"}[cr.Intn(6)]
				}
				in := ref.Val{}
				switch m {
				case "SetFanSpeed":
					in = ref.Val{"Abs": uint64(cr.Intn(6)), "Rel": cr.Intn(3) == 0}
				case "SetComfortTemp":
					in = ref.Val{"ComfortTemp": uint64(cr.Intn(110))}
				case "SetFanProfile":
					in = ref.Val{"Mode": uint64(cr.Intn(6)), "TargetSpeed": uint64(10 + cr.Intn(95))}
				case "FlushCache":
					in = ref.Val{"Cache": []uint64{0, 1, 2, 3, 4, 7, 10}[cr.Intn(7)]}
				}
				j := cr.Intn(2) == 0
				switch what := cr.Intn(10); what {
				case 0: // goes away
					ctx, cancel := context.WithTimeout(context.Background(), time.Duration(cr.Intn(50))*time.Millisecond)
					req, _ := http.NewRequestWithContext(ctx, "POST", "http://"+a+"/twirp/comfo.api.Comfo/"+m, strings.NewReader(`{"Abs": 3}`))
					req.Header.Set("Content-Type", "application/json")
					if resp, err := cl.Do(req); err == nil {
						resp.Body.Close()
					}
					cancel()
					eval(fmt.Sprint("gone ", m))
				case 1: // breaks off within the request
					if c, err := net.DialTimeout("tcp", a, time.Second); err == nil {
						s := fmt.Sprintf("POST /twirp/comfo.api.Comfo/%s HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: 20\r\n\r\n{\"Abs\": 3}          ", m)
						c.Write([]byte(s[:1+cr.Intn(len(s)-1)]))
						c.Close()
					}
					eval(fmt.Sprint("broken off ", m))
				case 2:
					p := []string{"/", "/twirp/comfo.api.Comfo/" + m + "x", "/twirp/", "/twirp/comfo.api.Comfo//" + m}[cr.Intn(4)]
					req, _ := http.NewRequest([]string{"GET", "POST", "PUT"}[cr.Intn(3)], "http://"+a+p, strings.NewReader("{"))
					if resp, err := cl.Do(req); err == nil {
						resp.Body.Close()
					}
					eval(fmt.Sprint("unknown ", p))
				default:
					if _, err := d.call(m, j, in, 3*time.Minute); err != nil && (err.Code == "transport" || err.Code == "contract") && d.alive() && time.Now().Before(end) {
						viol("%s%v: %v", m, in, err)
					}
					eval(fmt.Sprint(m, in, j))
				}
				count("requests", 1)
			}
		}()
	}
	for time.Now().Before(end.Add(-5 * time.Second / 2)) {
		time.Sleep(time.Duration(500+r.Intn(1500)) * time.Millisecond)
		b := []int{0, 0, 30, 100}[r.Intn(4)]
		u.Lock(func() { bad = b })
	}
	u.Lock(func() { bad = 0 })
	if time.Until(end) > time.Second {
		time.Sleep(time.Until(end) - time.Second)
	}
	// Calls go on after the unit is gone.
	u.hangup()
	wg.Wait()
	if !d.alive() {
		viol("the daemon ended (%v); output: %s", d.state, tail(d.output()))
	}
	d.stop()
	u.close()
}
