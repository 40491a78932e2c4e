package main

import (
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif/ref"
	"verif/sim"
)

func init() { workloads["c22"] = c22 }

// ---- C22: nothing piles up ----

// c22 alternates busy and quiet times of the server and counts goroutines in
// the quiet ones.
func c22(c *Ctx) {
	r := c.Rnd
	w := newWorld(c)
	pr := rand.New(rand.NewSource(r.Int63()))
	bad := 0
	w.u.Planner = func(q sim.Req, h []byte) sim.Plan {
		if pr.Intn(100) < bad {
			return faultPlan(pr, q, h)
		}
		return w.good(pr, h, 60)
	}
	w.u.Ramp = ms(r.Intn(3000))
	if r.Intn(3) == 0 {
		bad = 50
	}
	if !w.start("tcp", 10*time.Minute) {
		return
	}
	u := w.u
	var counts []int
	var hist []string
	rounds := 6
	for i := 0; i < rounds; i++ {
		rate := []int{0, 30, 100}[r.Intn(3)]
		u.Lock(func() { bad = rate })
		var wg sync.WaitGroup
		n := 0
		workers := 1 + r.Intn(8)
		for g := 0; g < workers; g++ {
			cr := rand.New(rand.NewSource(r.Int63()))
			k := 1 + cr.Intn(c.N)
			n += k
			wg.Add(1)
			go func() {
				defer wg.Done()
				for ; k > 0; k-- {
					m, in := anyCall(cr)
					if cr.Intn(3) == 0 {
						w.leave(cr, ms(cr.Intn(3000)), m, in)
					} else {
						w.call(cr, m, in)
					}
					if cr.Intn(3) == 0 {
						time.Sleep(ms(cr.Intn(3000)))
					}
				}
			}()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(2 * time.Hour):
			c.Viol("calls do not return (fault rate %d%%)", rate)
			return
		}
		u.Lock(func() { bad = 0 })
		// Quiet: late replies out, and two refreshes of everything.
		time.Sleep([]time.Duration{5 * time.Minute, 130 * time.Minute}[r.Intn(2)])
		// Between two refreshes: a refresh runs for some 100 ms every 5 s.
		g := 1 << 30
		for k := 0; k < 20; k++ {
			time.Sleep(ms(370))
			g = min(g, goroutines())
		}
		counts = append(counts, g)
		hist = append(hist, fmt.Sprintf("%d calls by %d callers at fault rate %d%%", n, workers, rate))
		if q := w.l.Waiting(); q > 1 {
			c.Viol("%d reads are waiting on the line in a quiet time, after %s", q, strings.Join(hist, "; "))
		}
		c.Count("calls", n)
		c.Eval(strings.Join(hist, "; "))
	}
	// The first busy times may start something that stays.
	if d := counts[rounds-1] - counts[1]; d >= 3 {
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		c.Viol("the number of goroutines in quiet times grows: %v; busy times: %s; at the end:\n%s", counts, strings.Join(hist, "; "), commonStacks(string(buf)))
	}
	c.Count("quiet_times_compared", rounds)
	c.Sample("goroutines in quiet times %v; busy times: %s", counts, strings.Join(hist, "; "))
	w.l.Fail(io.EOF)
}

// commonStacks lists where most goroutines are.
func commonStacks(s string) string {
	n := map[string]int{}
	for _, g := range strings.Split(s, "\n\n") {
		for _, l := range strings.Split(g, "\n") {
			if strings.Contains(l, "ti-mo/comfo") && !strings.HasPrefix(l, "\t") {
				n[l]++
				break
			}
		}
	}
	out := ""
	for l, k := range n {
		if k > 1 {
			out += fmt.Sprintf("%d x %s\n", k, l)
		}
	}
	return out
}

// anyCall picks any call of the API.
func anyCall(r *rand.Rand) (string, ref.Val) {
	n := uint64(r.Intn(8))
	if r.Intn(6) == 0 {
		n = big[r.Intn(len(big))]
	}
	switch k := r.Intn(14); {
	case k < 5:
		return getMethod[apiKinds[k]], nil
	case k < 8:
		return "SetFanSpeed", ref.Val{"Abs": n * uint64(r.Intn(2)), "Rel": r.Intn(3) == 0}
	case k < 10:
		return "SetComfortTemp", ref.Val{"ComfortTemp": n * uint64(1+r.Intn(20)) & (1<<32 - 1)}
	case k < 12:
		return "SetFanProfile", ref.Val{"Mode": n, "TargetSpeed": uint64(r.Intn(120))}
	}
	return "FlushCache", ref.Val{"Cache": []uint64{0, 1, 2, 3, 4, 5, 10, 11}[r.Intn(8)]}
}
