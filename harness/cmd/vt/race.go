package main

import (
	"fmt"
	"io"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ti-mo/comfo/libcomfo"

	"verif/ref"
	"verif/sim"
)

func init() { workloads["c15"] = c15 }

// c15 runs in real time under the race detector, which is the oracle. -arg lib
// drives the library, -arg srv the server; -n is the time in seconds.
func c15(c *Ctx) {
	r := c.Rnd
	d := time.Duration(c.N) * time.Second
	var ops atomic.Int64
	plan := func(pr *rand.Rand) func(sim.Req, []byte) sim.Plan {
		flip := time.Now()
		faulty := false
		return func(q sim.Req, h []byte) sim.Plan {
			if time.Since(flip) > time.Second {
				flip, faulty = time.Now(), pr.Intn(3) == 0
			}
			if faulty && pr.Intn(2) == 0 {
				c.Count("faulty_replies", 1)
				return faultPlan(pr, q, h)
			}
			return sim.Plan{Steps: steps(pr, h, time.Duration(pr.Intn(8))*time.Millisecond), Healthy: true}
		}
	}
	hammer := func(n int, f func(*rand.Rand)) {
		var wg sync.WaitGroup
		stop := time.Now().Add(d)
		for i := 0; i < n; i++ {
			cr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for time.Now().Before(stop) {
					f(cr)
					ops.Add(1)
					if cr.Intn(3) == 0 {
						time.Sleep(time.Duration(cr.Intn(30)) * time.Millisecond)
					}
				}
			}()
		}
		wg.Wait()
	}
	if c.Arg == "lib" {
		kind := []string{"tcp", "plain"}[c.Seed%2]
		l := sim.NewLine()
		u := sim.NewUnit(l)
		u.Planner = plan(rand.New(rand.NewSource(r.Int63())))
		conn := sim.Conn(kind, l)
		// A second connection, which shares nothing with the first.
		l2 := sim.NewLine()
		u2 := sim.NewUnit(l2)
		u2.Planner = plan(rand.New(rand.NewSource(r.Int63())))
		conn2 := sim.Conn(kind, l2)
		hammer(6, func(cr *rand.Rand) {
			x := conn
			if cr.Intn(4) == 0 {
				x = conn2
			}
			switch k := cr.Intn(13); {
			case k < 8:
				libGet(ref.Gets[k], x)
			case k < 11:
				setCalls[k-8].do(x)
			case k == 11:
				libcomfo.SetFanProfile(uint8(cr.Intn(4)), uint8(cr.Intn(101)), x)
			default:
				b := randBytes(cr, cr.Intn(20))
				libcomfo.QueryPacket(libcomfo.Packet{Command: ref.GetFans, Data: nil, Expect: true}, x)
				libcomfo.MarshalPacket(libcomfo.Packet{Command: byte(cr.Intn(256)), Data: b})
				libcomfo.UnmarshalPacket(ref.Body(byte(cr.Intn(256)), b))
				libcomfo.WritePacket(libcomfo.Packet{Command: 1, Data: b}, io.Discard)
			}
		})
		c.Count("requests", u.Count()+u2.Count())
		c.Count("library_calls", int(ops.Load()))
		c.Eval(fmt.Sprintf("lib %s %d %d", kind, u.Count(), u2.Count()))
		c.Sample("library, %s connection: %d calls by 6 callers, %d requests", kind, ops.Load(), u.Count()+u2.Count())
		return
	}
	w := newWorld(c)
	fr := &freshAll{r: rand.New(rand.NewSource(r.Int63())), hostile: true}
	w.u.Fresh = func(q sim.Req, p []byte) []byte {
		if q.Cmd == ref.GetProfiles || q.Cmd == ref.GetFans {
			return nil
		}
		return fr.make(q, p)
	}
	w.u.Planner = plan(rand.New(rand.NewSource(r.Int63())))
	if !w.start("tcp", time.Minute) {
		return
	}
	per := map[string]*atomic.Int64{}
	for m := range ref.Methods {
		per[m] = &atomic.Int64{}
	}
	hammer(10, func(cr *rand.Rand) {
		var m string
		var in ref.Val
		switch k := cr.Intn(24); {
		case k < 12:
			m = getMethod[apiKinds[k%6]]
		case k < 15:
			m, in = "SetFanSpeed", ref.Val{"Abs": uint64(cr.Intn(6)), "Rel": cr.Intn(3) == 0}
		case k < 18:
			m, in = "SetComfortTemp", ref.Val{"ComfortTemp": uint64(cr.Intn(130))}
		case k < 21:
			m, in = "SetFanProfile", ref.Val{"Mode": uint64(cr.Intn(6)), "TargetSpeed": uint64(cr.Intn(130))}
		default:
			m, in = "FlushCache", ref.Val{"Cache": []uint64{0, 1, 2, 3, 4, 10, 6}[cr.Intn(7)]}
		}
		w.call(cr, m, in)
		per[m].Add(1)
	})
	s := ""
	for _, m := range ref.MethodNm {
		c.Count("call_"+m, int(per[m].Load()))
		s += fmt.Sprintf("%s:%d ", m, per[m].Load())
	}
	c.Count("requests", w.u.Count())
	c.Eval(fmt.Sprintf("srv %s%d", s, w.u.Count()))
	c.Evals += int(ops.Load())
	c.Sample("server: %s, %d requests to the unit", s, w.u.Count())
}
