package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	"net"
	"net/http"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ti-mo/comfo/comfoserver"
	"github.com/ti-mo/comfo/libcomfo"
	comfo "github.com/ti-mo/comfo/rpc/comfo"

	"verif/ref"
	"verif/sim"
)

// c22 counts what is kept after many calls: memory, open files, threads.
func c22(r *rand.Rand) {
	run := func(name string, f func(*rand.Rand)) {
		s := r.Int63()
		if *arg == "" || *arg == name {
			f(rand.New(rand.NewSource(s)))
		}
	}
	run("heap", c22heap)
	run("daemon", c22daemon)
}

// heap is the memory in use after collection.
func heap() int {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
		debug.FreeOSMemory()
	}
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}

// forgetful is a simulated unit that keeps no record of what happened.
func forgetful(r *rand.Rand) (*sim.Unit, *sim.Line, *int) {
	l := sim.NewLine()
	u := sim.NewUnit(l)
	bad := 0
	n := 0
	pr := rand.New(rand.NewSource(r.Int63()))
	u.Planner = func(q sim.Req, h []byte) sim.Plan {
		if n++; n%64 == 0 {
			u.Exchs, u.Readings, u.Changes = nil, nil, nil
		}
		if pr.Intn(1000) < bad {
			if len(h) < 6 {
				return sim.Plan{Steps: []sim.Step{{B: []byte{0x55, 7, 0xF3}}}}
			}
			b := append([]byte(nil), h...)
			b[5]++ // another command: refused at once
			return sim.Plan{Steps: []sim.Step{{B: b}}}
		}
		return sim.Plan{Steps: []sim.Step{{B: h}}, Healthy: true}
	}
	return u, l, &bad
}

// c22heap makes many calls in this process and compares the heap.
func c22heap(r *rand.Rand) {
	sim.Queue = 1 << 6
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	const margin = 40 << 10
	growth := func(what string, per int, f func(k int)) {
		var hs []int
		for k := 0; k < 5; k++ {
			f(k)
			// Timers of the calls run out.
			time.Sleep(1200 * time.Millisecond)
			hs = append(hs, heap())
		}
		// Something that is kept per call is kept in every round.
		grows := true
		for k := 1; k < len(hs); k++ {
			grows = grows && hs[k]-hs[k-1] > margin
		}
		if grows {
			viol("%s: the heap in use after each %d calls grows: %v", what, per, hs)
		}
		count("calls_"+what, len(hs)*per)
		eval(what)
		sample("%s: heap after each %d calls: %v", what, per, hs)
	}
	n := *num * 5000
	// The library on one connection.
	for _, kind := range []string{"tcp", "plain"} {
		u, l, _ := forgetful(r)
		conn := sim.Conn(kind, l)
		if kind == "tcp" {
			conn = quick{sim.NewTCP(l)}
		}
		growth("library queries on one "+kind+" connection", n, func(int) {
			for i := 0; i < n; i++ {
				switch i % 4 {
				case 0:
					libcomfo.GetTemperatures(conn)
				case 1:
					libcomfo.GetFans(conn)
				case 2:
					libcomfo.SetSpeed(uint8(i%5), conn)
				case 3:
					libcomfo.GetErrors(conn)
				}
			}
		})
		l.Fail(io.EOF)
		u.Stop()
	}
	// A new connection every time.
	growth("connections", n/5, func(int) {
		for i := 0; i < n/5; i++ {
			u, l, _ := forgetful(r)
			libcomfo.GetBootloader(quick{sim.NewTCP(l)})
			libcomfo.SetFanProfile(2, 30, &sim.Plain{L: l})
			l.Fail(io.EOF)
			u.Stop()
		}
	})
	// The server.
	u, l, bad := forgetful(r)
	comfoserver.StartCaches(quick{sim.NewTCP(l)})
	api := sim.API{H: comfo.NewComfoServer(&comfoserver.Server{}, nil)}
	cr := rand.New(rand.NewSource(r.Int63()))
	growth("API calls", n, func(int) {
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			gr := rand.New(rand.NewSource(cr.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < n/4; i++ {
					switch k := gr.Intn(20); k {
					case 0:
						api.Call("FlushCache", gr.Intn(2) == 0, ref.Val{"Cache": []uint64{0, 1, 2, 3, 4, 7, 10}[gr.Intn(7)]})
					case 1:
						api.Call("SetComfortTemp", gr.Intn(2) == 0, ref.Val{"ComfortTemp": uint64(gr.Intn(130))})
					case 2:
						api.Call("SetFanProfile", gr.Intn(2) == 0, ref.Val{"Mode": uint64(gr.Intn(6)), "TargetSpeed": uint64(gr.Intn(120))})
					case 3:
						ctx, cancel := context.WithCancel(context.Background())
						cancel()
						api.CallCtx(ctx, "FlushCache", true, ref.Val{"Cache": uint64(gr.Intn(6))})
					default:
						api.Call(sim.GetMethod[sim.APIKinds[k%6]], gr.Intn(2) == 0, nil)
					}
				}
			}()
		}
		wg.Wait()
	})
	growth("refreshes", n, func(int) {
		for i := 0; i < n; i++ {
			api.Call("FlushCache", true, ref.Val{"Cache": uint64(i % 5)})
		}
	})
	u.Lock(func() { *bad = 1000 })
	growth("failing refreshes", n, func(int) {
		for i := 0; i < n; i++ {
			api.Call("FlushCache", true, ref.Val{"Cache": uint64(i % 5)})
		}
	})
	growth("failing changes", n, func(int) {
		for i := 0; i < n; i++ {
			api.Call("SetFanProfile", true, ref.Val{"Mode": uint64(i%4 + 1), "TargetSpeed": uint64(15 + i%80)})
		}
	})
	l.Fail(io.EOF)
}

// quick is a connection whose deadlines in the next moment are now.
type quick struct{ *sim.TCP }

func (c quick) SetReadDeadline(t time.Time) error {
	if !t.IsZero() && time.Until(t) < 100*time.Millisecond {
		t = time.Now()
	}
	return c.TCP.SetReadDeadline(t)
}

// c22daemon counts the open files, threads and memory of the built daemon.
func c22daemon(r *rand.Rand) {
	u, d := pairMode("resources", "tcp", "GOGC=10")
	if d == nil {
		return
	}
	u.Lock(func() {
		n := 0
		u.Planner = func(q sim.Req, h []byte) sim.Plan {
			if n++; n%64 == 0 {
				u.Exchs, u.Readings, u.Changes = nil, nil, nil
			}
			return sim.Plan{Steps: []sim.Step{{B: h}}, Healthy: true}
		}
	})
	proc := fmt.Sprintf("/proc/%d/", d.cmd.Process.Pid)
	files := func() int {
		es, err := os.ReadDir(proc + "fd")
		if err != nil {
			return -1
		}
		return len(es)
	}
	status := func(key string) int {
		b, _ := os.ReadFile(proc + "status")
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, key+":") {
				n, _ := strconv.Atoi(strings.Fields(l)[1])
				return n
			}
		}
		return -1
	}
	base := "/twirp/comfo.api.Comfo/"
	// once makes a request on a connection of its own, from any local address.
	once := func(gr *rand.Rand) {
		dl := net.Dialer{Timeout: 5 * time.Second, LocalAddr: &net.TCPAddr{IP: net.IPv4(127, byte(1+gr.Intn(200)), byte(gr.Intn(256)), byte(1+gr.Intn(250)))}}
		c, err := dl.Dial("tcp", d.listen)
		if err != nil {
			return
		}
		defer c.Close()
		c.SetDeadline(time.Now().Add(10 * time.Second))
		fmt.Fprintf(c, "POST %s%s?%d HTTP/1.0\r\nHost: %d.x\r\nUser-Agent: %d\r\nContent-Type: application/json\r\nContent-Length: 2\r\n\r\n{}",
			base, sim.GetMethod[sim.APIKinds[gr.Intn(6)]], gr.Int63(), gr.Int63(), gr.Int63())
		io.Copy(io.Discard, c)
	}
	// Clients that keep their connection open, after a request, in the middle of
	// one, or without any: the daemon lets go of them in time.
	var held []net.Conn
	defer func() {
		for _, c := range held {
			c.Close()
		}
	}()
	hold := func() {
		for i := 0; i < 24; i++ {
			c, err := net.DialTimeout("tcp", d.listen, 5*time.Second)
			if err != nil {
				viol("cannot connect while %d clients keep connections open: %v", len(held), err)
				return
			}
			held = append(held, c)
			req := "POST " + base + "GetBypass HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: 2\r\n\r\n{}"
			switch i % 4 {
			case 1:
				fmt.Fprint(c, req)
				c.SetReadDeadline(time.Now().Add(10 * time.Second))
				resp, err := http.ReadResponse(bufio.NewReader(c), nil)
				if err != nil {
					viol("no answer while %d clients keep connections open: %v", len(held), err)
					return
				}
				io.Copy(io.Discard, resp.Body)
			case 2:
				fmt.Fprint(c, req[:1+r.Intn(len(req)-3)])
			case 3:
				fmt.Fprint(c, req[:len(req)-2])
			}
		}
		count("connections_held_open", 24)
	}
	busy := func() {
		hold()
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			gr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				tr := &http.Transport{}
				defer tr.CloseIdleConnections()
				cl := &http.Client{Transport: tr}
				for i := 0; i < *num*400; i++ {
					once(gr)
				}
				for i := 0; i < *num*150; i++ {
					switch k := gr.Intn(60); {
					case k == 0: // broken off
						if c, err := net.DialTimeout("tcp", d.listen, time.Second); err == nil {
							fmt.Fprintf(c, "POST %sGetTemps HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\n{", base)
							c.Close()
						}
					case k == 1: // goes away
						ctx, cancel := context.WithTimeout(context.Background(), time.Millisecond)
						req, _ := http.NewRequestWithContext(ctx, "POST", "http://"+d.listen+base+"FlushCache", strings.NewReader(`{"Cache": 1}`))
						req.Header.Set("Content-Type", "application/json")
						if resp, err := cl.Do(req); err == nil {
							io.Copy(io.Discard, resp.Body)
							resp.Body.Close()
						}
						cancel()
					default:
						m := sim.GetMethod[sim.APIKinds[k%6]]
						ct := []string{"application/json", "application/protobuf", "text/plain"}[k%3]
						body := []byte(nil)
						if ct == "application/json" {
							body = []byte("{}")
						}
						path := base + m
						if k == 2 {
							path = fmt.Sprintf("/unknown/%d", gr.Int63())
						}
						req, _ := http.NewRequest("POST", "http://"+d.listen+path, bytes.NewReader(body))
						req.Header.Set("Content-Type", ct)
						req.Header.Set("X-Request", fmt.Sprint(gr.Int63()))
						if resp, err := cl.Do(req); err == nil {
							io.Copy(io.Discard, resp.Body)
							resp.Body.Close()
						}
					}
				}
			}()
		}
		wg.Wait()
	}
	var fs, ts, ms []int
	for k := 0; k < 5; k++ {
		busy()
		client.CloseIdleConnections()
		// Connections end; requests that were broken off are given up.
		best := 1 << 30
		for i := 0; i < 150; i++ {
			time.Sleep(100 * time.Millisecond)
			if f := files(); f >= 0 && f < best {
				best = f
			}
			if len(fs) > 0 && best <= fs[0] {
				break
			}
		}
		fs, ts, ms = append(fs, best), append(ts, status("Threads")), append(ms, status("VmRSS"))
	}
	what := fmt.Sprintf("after each %d requests and %d more on connections of their own: open files %v, threads %v, resident kB %v", 6*150**num, 6*400**num, fs, ts, ms)
	if !d.alive() {
		viol("the daemon ended; %s", what)
	} else if fs[1] >= 0 {
		if fs[4] > fs[1]+4 && fs[4] > fs[2] {
			viol("open files pile up: %s", what)
		}
		if ts[4] > ts[1]+12 && ts[4] > ts[3] && ts[3] > ts[2] && ts[2] > ts[1] {
			viol("threads pile up: %s", what)
		}
		if ms[2]-ms[1] > 300 && ms[3]-ms[2] > 300 && ms[4]-ms[3] > 300 && ms[4]-ms[1] > 1500 {
			viol("memory piles up: %s", what)
		}
	}
	count("requests_to_the_daemon", 5*6*550**num)
	eval("daemon")
	sample("%s", what)
	finish("resources", u, d)
}
