// vt runs one monitored workload in one process and writes what it observed.
// It is meant to be built with -tags faketime (virtual time), except for the
// race and end-to-end workloads.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log/slog"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"sync"
	"time"

	"verif/ref"
	"verif/sim"
)

// Res is what a run observed. Safe for concurrent use.
type Res struct {
	mu           sync.Mutex
	Violations   []string
	NViol        int
	Evals        int
	Shapes       map[uint64]struct{} `json:"-"`
	Distinct     []uint64
	Samples      []string
	Counters     map[string]int
	Inconclusive string
}

func (r *Res) Viol(f string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.NViol++
	if len(r.Violations) < 8 {
		r.Violations = append(r.Violations, fmt.Sprintf(f, a...))
	}
}

// Eval counts an evaluation; shape identifies what it exercised ("" trivial).
func (r *Res) Eval(shape string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Evals++
	if shape != "" && len(r.Shapes) < 60000 {
		r.Shapes[hash(shape)] = struct{}{}
	}
}

func hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (r *Res) Sample(f string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.Samples) < 4 {
		r.Samples = append(r.Samples, fmt.Sprintf(f, a...))
	}
}

func (r *Res) Count(name string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Counters[name] += n
}

func (r *Res) Failed() bool { r.mu.Lock(); defer r.mu.Unlock(); return r.NViol >= 8 }

// Ctx is what a workload gets.
type Ctx struct {
	*Res
	Rnd  *rand.Rand
	Seed int64
	N    int
	Thor bool
	Arg  string

	shard, shards, turn int
}

// Skip tells that the next case of an enumeration is another process's.
func (c *Ctx) Skip() bool {
	c.turn++
	return c.turn%c.shards != c.shard || c.Failed()
}

var workloads = map[string]func(*Ctx){}

func main() {
	w := flag.String("w", "", "workload")
	seed := flag.Int64("seed", 1, "PRNG value")
	n := flag.Int("n", 100, "cases")
	out := flag.String("out", "/dev/stdout", "result file")
	thor := flag.Bool("thorough", false, "")
	arg := flag.String("arg", "", "workload argument")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	flag.Parse()
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	f, ok := workloads[*w]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown workload", *w)
		os.Exit(3)
	}
	c := &Ctx{&Res{Shapes: map[uint64]struct{}{}, Counters: map[string]int{}}, rand.New(rand.NewSource(*seed)), *seed, *n, *thor, *arg, *shard, *shards, 0}
	sim.RunawayAt += 1000 * *n
	sim.OnRunaway = func() {
		c.Viol("the unit got %d requests in one history: some call goes on without end", sim.RunawayAt)
		c.write(*out)
	}
	f(c)
	c.write(*out)
}

// write ends the process.
func (c *Ctx) write(out string) {
	c.mu.Lock()
	for k := range c.Shapes {
		c.Distinct = append(c.Distinct, k)
	}
	sort.Slice(c.Distinct, func(i, j int) bool { return c.Distinct[i] < c.Distinct[j] })
	b, err := json.Marshal(c.Res)
	if err == nil {
		err = os.WriteFile(out, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Exit(0)
}

// hostile payload bytes
var delims = []byte{ref.Esc, ref.Esc, ref.End, ref.Beg, ref.Ack}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	mode := r.Intn(4)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b[i] = delims[r.Intn(len(delims))]
		case 2:
			if r.Intn(3) == 0 {
				b[i] = delims[r.Intn(len(delims))]
			} else {
				b[i] = byte(r.Intn(256))
			}
		case 3:
			b[i] = []byte{0, 1, 2, 7, 127, 128, 254, 255}[r.Intn(8)]
		}
	}
	return b
}

// split cuts b into chunks.
func split(r *rand.Rand, b []byte, mode int) (out [][]byte) {
	switch mode {
	case 0:
		return [][]byte{b}
	case 1:
		for i := range b {
			out = append(out, b[i:i+1])
		}
		return
	case 2: // after every escape byte
		s := 0
		for i := range b {
			if b[i] == ref.Esc {
				out = append(out, b[s:i+1])
				s = i + 1
			}
		}
		return append(out, b[s:])
	default:
		for len(b) > 0 {
			n := 1 + r.Intn(len(b))
			if r.Intn(2) == 0 && n > 3 {
				n = 1 + r.Intn(3)
			}
			out = append(out, b[:n])
			b = b[n:]
		}
		return
	}
}

// wait polls cond in virtual time.
func wait(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for !cond() {
		if !time.Now().Before(end) {
			return false
		}
		time.Sleep(10 * time.Millisecond)
	}
	return true
}

func goroutines() int { return runtime.NumGoroutine() }
