// e2e runs the built daemon against a simulated unit, over TCP or a pseudo
// terminal, in real time.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"

	"hash/fnv"

	"verif/ref"
	"verif/sim"
)

var (
	daemonPath = flag.String("daemon", "", "daemon binary")
	workload   = flag.String("w", "", "c18 or c20")
	seed       = flag.Int64("seed", 1, "PRNG value")
	num        = flag.Int("n", 20, "cases")
	out        = flag.String("out", "/dev/stdout", "result file")
	arg        = flag.String("arg", "", "scenario")
	driver     = flag.String("driver", "", "drive.py")
	repo       = flag.String("repo", "/repo", "repository")
	thorough   = flag.Bool("thorough", false, "")
)

// res is what was observed.
type res struct {
	mu           sync.Mutex
	Violations   []string
	NViol        int
	Evals        int
	shapes       map[uint64]struct{}
	Distinct     []uint64
	Samples      []string
	Counters     map[string]int
	Inconclusive string
}

var R = &res{shapes: map[uint64]struct{}{}, Counters: map[string]int{}}

func viol(f string, a ...any) {
	R.mu.Lock()
	defer R.mu.Unlock()
	R.NViol++
	if len(R.Violations) < 8 {
		R.Violations = append(R.Violations, fmt.Sprintf(f, a...))
	}
}

func eval(shape string) {
	R.mu.Lock()
	defer R.mu.Unlock()
	R.Evals++
	h := fnv.New64a()
	io.WriteString(h, shape)
	R.shapes[h.Sum64()] = struct{}{}
}

func count(k string, n int) { R.mu.Lock(); R.Counters[k] += n; R.mu.Unlock() }

func sample(f string, a ...any) {
	R.mu.Lock()
	defer R.mu.Unlock()
	if len(R.Samples) < 6 {
		R.Samples = append(R.Samples, fmt.Sprintf(f, a...))
	}
}

func inconclusive(f string, a ...any) {
	R.mu.Lock()
	R.Inconclusive = fmt.Sprintf(f, a...)
	R.mu.Unlock()
}

func main() {
	flag.Parse()
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	r := rand.New(rand.NewSource(*seed))
	switch *workload {
	case "c07":
		c07(r)
	case "c22":
		c22(r)
	case "c15d":
		c15d(r)
	case "c18":
		c18(r)
	case "c19":
		c19(r)
	case "c20":
		c20(r)
	default:
		fmt.Fprintln(os.Stderr, "unknown workload")
		os.Exit(3)
	}
	R.mu.Lock()
	for k := range R.shapes {
		R.Distinct = append(R.Distinct, k)
	}
	b, err := json.Marshal(R)
	if err == nil {
		err = os.WriteFile(*out, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Exit(0)
}

// host is a loopback address of this process, and ports are handed out.
var (
	portMu sync.Mutex
	port   = 21000
)

func host() string {
	p := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", 2+p/62500%200, 1+p/250%250, 1+p%250)
}

func addr() string {
	portMu.Lock()
	defer portMu.Unlock()
	for {
		port++
		a := fmt.Sprintf("%s:%d", host(), port)
		// No child may inherit the socket: it would keep the port busy.
		syscall.ForkLock.RLock()
		l, err := net.Listen("tcp", a)
		if err == nil {
			l.Close()
		}
		syscall.ForkLock.RUnlock()
		if err == nil {
			return a
		}
	}
}

// unit is a simulated unit reachable over TCP or a pseudo terminal.
type unit struct {
	*sim.Unit
	l        *sim.Line
	target   string
	mode     string
	master   *os.File
	slave    *os.File
	listener net.Listener
	mu       sync.Mutex
	conns    int
	open     []net.Conn
}

func newUnit(mode string) *unit { return newUnitAt(mode, host()) }

func newUnitAt(mode, at string) *unit {
	l := sim.NewLine()
	u := &unit{Unit: sim.NewUnit(l), l: l, mode: mode}
	if mode == "tcp" {
		ln, err := net.Listen("tcp", net.JoinHostPort(at, "0"))
		if err != nil {
			inconclusive("cannot listen: %v", err)
			return nil
		}
		u.listener, u.target = ln, ln.Addr().String()
		go func() {
			for {
				c, err := ln.Accept()
				if err != nil {
					return
				}
				u.mu.Lock()
				u.conns++
				u.open = append(u.open, c)
				u.mu.Unlock()
				go u.bridge(c)
			}
		}()
		return u
	}
	m, s, name, err := openPty()
	if err != nil {
		inconclusive("no pseudo terminal: %v", err)
		return nil
	}
	u.master, u.slave, u.target = m, s, name
	go u.bridge(m)
	return u
}

func (u *unit) bridge(c io.ReadWriter) {
	go func() {
		b := make([]byte, 4096)
		for {
			n, err := u.l.Read(b)
			if err != nil {
				return
			}
			if _, err := c.Write(b[:n]); err != nil {
				return
			}
		}
	}()
	b := make([]byte, 4096)
	for {
		n, err := c.Read(b)
		if n > 0 {
			u.l.Write(b[:n])
		}
		if err != nil {
			return
		}
	}
}

func (u *unit) connected() int { u.mu.Lock(); defer u.mu.Unlock(); return u.conns }

// hangup is the unit gone: the connection is closed or the line hung up.
func (u *unit) hangup() {
	u.mu.Lock()
	defer u.mu.Unlock()
	for _, c := range u.open {
		c.Close()
	}
	if u.master != nil {
		u.master.Close()
	}
}

func (u *unit) close() {
	if u.listener != nil {
		u.listener.Close()
	}
	if u.master != nil {
		u.master.Close()
		u.slave.Close()
	}
}

// daemon is a running daemon.
type daemon struct {
	cmd    *exec.Cmd
	outMu  sync.Mutex
	outBuf bytes.Buffer
	exited chan struct{}
	state  *os.ProcessState
	listen string
	what   string
}

type lockedWriter struct{ d *daemon }

func (w lockedWriter) Write(p []byte) (int, error) {
	w.d.outMu.Lock()
	defer w.d.outMu.Unlock()
	if w.d.outBuf.Len() > 1<<20 {
		return len(p), nil
	}
	return w.d.outBuf.Write(p)
}

func (d *daemon) output() string { d.outMu.Lock(); defer d.outMu.Unlock(); return d.outBuf.String() }

func startDaemon(listen string, env []string, args ...string) *daemon {
	return startTraced(nil, listen, env, args...)
}

// startTraced starts the daemon under another program.
func startTraced(tracer []string, listen string, env []string, args ...string) *daemon {
	d := &daemon{exited: make(chan struct{}), listen: listen, what: fmt.Sprintf("comfo %s (env %s)", strings.Join(args, " "), strings.Join(env, " "))}
	argv := append(append(tracer, *daemonPath), args...)
	d.cmd = exec.Command(argv[0], argv[1:]...)
	d.cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=/nonexistent"}, env...)
	if g := os.Getenv("GORACE"); g != "" {
		d.cmd.Env = append(d.cmd.Env, "GORACE="+g)
	}
	d.cmd.Stdout, d.cmd.Stderr = lockedWriter{d}, lockedWriter{d}
	d.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := d.cmd.Start(); err != nil {
		inconclusive("cannot start the daemon: %v", err)
		close(d.exited)
		return d
	}
	go func() { d.cmd.Wait(); d.state = d.cmd.ProcessState; close(d.exited) }()
	return d
}

func (d *daemon) alive() bool {
	select {
	case <-d.exited:
		return false
	default:
		return true
	}
}

func (d *daemon) stop() {
	if d.cmd.Process != nil {
		d.cmd.Process.Kill()
	}
	<-d.exited
}

// up waits until the daemon serves on its listen address.
func (d *daemon) up(t time.Duration) bool { return d.upAt(d.listen, t) }

func (d *daemon) upAt(a string, t time.Duration) bool {
	end := time.Now().Add(t)
	for time.Now().Before(end) && d.alive() {
		code, _, _, err := rawHTTP(a, "POST", "/twirp/comfo.api.Comfo/GetErrors", "application/json", []byte("{}"), 5*time.Second)
		if err == nil && code == 200 {
			return true
		}
		time.Sleep(50 * time.Millisecond)
	}
	return false
}

var client = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 32}, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}

func rawHTTP(a, method, path, ctype string, body []byte, timeout time.Duration) (int, http.Header, []byte, error) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	req, err := http.NewRequestWithContext(ctx, method, "http://"+a+path, bytes.NewReader(body))
	if err != nil {
		return 0, nil, nil, err
	}
	if ctype != "" {
		req.Header.Set("Content-Type", ctype)
	}
	resp, err := client.Do(req)
	if err != nil {
		return 0, nil, nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, resp.Header, b, err
}

// call performs an RPC over HTTP. A transport failure is Code "transport".
func (d *daemon) call(method string, jsonEnc bool, in ref.Val, timeout time.Duration) (ref.Val, *sim.RPCErr) {
	mi := ref.Schema[ref.Methods[method][0]]
	ct, body := "application/protobuf", []byte(nil)
	if jsonEnc {
		ct, body = "application/json", mi.EncodeJSON(in)
	} else {
		body = mi.EncodeProto(in)
	}
	code, hdr, b, err := rawHTTP(d.listen, "POST", "/twirp/comfo.api.Comfo/"+method, ct, body, timeout)
	if err != nil {
		return nil, &sim.RPCErr{HTTP: 0, Code: "transport", Msg: err.Error()}
	}
	return sim.DecodeResponse(method, jsonEnc, code, hdr, b)
}

func tail(s string) string {
	if len(s) > 600 {
		s = "..." + s[len(s)-600:]
	}
	return s
}
