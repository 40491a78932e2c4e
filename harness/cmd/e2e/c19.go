package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/ref"
	"verif/sim"
)

// python runs calls of the Python client.
type python struct {
	in  io.WriteCloser
	out *bufio.Reader
	cmd *exec.Cmd
}

type pyCall struct {
	M   string         `json:"m"`
	A   []any          `json:"a,omitempty"`
	K   map[string]any `json:"k,omitempty"`
	How string         `json:"how"`
	// calls made together
	Calls []pyCall `json:"calls,omitempty"`
}

type pyOut struct {
	OK *struct {
		T string `json:"t"`
		V any    `json:"v"`
	} `json:"ok"`
	Twirp string  `json:"twirp"`
	Exc   string  `json:"exc"`
	Other string  `json:"other"`
	List  []pyOut `json:"list,omitempty"`
	// the generated server's table
	Server *struct {
		Prefix string              `json:"prefix"`
		RPCs   map[string][]string `json:"rpcs"`
	} `json:"server,omitempty"`
}

func (o pyOut) String() string {
	b, _ := json.Marshal(o)
	return string(b)
}

func (c pyCall) String() string {
	b, _ := json.Marshal(c)
	return string(b)
}

var hows = []string{"sync", "async", "asyncloop", "asyncbare", "gather", "kept", "asynckept", "free"}

func startPython(h string) *python {
	c := exec.Command("python3", "-B", *driver, *repo, h)
	c.Env = append(os.Environ(), "PYTHONDONTWRITEBYTECODE=1")
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err1 := c.StdinPipe()
	out, err2 := c.StdoutPipe()
	errOut, err3 := os.CreateTemp("", "py")
	if err1 != nil || err2 != nil || err3 != nil {
		inconclusive("pipe: %v %v %v", err1, err2, err3)
		return nil
	}
	defer os.Remove(errOut.Name())
	c.Stderr = errOut
	if err := c.Start(); err != nil {
		inconclusive("python3: %v", err)
		return nil
	}
	p := &python{in, bufio.NewReader(out), c}
	b, err := p.out.ReadBytes('\n')
	if err != nil {
		c.Wait()
		e, _ := os.ReadFile(errOut.Name())
		viol("the Python client cannot be imported: %v: %s", err, tail(string(e)))
		return nil
	}
	if got, want := strings.TrimSpace(string(b)), `{"speeds": [1, 2, 3, 4]}`; got != want {
		viol("the SPEED_ constants OFF, LOW, MEDIUM, HIGH are %s, want %s", got, want)
	}
	return p
}

func (p *python) do(c pyCall) (o pyOut) {
	b, _ := json.Marshal(c)
	if _, err := p.in.Write(append(b, '\n')); err != nil {
		inconclusive("python: %v", err)
		return
	}
	l, err := p.out.ReadBytes('\n')
	if err == nil {
		err = json.Unmarshal(l, &o)
	}
	if err != nil {
		inconclusive("python: %s: %v", l, err)
	}
	count("calls", 1)
	return
}

func (p *python) close() { p.in.Close(); p.cmd.Wait() }

// stub is a server that records requests and answers as told.
type stub struct {
	mu   sync.Mutex
	reqs []string
	resp ref.Val
	code string // Twirp error
	raw  bool   // error that is no Twirp error
	// echo: the answer depends on the request, and takes up to this
	echo time.Duration
	slow time.Duration // at least
}

var twirpStatus = map[string]int{
	"canceled": 408, "unknown": 500, "invalid_argument": 400, "deadline_exceeded": 408, "not_found": 404, "bad_route": 404,
	"already_exists": 409, "permission_denied": 403, "unauthenticated": 401, "resource_exhausted": 429, "failed_precondition": 412,
	"aborted": 409, "out_of_range": 400, "unimplemented": 501, "internal": 500, "unavailable": 503, "data_loss": 500, "malformed": 400,
}

func (s *stub) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	b, _ := io.ReadAll(r.Body)
	s.mu.Lock()
	defer s.mu.Unlock()
	m := strings.TrimPrefix(r.URL.Path, "/twirp/comfo.api.Comfo/")
	io_, ok := ref.Methods[m]
	if r.Method != "POST" || !ok || r.URL.RawQuery != "" {
		s.reqs = append(s.reqs, fmt.Sprintf("%s %s", r.Method, r.URL))
		w.WriteHeader(404)
		return
	}
	v, err := ref.Schema[io_[0]].DecodeProto(b)
	if err == nil && s.echo > 0 {
		s.reqs = append(s.reqs, reqString(m, v))
		d := s.slow + time.Duration(rand.Int63n(int64(s.echo)))
		s.mu.Unlock()
		time.Sleep(d)
		s.mu.Lock()
		resp, code := echoOf(m, v)
		if code != "" {
			w.Header().Set("Content-Type", "application/json")
			w.WriteHeader(twirpStatus[code])
			fmt.Fprintf(w, `{"code":%q,"msg":"told so"}`, code)
			return
		}
		w.Header().Set("Content-Type", "application/protobuf")
		w.Write(ref.Schema[io_[1]].EncodeProto(resp))
		return
	}
	if err != nil {
		s.reqs = append(s.reqs, fmt.Sprintf("%s with body %q: %v", m, b, err))
	} else {
		s.reqs = append(s.reqs, reqString(m, v))
	}
	if s.raw {
		w.WriteHeader(502)
		io.WriteString(w, "<html>bad gateway</html>")
		return
	}
	if s.code != "" {
		w.Header().Set("Content-Type", "application/json")
		w.WriteHeader(twirpStatus[s.code])
		fmt.Fprintf(w, `{"code":%q,"msg":"told so"}`, s.code)
		return
	}
	w.Header().Set("Content-Type", "application/protobuf")
	w.Write(ref.Schema[io_[1]].EncodeProto(s.resp))
}

// echoOf is the answer to a request in echo mode.
func echoOf(m string, v ref.Val) (ref.Val, string) {
	n := uint64(0)
	for k, x := range v {
		if y, ok := x.(uint64); ok && k != "Mode" {
			n += y
		}
	}
	if v["Rel"] == true {
		n = 1
	}
	if n%5 == 4 {
		return nil, "unavailable"
	}
	out := ref.Schema[ref.Methods[m][1]].Zero()
	for k, x := range out {
		switch x.(type) {
		case bool:
			out[k] = n%2 == 1
		case uint64:
			out[k] = n + uint64(len(m))
		case float64:
			out[k] = float64(len(m))
		case string:
			out[k] = m
		}
	}
	return out, ""
}

func reqString(m string, v ref.Val) string { return fmt.Sprint(m, " ", map[string]any(v)) }

func (s *stub) tell(resp ref.Val, code string, raw bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.reqs, s.resp, s.code, s.raw, s.echo, s.slow = nil, resp, code, raw, 0, 0
}

func (s *stub) seen() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.reqs...)
}

func randU32(r *rand.Rand) uint64 {
	switch r.Intn(4) {
	case 0:
		return []uint64{0, 1, 127, 128, 255, 256, 65535, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32}[r.Intn(10)]
	case 1:
		return uint64(r.Uint32())
	default:
		return uint64(r.Intn(256))
	}
}

func randMsg(r *rand.Rand, m ref.Message) ref.Val {
	v := m.Zero()
	for _, f := range m {
		switch f.Kind {
		case ref.U32:
			v[f.Name] = randU32(r)
		case ref.Bool:
			v[f.Name] = r.Intn(2) == 0
		case ref.F32:
			v[f.Name] = float64(float32(r.Intn(511)-40) / 2)
		case ref.Str:
			v[f.Name] = []string{"", "CA350 luxe", "café \u2603", "a\"b\\c\n", strings.Repeat("x", 300)}[r.Intn(5)]
		}
	}
	return v
}

// the documented fields of what each get returns
var pyGets = map[string]string{
	"get_bootinfo": "GetBootInfo", "get_bypass": "GetBypass", "get_temps": "GetTemps", "get_fans": "GetFans",
	"get_fan_profiles": "GetFanProfiles", "get_errors": "GetErrors",
}

var pyGetNames = []string{"get_bootinfo", "get_bypass", "get_temps", "get_fans", "get_fan_profiles", "get_errors"}

func sameFields(v any, want ref.Val) bool {
	got, ok := v.(map[string]any)
	if !ok {
		return false
	}
	for k, w := range want {
		g, ok := got[k]
		if n, isN := w.(uint64); isN {
			w = float64(n)
		}
		if !ok || !reflect.DeepEqual(g, w) {
			return false
		}
	}
	return true
}

func c19(r *rand.Rand) {
	if *arg == "" || *arg == "stub" {
		c19stub(r)
	}
	if *arg == "" || *arg == "live" {
		c19live(r)
	}
}

func c19stub(r *rand.Rand) {
	h := host()
	ln, err := net.Listen("tcp", h+":3094")
	if err != nil {
		inconclusive("%v", err)
		return
	}
	defer ln.Close()
	s := &stub{}
	go http.Serve(ln, s)
	p := startPython(h)
	if p == nil {
		return
	}
	defer p.close()
	codes := []string{}
	for c := range twirpStatus {
		codes = append(codes, c)
	}
	sortStrings(codes)
	times := func(how string) int {
		if how == "gather" {
			return 3
		}
		return 1
	}
	// expect runs a call that is to send one request with given arguments.
	expect := func(c pyCall, method string, in ref.Val, resp ref.Val, code string, raw bool, judge func(pyOut) string) {
		s.tell(resp, code, raw)
		o := p.do(c)
		if R.Inconclusive != "" {
			return
		}
		want := reqString(method, in)
		got := s.seen()
		n := times(c.How)
		bad := len(got) != n
		for _, g := range got {
			bad = bad || g != want
		}
		if bad {
			viol("%v sends %q, should send %q (%d times)", c, got, want, n)
		}
		if e := judge(o); e != "" {
			viol("%v, answered with %v (error %q), gives %v: %s", c, resp, code, o, e)
		}
		eval(fmt.Sprint(c, resp, code, raw))
	}
	refused := func(c pyCall, exc string) {
		s.tell(ref.Val{"Modified": true, "Success": true}, "", false)
		o := p.do(c)
		if R.Inconclusive != "" {
			return
		}
		if o.Exc != exc {
			viol("%v gives %v, should raise %s", c, o, exc)
		}
		if got := s.seen(); len(got) > 0 {
			viol("%v sends %q, should not contact the server", c, got)
		}
		eval(fmt.Sprint(c))
		count("refusals", 1)
	}
	raised := func(code string) func(pyOut) string {
		return func(o pyOut) string {
			if o.Twirp != code {
				return "should raise the server's error " + code
			}
			return ""
		}
	}
	isBool := func(b bool) func(pyOut) string {
		return func(o pyOut) string {
			if o.OK == nil || o.OK.V != b {
				return fmt.Sprintf("should return %v", b)
			}
			return ""
		}
	}
	how := func() string { return hows[r.Intn(len(hows))] }

	// Gets: every field under its name, whatever the value.
	get := func(m, hw string) {
		msg := ref.Schema[ref.Methods[pyGets[m]][1]]
		v := randMsg(r, msg)
		c := pyCall{M: m, How: hw}
		expect(c, pyGets[m], ref.Val{}, v, "", false, func(o pyOut) string {
			if o.OK == nil || o.OK.T != ref.Methods[pyGets[m]][1] || !sameFields(o.OK.V, v) {
				return "should return every field of the answer"
			}
			return ""
		})
		count("gets", 1)
	}
	for _, m := range pyGetNames {
		for _, hw := range hows {
			get(m, hw)
		}
		for _, code := range codes {
			expect(pyCall{M: m, How: how()}, pyGets[m], ref.Val{}, nil, code, false, raised(code))
		}
		expect(pyCall{M: m, How: how()}, pyGets[m], ref.Val{}, nil, "", true, raised("unknown"))
	}
	for _, hw := range hows {
		expect(pyCall{M: "ping", How: hw}, "GetBootInfo", ref.Val{}, randMsg(r, ref.Schema["BootInfo"]), "", false, isBool(true))
	}
	for _, code := range codes {
		expect(pyCall{M: "ping", How: how()}, "GetBootInfo", ref.Val{}, nil, code, false, raised(code))
	}

	// Changes: exactly the caller's arguments, refused outside the range.
	mod := func() (ref.Val, bool) {
		b := r.Intn(2) == 0
		v := randMsg(r, ref.Schema["FanSpeedModified"])
		v["Modified"] = b
		return v, b
	}
	pyArgs := func(c pyCall, names []string, vals ...any) pyCall {
		switch r.Intn(3) {
		case 0:
			c.K = map[string]any{}
			for i, n := range names {
				c.K[n] = vals[i]
			}
		case 1:
			if len(names) == 2 {
				c.A, c.K = vals[:1], map[string]any{names[1]: vals[1]}
				return c
			}
			fallthrough
		default:
			c.A = vals
		}
		return c
	}
	speed := func(n int64, hw string) {
		c := pyArgs(pyCall{M: "set_fan_speed", How: hw}, []string{"speed"}, n)
		if n < 1 || n > 4 {
			refused(c, "InvalidFanSpeed")
			return
		}
		v, b := mod()
		expect(c, "SetFanSpeed", ref.Val{"Abs": uint64(n), "Rel": false}, v, "", false, isBool(b))
	}
	comfort := func(n int64, hw string) {
		c := pyArgs(pyCall{M: "set_comfort_temperature", How: hw}, []string{"temperature"}, n)
		if n < 0 || n > 255 {
			refused(c, "InvalidTemperature")
			return
		}
		_, b := mod()
		v := randMsg(r, ref.Schema["ComfortModified"])
		v["Modified"] = b
		expect(c, "SetComfortTemp", ref.Val{"ComfortTemp": uint64(n)}, v, "", false, isBool(b))
	}
	profile := func(m, n int64, hw string) {
		c := pyArgs(pyCall{M: "configure_fan_profile", How: hw}, []string{"profile", "percent"}, m, n)
		switch {
		case m < 1 || m > 4:
			if n < 15 || n > 100 {
				return // either exception
			}
			refused(c, "InvalidFanSpeed")
		case n < 15 || n > 100:
			refused(c, "InvalidDutyPercent")
		default:
			v, b := mod()
			expect(c, "SetFanProfile", ref.Val{"Mode": uint64(m), "TargetSpeed": uint64(n)}, v, "", false, isBool(b))
		}
	}
	hostile := []int64{-1 << 40, -256, -255, -4, -3, -2, -1, 0, 5, 6, 7, 14, 101, 255, 256, 257, 258, 259, 260, 271, 356, 512, 1 << 16, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 3, 1<<32 + 20, 1 << 40}
	for n := int64(0); n <= 5; n++ {
		for _, hw := range hows {
			speed(n, hw)
		}
	}
	for _, n := range hostile {
		speed(n, how())
		comfort(n, how())
		profile(1+int64(r.Intn(4)), n, how())
		profile(n, 15+int64(r.Intn(86)), how())
	}
	for _, a := range [][]any{{nil}, {}} {
		c := pyCall{M: "set_comfort_temperature", A: a, How: "sync"}
		refused(c, "InvalidTemperature")
	}
	for n := int64(-2); n <= 258; n++ {
		comfort(n, "sync")
		if n%16 == 0 {
			comfort(n, how())
		}
	}
	for m := int64(0); m <= 5; m++ {
		for n := int64(12); n <= 103; n++ {
			if n >= 19 && n <= 96 && r.Intn(8) > 0 {
				continue
			}
			profile(m, n, "sync")
			if r.Intn(6) == 0 {
				profile(m, n, how())
			}
		}
	}
	for _, st := range []struct {
		m   string
		rel bool
	}{{"increase_fan_speed", true}, {"decrease_fan_speed", false}} {
		in := ref.Val{"Abs": uint64(0), "Rel": st.rel}
		for _, hw := range hows {
			v, b := mod()
			expect(pyCall{M: st.m, How: hw}, "SetFanSpeed", in, v, "", false, isBool(b))
			v["Modified"] = !b
			expect(pyCall{M: st.m, How: hw}, "SetFanSpeed", in, v, "", false, isBool(!b))
			expect(pyCall{M: st.m, How: hw}, "SetFanSpeed", in, nil, "invalid_argument", false, isBool(false))
		}
		for _, code := range codes {
			if code != "invalid_argument" {
				expect(pyCall{M: st.m, How: how()}, "SetFanSpeed", in, nil, code, false, raised(code))
			}
		}
		expect(pyCall{M: st.m, How: how()}, "SetFanSpeed", in, nil, "", true, raised("unknown"))
	}
	for _, code := range codes {
		expect(pyCall{M: "set_fan_speed", A: []any{2}, How: how()}, "SetFanSpeed", ref.Val{"Abs": uint64(2), "Rel": false}, nil, code, false, raised(code))
		expect(pyCall{M: "set_comfort_temperature", A: []any{22}, How: how()}, "SetComfortTemp", ref.Val{"ComfortTemp": uint64(22)}, nil, code, false, raised(code))
		expect(pyCall{M: "configure_fan_profile", A: []any{3, 44}, How: how()}, "SetFanProfile", ref.Val{"Mode": uint64(3), "TargetSpeed": uint64(44)}, nil, code, false, raised(code))
	}
	// Different calls at the same time, each with its own arguments and answer.
	together := func() {
		c := pyCall{How: []string{"mixed", "threads"}[r.Intn(2)]}
		var want, reqs []string
		for n := 2 + r.Intn(8); n > 0; n-- {
			var k pyCall
			var m, typ string
			in := ref.Val{}
			switch r.Intn(6) {
			case 0:
				x := 1 + r.Intn(4)
				k, m, in = pyCall{M: "set_fan_speed", A: []any{x}}, "SetFanSpeed", ref.Val{"Abs": uint64(x), "Rel": false}
			case 1:
				x := r.Intn(256)
				k, m, in = pyCall{M: "set_comfort_temperature", A: []any{x}}, "SetComfortTemp", ref.Val{"ComfortTemp": uint64(x)}
			case 2:
				x, y := 1+r.Intn(4), 15+r.Intn(86)
				k, m, in = pyCall{M: "configure_fan_profile", A: []any{x, y}}, "SetFanProfile", ref.Val{"Mode": uint64(x), "TargetSpeed": uint64(y)}
			case 3:
				up := r.Intn(2) == 0
				k, m, in = pyCall{M: map[bool]string{true: "increase_fan_speed", false: "decrease_fan_speed"}[up], A: []any{}}, "SetFanSpeed", ref.Val{"Abs": uint64(0), "Rel": up}
			default:
				g := pyGetNames[r.Intn(len(pyGetNames))]
				k, m, typ = pyCall{M: g, A: []any{}}, pyGets[g], ref.Methods[pyGets[g]][1]
			}
			reqs = append(reqs, reqString(m, in))
			resp, code := echoOf(m, in)
			switch {
			case code != "":
				want = append(want, "error "+code)
			case typ != "":
				want = append(want, fmt.Sprint(typ, " ", len(m)))
			default:
				want = append(want, fmt.Sprint(resp["Modified"]))
			}
			c.Calls = append(c.Calls, k)
		}
		s.tell(nil, "", false)
		s.mu.Lock()
		s.echo = 10 * time.Millisecond
		s.mu.Unlock()
		o := p.do(c)
		if R.Inconclusive != "" {
			return
		}
		if len(o.List) != len(want) {
			viol("%v gives %v", c, o)
			return
		}
		for i, x := range o.List {
			got := x.String()
			switch {
			case x.Twirp != "":
				got = "error " + x.Twirp
			case x.OK == nil:
			default:
				got = fmt.Sprint(x.OK.V)
				if k := c.Calls[i].M; pyGets[k] != "" {
					m := pyGets[k]
					resp, _ := echoOf(m, nil)
					got = fmt.Sprint(x.OK.T, " ", len(m))
					if !sameFields(x.OK.V, resp) {
						got = x.String()
					}
				}
			}
			if got != want[i] {
				viol("call %d of those made at the same time, %v, gives %s, should give %s; all: %v", i, c.Calls[i], got, want[i], c)
			}
		}
		seen := s.seen()
		sortStrings(seen)
		sortStrings(reqs)
		if !reflect.DeepEqual(seen, reqs) {
			viol("the calls %v send %q, should send %q", c, seen, reqs)
		}
		eval(fmt.Sprint(c))
		count("calls_made_together", len(want))
	}
	for i := 0; i < *num/5 && R.Inconclusive == ""; i++ {
		together()
	}
	// A unit takes long to change its speed; the answer is awaited. All calls at once.
	slow := pyCall{How: "threads"}
	for _, m := range pyGetNames {
		slow.Calls = append(slow.Calls, pyCall{M: m, A: []any{}})
	}
	slow.Calls = append(slow.Calls, pyCall{M: "set_fan_speed", A: []any{3}}, pyCall{M: "increase_fan_speed", A: []any{}}, pyCall{M: "decrease_fan_speed", A: []any{}},
		pyCall{M: "set_comfort_temperature", A: []any{20}}, pyCall{M: "configure_fan_profile", A: []any{1, 20}}, pyCall{M: "ping", A: []any{}})
	s.tell(nil, "", false)
	s.mu.Lock()
	s.echo, s.slow = 1, 18*time.Second
	s.mu.Unlock()
	if o := p.do(slow); R.Inconclusive == "" {
		for i, x := range o.List {
			if x.OK == nil {
				viol("%v, answered after %v, gives %v", slow.Calls[i], s.slow, x)
			}
		}
		if len(o.List) != len(slow.Calls) {
			viol("slow calls give %v", o)
		}
		count("slow_calls", len(o.List))
		eval("slow")
	}
	// The generated server class.
	if o := p.do(pyCall{How: "server"}); R.Inconclusive == "" {
		want := map[string][]string{}
		for m, t := range ref.Methods {
			want[m] = []string{"Comfo", m, m, "comfo.api." + t[0], "comfo.api." + t[1]}
		}
		if o.Server == nil || o.Server.Prefix != "/twirp/comfo.api.Comfo" || !reflect.DeepEqual(o.Server.RPCs, want) {
			viol("the generated Python server maps the RPCs to %v, should be %v", o, want)
		}
		eval("server")
	}
	for i := 0; i < *num && R.Inconclusive == ""; i++ {
		switch r.Intn(6) {
		case 0:
			speed(int64(r.Intn(8))-1, how())
		case 1:
			comfort(int64(r.Intn(300))-20, how())
		case 2:
			profile(int64(r.Intn(7))-1, int64(r.Intn(120)), how())
		case 3:
			speed(int64(r.Uint32())*(1-2*int64(r.Intn(2))), how())
		default:
			get(pyGetNames[r.Intn(len(pyGetNames))], how())
		}
	}
	sample("increase_fan_speed answered with invalid_argument returns False; configure_fan_profile(3, 44) sends SetFanProfile{Mode:3 TargetSpeed:44}")
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// c19live drives the real daemon through the Python client.
func c19live(r *rand.Rand) {
	u := newUnit("tcp")
	if u == nil {
		return
	}
	defer u.close()
	randomState(r, u.Unit)
	u.Lock(func() {
		p := u.StateL(ref.GetProfiles)
		p[8] = 2
		u.SetStateL(ref.GetProfiles, p)
	})
	h := host()
	a := h + ":3094"
	d := startDaemon(a, nil, "--mode", "tcp", "--target", u.target, "--listen", a)
	defer d.stop()
	if !d.up(40 * time.Second) {
		viol("%s: does not serve: %s", d.what, tail(d.output()))
		return
	}
	p := startPython(h)
	if p == nil {
		return
	}
	defer p.close()
	mode := func() int { return int(u.State(ref.GetProfiles)[8]) }
	single := []string{"sync", "async", "asyncloop", "asyncbare", "kept", "asynckept"}
	how := func() string { return single[r.Intn(len(single))] }
	fields := func() {
		for m, g := range pyGets {
			k := byte(0)
			for kk, gg := range sim.GetMethod {
				if gg == g {
					k = kk
				}
			}
			if k == ref.GetFans {
				continue // the background refresh may be between two states
			}
			c := pyCall{M: m, How: how()}
			o := p.do(c)
			if R.Inconclusive != "" {
				return
			}
			want, _ := ref.Decode(k, u.State(k))
			if o.OK == nil || !sameFields(o.OK.V, want) {
				viol("%v gives %v, the unit has % x (%v)", c, o, u.State(k), want)
			}
			eval(fmt.Sprint("live ", c, want))
			count("live_gets", 1)
		}
	}
	flush := func() bool {
		v, err := d.call("FlushCache", true, ref.Val{"Cache": uint64(10)}, 40*time.Second)
		if err != nil || v["Success"] != true {
			viol("FlushCache(All) gives %v, %v", v, err)
			return false
		}
		return true
	}
	if !flush() {
		return
	}
	fields()
	for i := 0; i < 12; i++ {
		before := mode()
		var c pyCall
		want, ret := before, false
		switch k := r.Intn(5); k {
		case 0, 1:
			c.M, want = "increase_fan_speed", min(4, before+1)
			if before == 4 {
				want = 4
			}
		case 2, 3:
			c.M, want = "decrease_fan_speed", max(1, before-1)
		case 4:
			want = 1 + r.Intn(4)
			c.M, c.A = "set_fan_speed", []any{want}
		}
		ret = want != before
		c.How = how()
		o := p.do(c)
		if R.Inconclusive != "" {
			return
		}
		if o.OK == nil || o.OK.V != ret || mode() != want {
			viol("%v in mode %d gives %v and leaves mode %d, should return %v and leave mode %d", c, before, o, mode(), ret, want)
		}
		eval(fmt.Sprint("live ", c, before))
		count("live_changes", 1)
	}
	for i := 0; i < 12; i++ {
		t := r.Intn(108)
		ret := int(u.State(ref.GetTemps)[0]) != 2*(t+20)
		c := pyCall{M: "set_comfort_temperature", A: []any{t}, How: how()}
		o := p.do(c)
		if R.Inconclusive != "" {
			return
		}
		if o.OK == nil || o.OK.V != ret || int(u.State(ref.GetTemps)[0]) != 2*(t+20) {
			viol("%v gives %v, should return %v; the unit's comfort byte is %d, should be %d", c, o, ret, u.State(ref.GetTemps)[0], 2*(t+20))
		}
		m, n := 1+r.Intn(4), 15+r.Intn(86)
		ix := [][2]int{{0, 3}, {1, 4}, {2, 5}, {10, 11}}[m-1]
		before := u.State(ref.GetProfiles)
		ret = int(before[ix[0]]) != n || int(before[ix[1]]) != n
		c = pyCall{M: "configure_fan_profile", A: []any{m, n}, How: how()}
		o = p.do(c)
		if R.Inconclusive != "" {
			return
		}
		after := u.State(ref.GetProfiles)
		if o.OK == nil || o.OK.V != ret || int(after[ix[0]]) != n || int(after[ix[1]]) != n {
			viol("%v gives %v, should return %v; profiles % x -> % x", c, o, ret, before, after)
		}
		eval(fmt.Sprint("live ", c, before))
		count("live_changes", 2)
	}
	fields()
}
