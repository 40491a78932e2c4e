package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"verif/ref"
	"verif/sim"
)

// pair is a daemon in tcp mode with its unit.
func pair(name string) (*unit, *daemon) { return pairMode(name, "tcp") }

func pairMode(name, mode string, env ...string) (*unit, *daemon) {
	u := newUnit(mode)
	if u == nil {
		return nil, nil
	}
	a := addr()
	d := startDaemon(a, env, "--mode", mode, "--target", u.target, "--listen", a)
	if !d.up(20 * time.Second) {
		viol("%s: the daemon (%s) does not serve on %s; output: %s", name, d.what, a, tail(d.output()))
		d.stop()
		u.close()
		return nil, nil
	}
	return u, d
}

func finish(name string, u *unit, d *daemon) {
	if !d.alive() {
		viol("%s: the daemon ended (%v); output: %s", name, d.state, tail(d.output()))
	}
	u.Lock(func() {
		for _, v := range u.Viols {
			viol("%s: %s", name, v)
		}
	})
	d.stop()
	u.close()
}

func c18(r *rand.Rand) {
	var wg sync.WaitGroup
	run := func(name string, f func(*rand.Rand)) {
		if *arg != "" && *arg != name {
			return
		}
		s := r.Int63()
		wg.Add(1)
		go func() { defer wg.Done(); f(rand.New(rand.NewSource(s))) }()
	}
	run("contract", c18contract)
	run("codes", c18codes)
	run("slow", c18slow)
	run("malformed", c18malformed)
	run("ways", c18ways)
	run("left", c18left)
	wg.Wait()
}

// randomState gives the unit a random, decodable state.
func randomState(r *rand.Rand, u *sim.Unit) {
	rb := func(n int) []byte {
		b := make([]byte, n)
		r.Read(b)
		return b
	}
	f := rb(6)
	f[2], f[4] = f[2]|1, f[4]|1 // speeds that fit
	t := rb(9)
	name := func() []byte {
		s := []string{"CA350 luxe", "x", "", "caf\xc3\xa9 \"q\"", "<&\\/>", "\xe2\x82\xac\x00\x01a", "a\tb\nc", "0123456789"}[r.Intn(8)]
		b := append([]byte(s), bytes.Repeat([]byte{' '}, 10)...)
		return b[:10]
	}
	set := map[byte][]byte{
		ref.GetFans: f, ref.GetTemps: t, ref.GetProfiles: rb(14), ref.GetBypass: rb(7), ref.GetErrors: rb(17),
		ref.GetBootloader: append(rb(3), name()...),
	}
	set[ref.GetErrors][8] = byte(r.Intn(2))
	set[ref.GetBypass][6] = byte(r.Intn(2))
	set[ref.GetProfiles][9] = byte(r.Intn(2))
	u.Lock(func() {
		for k, v := range set {
			u.SetStateL(k, v)
		}
	})
}

func c18contract(r *rand.Rand) {
	u, d := pair("contract")
	if d == nil {
		return
	}
	for i := 0; i < *num; i++ {
		randomState(r, u.Unit)
		v, err := d.call("FlushCache", r.Intn(2) == 0, ref.Val{"Cache": uint64(10)}, 20*time.Second)
		if err != nil || v["Success"] != true {
			viol("FlushCache(All) with a healthy unit: %v, %v", v, err)
			break
		}
		if s, _ := v["ReqTime"].(string); s == "" {
			viol("FlushCache answers without ReqTime: %v", v)
		}
		for _, k := range sim.APIKinds {
			p := u.State(k)
			var got [2]ref.Val
			for e := 0; e < 2; e++ {
				v, err := d.call(sim.GetMethod[k], e == 0, nil, 20*time.Second)
				got[e] = v
				if err != nil {
					viol("%s (json %v) fails: %v; reading % x", sim.GetMethod[k], e == 0, err, p)
				} else if !sim.Matches(k, v, p) {
					w, _ := ref.Decode(k, p)
					viol("%s (json %v) returns %v, the unit's reading % x means %v", sim.GetMethod[k], e == 0, v, p, w)
				}
				count("gets_compared", 1)
			}
			if got[0] != nil && got[1] != nil && !ref.Equal(got[0], got[1]) {
				viol("%s: JSON says %v, protobuf says %v", sim.GetMethod[k], got[0], got[1])
			}
			eval(fmt.Sprintf("%x %x", k, p))
		}
	}
	finish("contract", u, d)
}

// c18codes checks sets and error codes in both encodings.
func c18codes(r *rand.Rand) {
	u, d := pair("codes")
	if d == nil {
		return
	}
	calm := []byte{15, 35, 50, 16, 36, 51, 35, 36, 2, 1, 70, 71, 0, 0}
	silent, deaf, idle := false, false, false
	u.Lock(func() {
		u.Planner = func(q sim.Req, h []byte) sim.Plan {
			if silent && !sim.IsGet(q.Cmd) || deaf && sim.IsGet(q.Cmd) {
				return sim.Plan{Note: "silent"}
			}
			return sim.Plan{Steps: []sim.Step{{B: h}}, Healthy: true, NoApply: idle}
		}
	})
	type tc struct {
		method string
		in     ref.Val
		code   string // expected error
		out    ref.Val
		mode   byte // of the fans before
	}
	n := func(i int) uint64 { return uint64(i) }
	cases := []tc{
		{"SetFanSpeed", ref.Val{"Abs": n(3)}, "", ref.Val{"Modified": true, "OriginalSpeed": n(2), "TargetSpeed": n(3)}, 0},
		{"SetFanSpeed", ref.Val{"Rel": true}, "", ref.Val{"Modified": true, "OriginalSpeed": n(2), "TargetSpeed": n(3)}, 0},
		{"SetFanSpeed", ref.Val{"Rel": false}, "", ref.Val{"Modified": true, "OriginalSpeed": n(2), "TargetSpeed": n(1)}, 0},
		{"SetFanSpeed", ref.Val{"Abs": n(2)}, "", ref.Val{"Modified": false, "OriginalSpeed": n(2), "TargetSpeed": n(2)}, 0},
		{"SetFanSpeed", ref.Val{"Abs": n(5)}, "invalid_argument", nil, 0},
		{"SetFanSpeed", ref.Val{"Abs": n(1<<32 - 1)}, "invalid_argument", nil, 0},
		{"SetFanSpeed", ref.Val{"Abs": n(258)}, "invalid_argument", nil, 0},
		{"SetFanSpeed", ref.Val{"Abs": n(2), "Rel": true}, "invalid_argument", nil, 0},
		{"SetComfortTemp", ref.Val{"ComfortTemp": n(22)}, "", ref.Val{"Modified": true, "OriginalTemp": n(20), "TargetTemp": n(22)}, 0},
		{"SetComfortTemp", ref.Val{"ComfortTemp": n(20)}, "", ref.Val{"Modified": false, "OriginalTemp": n(20), "TargetTemp": n(20)}, 0},
		{"SetComfortTemp", ref.Val{"ComfortTemp": n(256 + 22)}, "invalid_argument", nil, 0},
		{"SetComfortTemp", ref.Val{"ComfortTemp": n(150)}, "any", nil, 0},
		{"SetFanProfile", ref.Val{"Mode": n(2), "TargetSpeed": n(40)}, "", ref.Val{"Modified": true, "OriginalSpeed": n(36), "TargetSpeed": n(40)}, 0},
		{"SetFanProfile", ref.Val{"Mode": n(4), "TargetSpeed": n(100)}, "", ref.Val{"Modified": true, "OriginalSpeed": n(71), "TargetSpeed": n(100)}, 0},
		{"SetFanProfile", ref.Val{"Mode": n(0), "TargetSpeed": n(40)}, "invalid_argument", nil, 0},
		{"SetFanProfile", ref.Val{"Mode": n(5), "TargetSpeed": n(40)}, "invalid_argument", nil, 0},
		{"SetFanProfile", ref.Val{"Mode": n(257), "TargetSpeed": n(40)}, "invalid_argument", nil, 0},
		{"SetFanProfile", ref.Val{"Mode": n(1), "TargetSpeed": n(14)}, "invalid_argument", nil, 0},
		{"SetFanProfile", ref.Val{"Mode": n(1), "TargetSpeed": n(101)}, "invalid_argument", nil, 0},
		{"SetFanProfile", ref.Val{"Mode": n(1), "TargetSpeed": n(256 + 50)}, "invalid_argument", nil, 0},
		{"SetFanSpeed", ref.Val{"Rel": true}, "invalid_argument", nil, 4},
		{"SetFanSpeed", ref.Val{"Rel": false}, "invalid_argument", nil, 1},
		{"SetFanSpeed", ref.Val{}, "invalid_argument", nil, 1},
		{"SetFanSpeed", ref.Val{"Rel": true}, "", ref.Val{"Modified": true, "OriginalSpeed": n(3), "TargetSpeed": n(4)}, 3},
		{"FlushCache", ref.Val{"Cache": n(2)}, "", ref.Val{"Success": true}, 0},
		{"FlushCache", ref.Val{"Cache": n(9)}, "", ref.Val{"Success": false}, 0},
		{"SetFanSpeed", ref.Val{"Abs": n(4)}, "internal", nil, 0},
		{"SetComfortTemp", ref.Val{"ComfortTemp": n(25)}, "internal", nil, 0},
		{"SetFanProfile", ref.Val{"Mode": n(3), "TargetSpeed": n(60)}, "internal", nil, 0},
	}
	// The same with a unit that obeys but does not tell its state.
	mute := len(cases)
	cases = append(cases, cases[mute-3:]...)
	// The same with a unit that acknowledges and does nothing.
	lazy := len(cases)
	cases = append(cases, cases[mute-3:mute]...)
	var jobs []int
	for i := range cases {
		jobs = append(jobs, i, i)
	}
	for i, ci := range jobs {
		t := cases[ci]
		jsonEnc := i%2 == 0
		u.Lock(func() {
			p := append([]byte(nil), calm...)
			if t.mode != 0 {
				p[8] = t.mode
			}
			u.SetStateL(ref.GetProfiles, p)
			u.SetStateL(ref.GetTemps, []byte{80, 60, 75, 82, 62, 0x0F, 50, 51, 52})
			silent, deaf, idle = t.code == "internal" && ci < mute, ci >= mute && ci < lazy, ci >= lazy
		})
		n0 := u.Count()
		v, err := d.call(t.method, jsonEnc, t.in, 30*time.Second)
		time.Sleep(20 * time.Millisecond)
		cmds := sim.SetCmds(u.Since(n0))
		what := fmt.Sprintf("%s%v (json %v) gives %v, %v", t.method, t.in, jsonEnc, v, err)
		switch {
		case t.code == "":
			if err != nil {
				viol("%s", what)
				break
			}
			for k, x := range t.out {
				if v[k] != x {
					viol("%s; %s should be %v", what, k, x)
				}
			}
			if s, _ := v["ReqTime"].(string); s == "" {
				viol("%s; no ReqTime", what)
			}
		case err == nil:
			viol("%s; expected an error (%s)", what, t.code)
		case t.code != "any" && (err.Code != t.code || err.HTTP != map[string]int{"internal": 500, "invalid_argument": 400}[t.code]):
			viol("%s; expected %s", what, t.code)
		case t.code == "any" && (err.HTTP < 400 || err.Code == "transport" || err.Code == "contract"):
			viol("%s; expected an error answer", what)
		}
		if t.code != "" && t.code != "internal" && len(cmds) > 0 {
			viol("%s; yet %d commands were sent", what, len(cmds))
		}
		eval(fmt.Sprint(t.method, t.in, jsonEnc))
		count("set_and_error_cases", 1)
	}
	finish("codes", u, d)
}

// c18slow: requests that take long still get their answer.
func c18slow(r *rand.Rand) {
	u, d := pair("slow")
	if d == nil {
		return
	}
	delay := time.Duration(700+r.Intn(150)) * time.Millisecond
	u.Lock(func() {
		u.Ramp = 9 * time.Second
		u.Planner = func(q sim.Req, h []byte) sim.Plan {
			return sim.Plan{Steps: []sim.Step{{D: delay, B: h}}, Healthy: true}
		}
	})
	// Three queue up, so the last one waits for the others.
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		jsonEnc := r.Intn(2) == 0
		wg.Add(1)
		go func() {
			defer wg.Done()
			in := ref.Val{"Abs": []uint64{3, 4, 1}[i]}
			t0 := time.Now()
			v, err := d.call("SetFanSpeed", jsonEnc, in, 3*time.Minute)
			took := time.Since(t0)
			if err != nil && (err.Code == "transport" || err.Code == "contract") || err == nil && v["TargetSpeed"] != in["Abs"] {
				viol("SetFanSpeed%v (json %v), with a unit that takes %v per answer and 9 s to adjust its fans, gives %v, %v after %v", in, jsonEnc, delay, v, err, took.Round(time.Millisecond))
			}
			eval(fmt.Sprint("slow ", in, jsonEnc, delay))
			sample("unit answers in %v: SetFanSpeed%v -> %v, %v after %v", delay, in, v, err, took.Round(time.Millisecond))
			count("slow_answers", 1)
			R.mu.Lock()
			R.Counters["slowest_answer_s"] = max(R.Counters["slowest_answer_s"], int(took.Seconds()))
			R.mu.Unlock()
		}()
	}
	// A body that takes a while to arrive, and gets meanwhile.
	for i := 0; i < 5; i++ {
		time.Sleep(500 * time.Millisecond)
		if _, err := d.call("GetBypass", i%2 == 0, nil, 20*time.Second); err != nil {
			viol("GetBypass during slow requests: %v", err)
		}
	}
	// Readings can be had meanwhile.
	stop := make(chan struct{})
	var gets sync.WaitGroup
	for g := 0; g < 2; g++ {
		gr := rand.New(rand.NewSource(r.Int63()))
		gets.Add(1)
		go func() {
			defer gets.Done()
			for {
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(gr.Intn(1000)) * time.Millisecond):
				}
				m, jsonEnc := sim.GetMethod[sim.APIKinds[gr.Intn(6)]], gr.Intn(2) == 0
				t0 := time.Now()
				_, err := d.call(m, jsonEnc, nil, 3*time.Minute)
				if took := time.Since(t0); err != nil || took > 10*time.Second {
					viol("%s (json %v), called while SetFanSpeed waits for the unit, gives error %v after %v", m, jsonEnc, err, took.Round(time.Millisecond))
				}
				count("gets_during_slow_changes", 1)
			}
		}()
	}
	wg.Wait()
	close(stop)
	gets.Wait()
	finish("slow", u, d)
}

func c18malformed(r *rand.Rand) {
	u, d := pair("malformed")
	if d == nil {
		return
	}
	base := "/twirp/comfo.api.Comfo/"
	sets := []string{"SetFanSpeed", "SetComfortTemp", "SetFanProfile", "FlushCache"}
	any := append([]string(nil), ref.MethodNm...)
	field := map[string]string{"SetFanSpeed": "Abs", "SetComfortTemp": "ComfortTemp", "SetFanProfile": "Mode", "FlushCache": "Cache"}
	type bad struct {
		what, method, path, ctype string
		body                      []byte
	}
	gen := func() bad {
		m := sets[r.Intn(len(sets))]
		j, p := "application/json", "application/protobuf"
		good := []byte(fmt.Sprintf(`{"%s": 3, "TargetSpeed": 30}`, field[m]))
		switch r.Intn(14) {
		case 0:
			b := []byte([]string{"{", "}", "", "[]", "3", `"x"`, "{\"" + field[m] + "\":}", "{,}", "\x00", "nul", "[", "\"Abs\"", "\xff\xfe"}[r.Intn(13)])
			return bad{"broken JSON", "POST", base + m, j, b}
		case 1:
			return bad{"truncated JSON", "POST", base + m, j, good[:1+r.Intn(len(good)-1)]}
		case 2:
			v := []string{`"abc"`, "-1", "4294967296", "1.5", "true", "[1]", "{}", "1e99", `""`}[r.Intn(9)]
			if m == "FlushCache" {
				v = []string{"2147483648", "-2147483649", "1.5", "true", "[1]", "{}", "1e99"}[r.Intn(7)]
			}
			return bad{"JSON value of another type or range", "POST", base + m, j, []byte(`{"` + field[m] + `": ` + v + "}")}
		case 3:
			v := []string{"1", `"true"`, "0", "[]"}[r.Intn(4)]
			return bad{"JSON value of another type", "POST", base + "SetFanSpeed", j, []byte(`{"Rel": ` + v + "}")}
		case 4:
			b := []byte{0x08}
			if r.Intn(2) == 0 {
				b = append(b, bytes.Repeat([]byte{0xFF}, 1+r.Intn(9))...)
			}
			return bad{"truncated protobuf", "POST", base + m, p, b}
		case 5:
			b := append([]byte{0x08}, bytes.Repeat([]byte{0xFF}, 10+r.Intn(5))...)
			return bad{"protobuf varint too long", "POST", base + m, p, append(b, 1)}
		case 6:
			b := binary.AppendUvarint([]byte{0x7A}, uint64(1000+r.Intn(1<<30)))
			return bad{"protobuf length beyond the body", "POST", base + m, p, append(b, 1, 2, 3)}
		case 7:
			return bad{"protobuf field number 0", "POST", base + m, p, []byte{0x00, 0x01}}
		case 8:
			return bad{"protobuf wire type 7", "POST", base + m, p, []byte{0x0F, 0x01}}
		case 9:
			mm := []string{"GET", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS"}[r.Intn(6)]
			return bad{"other HTTP method", mm, base + m, j, good}
		case 10:
			mm := []string{"SetFanSpeeds", "setFanSpeed", "GetHours", "", "x", "SetFanSpeed/", "SetFanSpeed/x", "%53etFanSpeedX"}[r.Intn(8)]
			return bad{"unknown method", "POST", base + mm, j, good}
		case 11:
			pp := []string{"/", "/twirp", "/twirp/", "/twirp/comfo.api.Comfo", "/twirp/comfo.api/SetFanSpeed", "/comfo.api.Comfo/SetFanSpeed", "/twirp/x.Comfo/SetFanSpeed", "/favicon.ico"}[r.Intn(8)]
			return bad{"unknown path", "POST", pp, j, good}
		case 12:
			ct := []string{"", "text/plain", "application/xml", "application/x-www-form-urlencoded", "multipart/form-data", "json", ";"}[r.Intn(7)]
			return bad{"other content type", "POST", base + m, ct, good}
		default:
			return bad{"JSON sent as protobuf", "POST", base + m, p, []byte(strings.Repeat("{", 1+r.Intn(5)) + "\"a")}
		}
	}
	for i := 0; i < *num*10; i++ {
		b := gen()
		n0 := u.Count()
		code, _, body, err := rawHTTP(d.listen, b.method, b.path, b.ctype, b.body, 20*time.Second)
		cmds := sim.SetCmds(u.Since(n0))
		what := fmt.Sprintf("%s: %s %s, content type %q, body %q gives status %d %q, %v", b.what, b.method, b.path, b.ctype, b.body, code, tail(string(body)), err)
		if err != nil {
			viol("%s", what)
		} else if code < 300 {
			viol("%s; expected an error", what)
		}
		if len(cmds) > 0 {
			viol("%s; and a command was sent to the unit: %02x % x", what, cmds[0].Cmd, cmds[0].Data)
		}
		count("refused: "+b.what, 1)
		eval(what)
		if i == 5 {
			sample("%s", what)
		}
	}
	// Random bytes: whatever the answer, the daemon lives, and an error answer
	// about the request means that nothing was changed.
	for i := 0; i < *num*10; i++ {
		m := any[r.Intn(len(any))]
		b := make([]byte, r.Intn(40))
		r.Read(b)
		ct := []string{"application/json", "application/protobuf"}[r.Intn(2)]
		n0 := u.Count()
		code, _, body, err := rawHTTP(d.listen, "POST", base+m, ct, b, 60*time.Second)
		if err != nil {
			viol("%s with %s body % x: %v", m, ct, b, err)
		}
		if code == 400 || code == 404 {
			if cmds := sim.SetCmds(u.Since(n0)); len(cmds) > 0 {
				viol("%s with %s body % x answers %d %s, yet a command was sent: %02x % x", m, ct, b, code, body, cmds[0].Cmd, cmds[0].Data)
			}
		}
		count(fmt.Sprintf("random_body_status_%d", code), 1)
	}
	// Variants that are fine.
	for _, ct := range []string{"application/json", "application/json; charset=utf-8", "Application/JSON"} {
		code, _, body, err := rawHTTP(d.listen, "POST", base+"SetComfortTemp", ct, []byte(`{"ComfortTemp": 23, "Unknown": 1}`), 20*time.Second)
		if err != nil || code != 200 {
			viol("SetComfortTemp with content type %q: %d %s %v", ct, code, body, err)
		}
	}
	if v, err := d.call("SetComfortTemp", true, ref.Val{"ComfortTemp": uint64(31)}, 20*time.Second); err != nil || v["Modified"] != true || u.State(ref.GetTemps)[0] != 102 {
		viol("after the malformed requests SetComfortTemp gives %v, %v", v, err)
	}
	finish("malformed", u, d)
}

// bulky is a valid JSON or protobuf body for in with things that a server has
// to skip.
func bulky(r *rand.Rand, method string, jsonEnc bool, in ref.Val) []byte {
	mi := ref.Schema[ref.Methods[method][0]]
	fill := 1 << uint(r.Intn(16))
	if !jsonEnc {
		b := mi.EncodeProto(in)
		switch r.Intn(3) {
		case 0:
			b = append(binary.AppendUvarint(binary.AppendUvarint(nil, 100<<3|2), uint64(fill)), append(make([]byte, fill), b...)...)
		case 1:
			b = binary.AppendUvarint(binary.AppendUvarint(b, 77<<3), 1<<60)
		}
		return b
	}
	b := mi.EncodeJSON(in)
	switch r.Intn(4) {
	case 0:
		b = append(bytes.Repeat([]byte(" \n\t\r"), fill/4), b...)
	case 1:
		extra := fmt.Sprintf(`{"Other": "%s", "More": [1, {"Abs": 1}, null, 1e3]`, strings.Repeat("x", fill))
		if len(in) > 0 {
			extra += ","
		}
		b = append([]byte(extra), bytes.TrimSpace(b)[1:]...)
	case 2:
		b = append(b, "\n \n"...)
	}
	return b
}

// wire renders a request; headers in any case and order.
func wire(r *rand.Rand, a, method string, jsonEnc bool, body []byte, last bool) (b []byte, how string) {
	ver := "1.1"
	if last && r.Intn(4) == 0 {
		ver = "1.0"
	}
	chunked := ver == "1.1" && r.Intn(2) == 0
	ct := "application/protobuf"
	if jsonEnc {
		ct = "application/json"
	}
	hs := []string{"Host: " + a, "Content-Type: " + ct}
	if chunked {
		hs = append(hs, "Transfer-Encoding: chunked")
	} else {
		hs = append(hs, fmt.Sprintf("Content-Length: %d", len(body)))
	}
	if last && ver == "1.1" && r.Intn(2) == 0 {
		hs = append(hs, "Connection: close")
	}
	for _, h := range []string{"Accept: */*", "User-Agent: x/1.0 (a; b)", "Accept-Encoding: gzip, br", "Cookie: a=b; c=d", "Twirp-Version: v8.0.0", "X-Forwarded-For: 10.1.2.3", "Authorization: Basic eDp5", "Origin: http://x.example", "X-Long: " + strings.Repeat("y", 3000), "X-Longer: " + strings.Repeat("z", 20000+r.Intn(100000))} {
		if r.Intn(3) == 0 {
			hs = append(hs, h)
		}
	}
	r.Shuffle(len(hs), func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
	for i, h := range hs {
		if k := strings.IndexByte(h, ':'); r.Intn(3) == 0 {
			hs[i] = strings.ToLower(h[:k]) + h[k:]
		}
	}
	b = []byte("POST /twirp/comfo.api.Comfo/" + method + " HTTP/" + ver + "\r\n" + strings.Join(hs, "\r\n") + "\r\n\r\n")
	if !chunked {
		return append(b, body...), "HTTP/" + ver
	}
	for len(body) > 0 {
		n := 1 + r.Intn(len(body))
		b = append(append(append(b, fmt.Sprintf("%x\r\n", n)...), body[:n]...), "\r\n"...)
		body = body[n:]
	}
	return append(b, "0\r\n\r\n"...), "HTTP/1.1, chunked"
}

// c18ways: the same requests, delivered in all the ways HTTP has: in chunks, in
// pieces with pauses, one after the other or all at once on one connection,
// with other headers, and with content to be skipped.
func c18ways(r *rand.Rand) {
	u, d := pair("ways")
	if d == nil {
		return
	}
	randomState(r, u.Unit)
	u.Lock(func() {
		u.SetStateL(ref.GetProfiles, []byte{16, 36, 51, 16, 36, 51, 36, 36, 2, 1, 71, 71, 0, 0})
		u.SetStateL(ref.GetTemps, []byte{80, 60, 75, 82, 62, 0x0F, 50, 51, 52})
		u.SetStateL(ref.GetFans, []byte{36, 36, 4, 0, 4, 0})
	})
	if v, err := d.call("FlushCache", true, ref.Val{"Cache": uint64(10)}, 20*time.Second); err != nil || v["Success"] != true {
		viol("ways: FlushCache(All) with a healthy unit: %v, %v", v, err)
	}
	comfort, speed, unsure := uint64(20), uint64(2), false
	profile := [5]uint64{0, 16, 36, 51, 71}
	flushes := map[uint64]int{}
	for i := 0; i < *num*2 && !unsure; i++ {
		conn, err := net.DialTimeout("tcp", d.listen, 10*time.Second)
		if err != nil {
			viol("ways: cannot connect: %v", err)
			break
		}
		slow := i%12 == 0 // a pause that is long, but not too long for the daemon
		conn.SetDeadline(time.Now().Add(90 * time.Second))
		rd := bufio.NewReader(conn)
		n := 1 + r.Intn(5)
		type req struct {
			method  string
			jsonEnc bool
			in      ref.Val
			kind    byte
			out     ref.Val // of a set method
			how     string
		}
		var pend []req
		var out []byte
		closed := false
		// flush writes what is there in pieces, and reads the answers.
		flush := func() {
			what := func(q req) string {
				return fmt.Sprintf("%s%v (json %v, %s, %d requests on the connection, %d at once)", q.method, q.in, q.jsonEnc, q.how, n, len(pend))
			}
			written := make(chan struct{})
			began := time.Now() // a client this slow may be cut off, see ReadTimeout
			late := func() bool { return time.Since(began) > 4*time.Second }
			go func(out []byte, s int64) {
				defer close(written)
				r := rand.New(rand.NewSource(s))
				for pause := slow; len(out) > 0; {
					k := len(out)
					if r.Intn(2) == 0 || pause {
						k = 1 + r.Intn(k)
					}
					conn.Write(out[:k])
					if out = out[k:]; pause && len(out) > 0 {
						time.Sleep(1500 * time.Millisecond)
						pause = false
					} else if r.Intn(3) == 0 {
						time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
					}
				}
			}(out, r.Int63())
			for _, q := range pend {
				if closed {
					viol("%s: the connection was closed before the answer", what(q))
					break
				}
				resp, err := http.ReadResponse(rd, &http.Request{Method: "POST"})
				if err != nil && late() {
					count("not_judged_too_slow", 1)
					closed, unsure = true, true
					break
				}
				if err != nil {
					viol("%s: no answer: %v", what(q), err)
					closed = true
					break
				}
				b, err := io.ReadAll(resp.Body)
				if err != nil {
					viol("%s: the answer breaks off: %v", what(q), err)
				}
				closed = resp.Close
				v, e := sim.DecodeResponse(q.method, q.jsonEnc, resp.StatusCode, resp.Header, b)
				switch {
				case e != nil:
					viol("%s fails: %v", what(q), e)
				case q.kind != 0:
					fixed := q.kind == ref.GetBootloader || q.kind == ref.GetBypass || q.kind == ref.GetErrors
					if p := u.State(q.kind); fixed && !sim.Matches(q.kind, v, p) {
						viol("%s returns %v, reading % x", what(q), v, p)
					}
				case q.method == "FlushCache":
					if v["Success"] != true {
						viol("%s returns %v", what(q), v)
					}
				default:
					for k, x := range q.out {
						if v[k] != x {
							viol("%s returns %v; expected %v", what(q), v, q.out)
							break
						}
					}
				}
				eval(fmt.Sprint("ways ", q.method, q.in, q.jsonEnc, q.how, n, len(pend)))
				count("delivered: "+q.how, 1)
				if len(pend) > 1 {
					count("delivered_several_at_once", 1)
				}
			}
			pend, out = nil, nil
			<-written // an answer may come before the end of a JSON body
		}
		for j := 0; j < n && !closed; j++ {
			q := req{jsonEnc: r.Intn(2) == 0}
			switch x := r.Intn(10); {
			case x < 6:
				q.kind = sim.APIKinds[r.Intn(len(sim.APIKinds))]
				q.method, q.in = sim.GetMethod[q.kind], ref.Val{}
			case x < 7:
				f := []uint64{0, 1, 3, 4}[r.Intn(4)]
				q.method, q.in = "FlushCache", ref.Val{"Cache": f}
				flushes[f]++
			default:
				t := uint64(15 + r.Intn(12))
				switch r.Intn(3) {
				case 0:
					q.method, q.in = "SetComfortTemp", ref.Val{"ComfortTemp": t}
					q.out = ref.Val{"Modified": t != comfort, "OriginalTemp": comfort, "TargetTemp": t}
					comfort = t
				case 1:
					m := 1 + r.Intn(4)
					q.method, q.in = "SetFanProfile", ref.Val{"Mode": uint64(m), "TargetSpeed": t}
					q.out = ref.Val{"Modified": t != profile[m], "OriginalSpeed": profile[m], "TargetSpeed": t}
					profile[m] = t
				default:
					t = uint64(1 + r.Intn(4))
					q.method, q.in = "SetFanSpeed", ref.Val{"Abs": t}
					q.out = ref.Val{"Modified": t != speed, "OriginalSpeed": speed, "TargetSpeed": t}
					speed = t
				}
			}
			var b []byte
			b, q.how = wire(r, d.listen, q.method, q.jsonEnc, bulky(r, q.method, q.jsonEnc, q.in), j == n-1)
			out = append(out, b...)
			if pend = append(pend, q); j == n-1 || r.Intn(2) == 0 {
				flush()
			}
		}
		if slow {
			count("with_a_long_pause", 1)
		}
		conn.Close()
	}
	asked := map[byte]int{}
	for _, e := range u.Since(0) {
		asked[e.Cmd]++
	}
	for f, n := range flushes {
		if asked[flushKind[f]] < n && !unsure {
			viol("ways: FlushCache(%d) was called %d times, the unit was asked %d times", f, n, asked[flushKind[f]])
		}
	}
	if t := u.State(ref.GetTemps)[0]; uint64(t) != (comfort+20)*2 && !unsure {
		viol("ways: the unit's comfort temperature is byte %d, the last one set %d degrees", t, comfort)
	}
	finish("ways", u, d)
}

// c18left: clients that go away, before their request is complete or before
// they have the answer, or that hold connections without saying anything.
func c18left(r *rand.Rand) {
	u, d := pair("left")
	if d == nil {
		return
	}
	u.Lock(func() {
		u.SetStateL(ref.GetTemps, []byte{80, 60, 75, 82, 62, 0x0F, 50, 51, 52})
		u.Planner = func(q sim.Req, h []byte) sim.Plan {
			return sim.Plan{Steps: []sim.Step{{D: 20 * time.Millisecond, B: h}}, Healthy: true}
		}
	})
	var held []net.Conn
	defer func() {
		for _, c := range held {
			c.Close()
		}
	}()
	comfort := uint64(20)
	maybe := comfort // a call whose client left may have set this
	for i := 0; i < *num*3; i++ {
		conn, err := net.DialTimeout("tcp", d.listen, 10*time.Second)
		if err != nil {
			viol("left: cannot connect: %v", err)
			break
		}
		jsonEnc := r.Intn(2) == 0
		mode := r.Intn(3)
		want := uint64(10 + (i%2)*40 + r.Intn(5))
		method, in := "SetComfortTemp", ref.Val{"ComfortTemp": want}
		if r.Intn(4) == 0 && mode > 0 {
			method, in, want = "FlushCache", ref.Val{"Cache": uint64(r.Intn(5))}, 0
		}
		mi := ref.Schema[ref.Methods[method][0]]
		body := mi.EncodeProto(in)
		if jsonEnc {
			body = mi.EncodeJSON(in)
		}
		b, how := wire(r, d.listen, method, jsonEnc, body, false)
		n0 := u.Count()
		switch mode {
		case 0: // incomplete: at least the end of the value is missing
			cut := len(b) - len(body) // in the head, or before the body
			if how != "HTTP/1.1" {
				cut = bytes.Index(b, []byte("\r\n\r\n")) + 4
			}
			conn.Write(b[:r.Intn(cut+1)])
			if r.Intn(3) == 0 && len(held) < 200 {
				held = append(held, conn)
				conn = nil
				count("connections_held", 1)
			} else if r.Intn(2) == 0 {
				conn.(*net.TCPConn).CloseWrite()
				conn.SetReadDeadline(time.Now().Add(time.Duration(r.Intn(50)) * time.Millisecond))
				io.Copy(io.Discard, conn)
			}
			count("left_before_the_end_of_the_request", 1)
		case 1: // gone at once or after a while
			conn.Write(b)
			time.Sleep(time.Duration(r.Intn(150)) * time.Millisecond)
			count("left_before_the_answer", 1)
		case 2: // the client does not read what it gets
			conn.Write(b)
			if r.Intn(2) == 0 && len(held) < 200 {
				held = append(held, conn)
				conn = nil
			}
			time.Sleep(time.Duration(r.Intn(150)) * time.Millisecond)
			count("left_without_reading", 1)
		}
		if conn != nil {
			if r.Intn(2) == 0 {
				conn.(*net.TCPConn).SetLinger(0)
			}
			conn.Close()
		}
		if mode == 0 {
			time.Sleep(20 * time.Millisecond)
			if cmds := sim.SetCmds(u.Since(n0)); len(cmds) > 0 {
				viol("left: an incomplete request (%q) sent a command to the unit: %02x % x", b, cmds[0].Cmd, cmds[0].Data)
			}
		} else if want != 0 {
			maybe = want
		}
		if r.Intn(3) == 0 || mode > 0 {
			t := uint64(10 + (i%2)*40 + 10 + r.Intn(10))
			v, e := d.call("SetComfortTemp", r.Intn(2) == 0, ref.Val{"ComfortTemp": t}, 30*time.Second)
			if e != nil {
				viol("left: after a client went away (%d), SetComfortTemp(%d) fails: %v", mode, t, e)
				break
			}
			if o := v["OriginalTemp"]; o != comfort && o != maybe {
				viol("left: SetComfortTemp(%d) returns %v, the temperature before was %d or %d", t, v, comfort, maybe)
			}
			comfort, maybe = t, t
			// What the absent client asked for may come later still.
			if mode > 0 && want != 0 {
				maybe = want
				time.Sleep(300 * time.Millisecond)
				now := uint64(u.State(ref.GetTemps)[0])/2 - 20
				if now != t && now != want {
					viol("left: the unit holds %d degrees, calls asked for %d and %d", now, t, want)
				}
				comfort, maybe = now, now
			}
			if v, e := d.call("FlushCache", r.Intn(2) == 0, ref.Val{"Cache": uint64(r.Intn(5))}, 30*time.Second); e != nil || v["Success"] != true {
				viol("left: after a client went away (%d), FlushCache gives %v, %v", mode, v, e)
				break
			}
			eval(fmt.Sprint("left ", mode, method, how, jsonEnc, want, t))
		}
	}
	finish("left", u, d)
}
