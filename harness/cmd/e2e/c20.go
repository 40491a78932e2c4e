package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/ref"
	"verif/sim"
)

func c20(r *rand.Rand) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	run := func(name string, n int, f func(*rand.Rand)) {
		if *arg != "" && *arg != name {
			return
		}
		for i := 0; i < n; i++ {
			s := r.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				f(rand.New(rand.NewSource(s)))
			}()
		}
	}
	run("serial", max(1, *num/8), func(r *rand.Rand) { c20session(r, "serial") })
	run("tcp", max(1, *num/8), func(r *rand.Rand) { c20session(r, "tcp") })
	run("config", *num, c20config)
	run("fail", *num, c20fail)
	run("default-listen", 1, c20default)
	run("wire", 1, c20wire)
	wg.Wait()
}

// setting is a configuration value given by flag, environment, both or neither.
type setting struct {
	name       string
	value      string // the effective one
	env, flags []string
}

// give makes value the effective one, decoy a value that must lose.
func give(r *rand.Rand, name, value, decoy string, isBool bool) (s setting) {
	s = setting{name: name, value: value}
	flag := func(v string) {
		if isBool && v == "true" && r.Intn(2) == 0 {
			s.flags = []string{"--" + name}
		} else if !isBool && r.Intn(2) == 0 {
			s.flags = []string{"--" + name, v}
		} else {
			s.flags = []string{"--" + name + "=" + v}
		}
	}
	env := func(v string) { s.env = []string{"COMFO_" + strings.ToUpper(name) + "=" + v} }
	switch r.Intn(3) {
	case 0:
		flag(value)
	case 1:
		env(value)
	case 2:
		flag(value)
		env(decoy)
	}
	return
}

func (s setting) String() string {
	return fmt.Sprintf("%s by flags %q and environment %q", s.name, s.flags, s.env)
}

// unset is an environment without the setting, or with an empty value of it.
func unset(r *rand.Rand, name string) []string {
	if r.Intn(2) == 0 {
		return nil
	}
	return []string{"COMFO_" + strings.ToUpper(name) + "="}
}

// somewhere is an address a unit can have and a way to write it.
func somewhere(r *rand.Rand) (at, as string) {
	switch r.Intn(3) {
	case 0:
		if l, err := net.Listen("tcp", "[::1]:0"); err == nil {
			l.Close()
			return "::1", "::1"
		}
	case 1:
		if a, err := net.LookupHost("localhost"); err == nil && len(a) > 0 && net.ParseIP(a[0]).IsLoopback() {
			return a[0], "localhost"
		}
	}
	return host(), host()
}

// c20config: the effective settings are the ones given, by precedence.
func c20config(r *rand.Rand) {
	mode := []string{"tcp", "serial"}[r.Intn(2)]
	at, as := somewhere(r)
	u := newUnitAt(mode, at)
	if u == nil {
		return
	}
	defer u.close()
	if mode == "tcp" {
		_, port, _ := net.SplitHostPort(u.target)
		u.target = net.JoinHostPort(as, port)
		count("units_at_"+strings.Split(as, ".")[0], 1)
	}
	other := map[string]string{"tcp": "serial", "serial": "tcp"}[mode]
	decoys := newUnit(other)
	if decoys == nil {
		return
	}
	defer decoys.close()
	listen, wrong := addr(), addr()
	var ss []setting
	if mode == "serial" && r.Intn(2) == 0 {
		ss = append(ss, setting{name: "mode", value: mode, env: unset(r, "mode")}) // the default
	} else {
		ss = append(ss, give(r, "mode", mode, []string{other, "nonsense", "TCP"}[r.Intn(3)], false))
	}
	decoyTarget := "/nonexistent/tty"
	if mode == "tcp" {
		decoyTarget = host() + ":1"
	}
	ss = append(ss, give(r, "target", u.target, decoyTarget, false), give(r, "listen", listen, wrong, false))
	debug := false
	switch r.Intn(4) {
	case 0:
		ss = append(ss, setting{name: "debug", value: "false", env: unset(r, "debug")})
	case 1:
		ss = append(ss, give(r, "debug", "false", "true", true))
	default:
		debug = true
		ss = append(ss, give(r, "debug", "true", "false", true))
	}
	var args, env []string
	desc := ""
	for _, s := range ss {
		args, env = append(args, s.flags...), append(env, s.env...)
		desc += s.String() + "; "
	}
	d := startDaemon(listen, env, args...)
	defer d.stop()
	if !d.up(20 * time.Second) {
		viol("%s: nothing serves on %s (running: %v); output: %s", d.what, listen, d.alive(), tail(d.output()))
		return
	}
	if u.Count() < 6 {
		viol("%s: serves, but has sent only %d requests to the unit at %s", d.what, u.Count(), u.target)
	}
	if n := decoys.Count(); n > 0 || mode == "serial" && decoys.connected() > 0 {
		viol("%s: talked to %s, which is not the target", d.what, decoys.target)
	}
	if c, err := net.DialTimeout("tcp", wrong, time.Second); err == nil {
		c.Close()
		viol("%s: listens on %s", d.what, wrong)
	}
	if v, err := d.call("GetFanProfiles", true, nil, 10*time.Second); err != nil || !sim.Matches(ref.GetProfiles, v, u.State(ref.GetProfiles)) {
		viol("%s: GetFanProfiles gives %v, %v, the unit has % d", d.what, v, err, u.State(ref.GetProfiles))
	}
	if got := strings.Contains(d.output(), "level=DEBUG"); got != debug {
		viol("%s: debug logging is %v", d.what, got)
	}
	if mode == "serial" {
		baud(u, d)
	}
	if !d.alive() {
		viol("%s: ended; output: %s", d.what, tail(d.output()))
	}
	eval("config " + strings.NewReplacer(u.target, "T", listen, "L", wrong, "W", decoyTarget, "D").Replace(desc))
	count("configurations", 1)
	sample("%s", d.what)
}

func baud(u *unit, d *daemon) {
	t, err := termios(u.slave)
	if err != nil {
		inconclusive("TCGETS: %v", err)
		return
	}
	if t.Cflag&0x100F != syscall.B9600 || t.Cflag&syscall.CSIZE != syscall.CS8 || t.Cflag&(syscall.PARENB|syscall.CSTOPB) != 0 {
		viol("%s: the terminal has control flags %#o, expected 9600 baud (%#o), 8 data bits, no parity, 1 stop bit", d.what, t.Cflag, syscall.B9600)
	}
	count("terminals_checked", 1)
}

var cflag = regexp.MustCompile(`ioctl\(\d+, (TCSETS[WF]?2?), \{.*c_cflag=([^,]*),`)

// c20wire: a pseudo terminal has neither parity nor data bits, so this looks at
// what the daemon asks of its line.
func c20wire(r *rand.Rand) {
	strace, err := exec.LookPath("strace")
	if err != nil {
		count("strace_missing", 1)
		return
	}
	u := newUnit("serial")
	if u == nil {
		return
	}
	defer u.close()
	dir, err := os.MkdirTemp("", "e2e")
	if err != nil {
		inconclusive("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	a := addr()
	d := startTraced([]string{strace, "-f", "-v", "-qq", "--kill-on-exit", "-e", "trace=ioctl", "-e", "signal=none", "-o", dir + "/log"}, a, nil, "--mode", "serial", "--target", u.target, "--listen", a)
	up := d.up(30 * time.Second)
	out := d.output()
	d.cmd.Process.Signal(syscall.SIGTERM)
	select {
	case <-d.exited:
	case <-time.After(5 * time.Second):
	}
	d.stop()
	if !up {
		// Not allowed to trace, or too slow.
		count("not_traced", 1)
		sample("not traced: %s", tail(out))
		return
	}
	log, _ := os.ReadFile(dir + "/log")
	all := cflag.FindAllStringSubmatch(string(log), -1)
	if len(all) == 0 {
		count("no_terminal_settings_traced", 1)
		return
	}
	last := all[len(all)-1][2]
	has := map[string]bool{}
	for _, f := range strings.Split(last, "|") {
		has[f] = true
	}
	if !has["B9600"] || !has["CS8"] || has["PARENB"] || has["CSTOPB"] || has["CRTSCTS"] {
		viol("%s: sets the terminal to %s, expected 9600 baud, 8 data bits, no parity, 1 stop bit", d.what, last)
	}
	count("terminal_settings_traced", len(all))
	eval("wire " + last)
	sample("%s sets its line to %s", d.what, last)
}

// c20fail: what cannot work ends the daemon promptly.
func c20fail(r *rand.Rand) {
	u := newUnit("tcp")
	if u == nil {
		return
	}
	defer u.close()
	listen := addr()
	busy, err := net.Listen("tcp", addr())
	if err != nil {
		inconclusive("listen: %v", err)
		return
	}
	defer busy.Close()
	dir, err := os.MkdirTemp("", "e2e")
	if err != nil {
		inconclusive("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	file := dir + "/plain"
	os.WriteFile(file, nil, 0o600)
	var args, env []string
	what, mention := "", ""
	needServe := false
	put := func(name, v string) {
		if r.Intn(2) == 0 {
			args = append(args, "--"+name+"="+v)
		} else {
			env = append(env, "COMFO_"+strings.ToUpper(name)+"="+v)
		}
	}
	switch k := r.Intn(9); k {
	case 0:
		m := []string{"udp", "Serial", "TCP", "rs232", "tcp ", "x"}[r.Intn(6)]
		what, mention = "unknown mode "+m, m
		put("mode", m)
		put("target", u.target)
	case 1:
		what = "nothing listens at the target"
		mention = addr()
		put("mode", "tcp")
		put("target", mention)
	case 2:
		what = "target is no address"
		mention = []string{"nonsense", "127.0.0.1", "127.0.0.1:99999", ":::"}[r.Intn(4)]
		put("mode", "tcp")
		put("target", mention)
	case 3:
		what = "serial device does not exist"
		mention = dir + "/tty"
		put("mode", "serial")
		put("target", mention)
	case 4:
		what = "target is no terminal"
		mention = []string{file, dir}[r.Intn(2)]
		put("mode", "serial")
		put("target", mention)
	case 5:
		what, needServe = "listen address in use", true
		listen = busy.Addr().String()
		put("mode", "tcp")
		put("target", u.target)
	case 6:
		what, needServe = "listen address unusable", true
		listen = []string{"127.0.0.1:99999", "203.0.113.77:3100", "nonsense", "127.0.0.1:http-x"}[r.Intn(4)]
		put("mode", "tcp")
		put("target", u.target)
	case 7:
		what, mention = "unknown flag", "unknown-flag"
		put("mode", "tcp")
		put("target", u.target)
		args = append(args, "--unknown-flag=1")
	case 8:
		if _, err := os.Stat("/dev/ttyUSB0"); err == nil {
			return
		}
		what, mention = "default target does not exist", "/dev/ttyUSB0"
		if r.Intn(2) == 0 {
			put("mode", "serial")
		}
		env = append(env, unset(r, "target")...)
	}
	put("listen", listen)
	t0 := time.Now()
	d := startDaemon(listen, env, args...)
	select {
	case <-d.exited:
	case <-time.After(25 * time.Second):
		viol("%s (%s): the daemon still runs after 25 s; output: %s", d.what, what, tail(d.output()))
		d.stop()
		return
	}
	if R.Inconclusive != "" {
		return
	}
	if c := d.state.ExitCode(); c <= 0 {
		viol("%s (%s): exit status %d (%v); output: %s", d.what, what, c, d.state, tail(d.output()))
	}
	o := d.output()
	if strings.Contains(o, "panic:") || strings.Contains(o, "goroutine ") {
		viol("%s (%s): crash: %s", d.what, what, tail(o))
	}
	// A message beyond the banner, naming the culprit.
	if !strings.Contains(strings.ToLower(o), "err") && !strings.Contains(o, "unknown") || !strings.Contains(o, mention) {
		viol("%s (%s): no error message that mentions %q: %s", d.what, what, mention, tail(o))
	}
	if needServe && u.Count() == 0 {
		count("ended_before_using_the_unit", 1)
	}
	if !needServe && u.Count() > 0 {
		viol("%s (%s): talked to the unit", d.what, what)
	}
	eval("fail " + what + strings.Join(args, " "))
	count("failed_starts", 1)
	if r.Intn(10) == 0 {
		sample("%s (%s) ends with status %d after %v", d.what, what, d.state.ExitCode(), time.Since(t0).Round(time.Millisecond))
	}
}

// gone: the connection to the unit ends. The last readings are still served, and
// what needs the unit fails.
func gone(r *rand.Rand, u *unit, d *daemon, name string) {
	what := []string{"SetFanSpeed", "SetComfortTemp", "SetFanProfile", "FlushCache"}
	u.hangup()
	time.Sleep(200 * time.Millisecond)
	for i := range what {
		in := []ref.Val{{"Abs": uint64(u.State(ref.GetProfiles)[8]%4 + 1)}, {"ComfortTemp": uint64(11)}, {"Mode": uint64(2), "TargetSpeed": uint64(33)}, {"Cache": uint64(10)}}[i]
		v, err := d.call(what[i], r.Intn(2) == 0, in, 2*time.Minute)
		switch {
		case what[i] == "FlushCache" && err == nil && v["Success"] == false:
		case what[i] != "FlushCache" && err != nil && err.Code == "internal":
		default:
			viol("%s: the unit is gone, and %s%v gives %v, %v", name, what[i], in, v, err)
		}
	}
	time.Sleep(time.Duration(r.Intn(2000)) * time.Millisecond)
	for _, k := range sim.APIKinds {
		if v, err := d.call(sim.GetMethod[k], r.Intn(2) == 0, nil, 30*time.Second); err != nil || !sim.Matches(k, v, u.State(k)) {
			viol("%s: the unit is gone, and %s gives %v, %v; the last reading is % x", name, sim.GetMethod[k], v, err, u.State(k))
		}
	}
	if !d.alive() {
		viol("%s: the daemon ended when the unit was gone: %s", name, tail(d.output()))
	}
	count("units_gone", 1)
}

// c20default: without a listen address it serves on port 3094 of every address.
func c20default(r *rand.Rand) {
	if l, err := net.Listen("tcp", "[::]:3094"); err != nil {
		count("default_port_busy", 1)
		return
	} else {
		l.Close()
		time.Sleep(100 * time.Millisecond) // until no child has it any more
	}
	u := newUnit("tcp")
	if u == nil {
		return
	}
	defer u.close()
	d := startDaemon("127.0.0.1:3094", unset(r, "listen"), "--mode", "tcp", "--target", u.target)
	defer d.stop()
	if !d.up(20 * time.Second) {
		viol("%s: nothing serves on 127.0.0.1:3094 (running: %v); output: %s", d.what, d.alive(), tail(d.output()))
		return
	}
	if !d.upAt(host()+":3094", 3*time.Second) {
		viol("%s: does not serve on %s:3094", d.what, host())
	}
	if l, err := net.Listen("tcp", "[::1]:0"); err == nil {
		l.Close()
		if !d.upAt("[::1]:3094", 3*time.Second) {
			viol("%s: does not serve on [::1]:3094", d.what)
		}
		count("ipv6", 1)
	}
	if strings.Contains(d.output(), "level=DEBUG") {
		viol("%s: debug logging is on by default", d.what)
	}
	eval("default listen")
}

// c20session: a longer session on one connection, with faults, hostile bytes
// and silence from start-up on.
func c20session(r *rand.Rand, mode string) {
	u := newUnit(mode)
	if u == nil {
		return
	}
	defer u.close()
	silent := r.Intn(2) == 0
	startSilent := silent
	faulty := 0
	u.Lock(func() {
		u.Planner = func(q sim.Req, h []byte) sim.Plan {
			if silent {
				return sim.Plan{Note: "silent"}
			}
			if faulty > 0 {
				faulty--
				switch r.Intn(4) {
				case 0:
					return sim.Plan{Note: "silent"}
				case 1:
					return sim.Plan{Steps: []sim.Step{{B: h[:r.Intn(len(h))]}}}
				case 2:
					b := make([]byte, 1+r.Intn(50))
					r.Read(b)
					return sim.Plan{Steps: []sim.Step{{B: b}}}
				default:
					return sim.Plan{Steps: []sim.Step{{D: 1200 * time.Millisecond, B: h}}}
				}
			}
			// In pieces, as a serial line delivers them.
			k := r.Intn(len(h))
			return sim.Plan{Steps: []sim.Step{{B: h[:k]}, {D: time.Duration(r.Intn(60)) * time.Millisecond, B: h[k:]}}, Healthy: true}
		}
	})
	name := fmt.Sprintf("%s session (unit silent at start: %v)", mode, startSilent)
	a := addr()
	d := startDaemon(a, nil, "--mode", mode, "--target", u.target, "--listen", a)
	defer d.stop()
	t0 := time.Now()
	if !d.up(40 * time.Second) {
		viol("%s: the daemon does not serve; output: %s", name, tail(d.output()))
		return
	}
	count("start_up_ms", int(time.Since(t0).Milliseconds()))
	if mode == "serial" {
		baud(u, d)
	}
	if startSilent {
		if v, err := d.call("FlushCache", true, ref.Val{"Cache": uint64(2)}, 40*time.Second); err != nil || v["Success"] != false {
			viol("%s: FlushCache(Temps) with a silent unit gives %v, %v", name, v, err)
		}
		if v, err := d.call("SetComfortTemp", true, ref.Val{"ComfortTemp": uint64(22)}, 40*time.Second); err == nil {
			viol("%s: SetComfortTemp with a silent unit gives %v", name, v)
		}
		u.Lock(func() { silent = false })
	}
	flush := func(why string) bool {
		// At most three queries may fail after a fault.
		for i := 0; ; i++ {
			v, err := d.call("FlushCache", i%2 == 0, ref.Val{"Cache": uint64(10)}, 40*time.Second)
			if err == nil && v["Success"] == true {
				return true
			}
			if i >= 4 || err != nil {
				viol("%s, %s: FlushCache(All) still gives %v, %v at attempt %d", name, why, v, err, i+1)
				return false
			}
			count("failed_flushes_after_faults", 1)
		}
	}
	if !flush("unit answers") {
		return
	}
	compare := func() {
		for _, k := range sim.APIKinds {
			if v, err := d.call(sim.GetMethod[k], r.Intn(2) == 0, nil, 10*time.Second); err != nil || !sim.Matches(k, v, u.State(k)) {
				viol("%s: %s gives %v, %v; the unit's reading is % x", name, sim.GetMethod[k], v, err, u.State(k))
			}
			count("gets_compared", 1)
		}
	}
	compare()
	for round := 0; round < 6; round++ {
		// Every byte value comes through in both directions.
		randomState(r, u.Unit)
		u.Lock(func() {
			p := u.StateL(ref.GetProfiles)
			p[8] = byte(1 + r.Intn(4))
			// Percentages with terminal control characters, sent back to the unit.
			for _, j := range []int{0, 1, 2, 3, 4, 5, 10, 11} {
				p[j] = []byte{3, 4, 7, 10, 13, 17, 19, 21, 26, 28, 0xFF, 0x7F, 0, 0x0F, 0xF0, 0xF3, byte(r.Intn(256))}[r.Intn(17)]
			}
			u.SetStateL(ref.GetProfiles, p)
		})
		if !flush("random state") {
			return
		}
		compare()
		m := uint64(1 + r.Intn(4))
		t := uint64([]int{17, 19, 21, 26, 28, 15, 100, 50}[r.Intn(8)])
		before := u.State(ref.GetProfiles)
		v, err := d.call("SetFanProfile", r.Intn(2) == 0, ref.Val{"Mode": m, "TargetSpeed": t}, 40*time.Second)
		after := u.State(ref.GetProfiles)
		want := append([]byte(nil), before...)
		k := [][2]int{{0, 3}, {1, 4}, {2, 5}, {10, 11}}[m-1]
		want[k[0]], want[k[1]] = byte(t), byte(t)
		if err != nil || v["TargetSpeed"] != t || !bytes.Equal(want[:6], after[:6]) || !bytes.Equal(want[10:12], after[10:12]) {
			viol("%s: SetFanProfile(%d, %d) gives %v, %v; unit's profiles % x -> % x", name, m, t, v, err, before, after)
		}
		ct := uint64(r.Intn(108))
		u.Lock(func() { faulty = []int{0, 0, 1, 3}[r.Intn(4)] })
		v, err = d.call("SetComfortTemp", r.Intn(2) == 0, ref.Val{"ComfortTemp": ct}, 40*time.Second)
		if err == nil && uint64(u.State(ref.GetTemps)[0]/2) != ct+20 {
			viol("%s: SetComfortTemp(%d) gives %v; the unit's comfort byte is %d", name, ct, v, u.State(ref.GetTemps)[0])
		}
		u.Lock(func() { faulty = 0 })
		if !flush("after faults") {
			return
		}
		compare()
		eval(fmt.Sprintf("%s %d %d %d % x", name, m, t, ct, before))
		count("rounds", 1)
	}
	if !d.alive() {
		viol("%s: the daemon ended: %s", name, tail(d.output()))
	}
	gone(r, u, d, name)
	u.Lock(func() {
		for _, v := range u.Viols {
			viol("%s: %s", name, v)
		}
	})
}
