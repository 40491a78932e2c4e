package sim

import (
	"bytes"
	"fmt"
	"io"
	"sync"
	"time"

	"verif/ref"
)

// Step of a reply: wait D, then deliver B.
type Step struct {
	D    time.Duration
	B    []byte
	Fail error // then make the line fail with this error
}

// Plan is what the unit does with one request.
type Plan struct {
	Steps   []Step
	Healthy bool // complete valid reply in good time
	NoApply bool // a set command does not take effect
	Late    bool // compose the reading only when the reply is sent
	Note    string
}

// Req is a request frame received by the unit.
type Req struct {
	Seq  int
	Cmd  byte
	Data []byte
	At   time.Time
}

// IsGet tells whether cmd is a known get request.
func IsGet(cmd byte) bool { _, ok := ref.PayloadLen[cmd]; return ok }

// Reading is a get reply composed by the unit.
type Reading struct {
	Req     Req
	Payload []byte
	Plan    Plan
	SentAt  time.Time // when the last byte was delivered
	Sent    bool
	Acked   bool
	AckedAt time.Time
}

// Change of the unit's state.
type Change struct {
	At      time.Time
	Get     byte
	Payload []byte
}

// Exch is the monitor's view of one exchange.
type Exch struct {
	Req   Req
	Plan  Plan
	Sent  bool
	Acks  int
	Reply *Reading
	First time.Time // first and last delivery of bytes
	Last  time.Time
}

// Unit simulates the ventilation unit at the far end of a Line.
type Unit struct {
	L *Line

	mu      sync.Mutex
	state   map[byte][]byte
	ramp    *ramp
	Ramp    time.Duration // time until the fans run at the speed of the mode
	RampN   int           // or, if positive, the fan reading that shows it first
	inbuf   []byte
	seq     int
	cur     *Exch
	queue   chan *Exch
	stopped bool
	cmd     sync.Mutex

	Exchs    []*Exch
	Readings []*Reading
	Changes  []Change
	Viols    []string
	Strict   bool // check the line discipline (no faults planned)
	Stray    int  // ACKs outside exchanges

	// Planner decides the plan; healthy is the full healthy reply. nil means
	// immediate healthy replies. Called with the unit locked.
	Planner func(r Req, healthy []byte) Plan
	// Fresh may replace the payload of a reading before it is sent (unique
	// readings). Called with the unit locked.
	Fresh func(r Req, p []byte) []byte
	// OnReq observes request arrival. Called with the unit locked.
	OnReq func(r Req)
	OnAck func() // observes ACKs, likewise
	// WriteFail makes the next n writes fail.
	WriteFail int
	Bytes     int // bytes received
}

type ramp struct {
	at      time.Time
	in, out byte
	n       int
}

// Queue is how many requests a unit can have pending.
var Queue = 1 << 16

// NewUnit makes a unit with a plausible state.
func NewUnit(l *Line) *Unit {
	u := &Unit{L: l, queue: make(chan *Exch, Queue)}
	u.state = map[byte][]byte{
		ref.GetFans:       {35, 36, 0x04, 0xE2, 0x02, 0x71},
		ref.GetBootloader: append([]byte{3, 60, 1}, "CA350 luxe"...),
		ref.GetFirmware:   append([]byte{3, 60, 32}, "CA350 luxe"...),
		ref.GetProfiles:   {15, 35, 50, 16, 36, 51, 35, 36, 2, 1, 70, 71, 0, 0},
		ref.GetTemps:      {80, 60, 75, 82, 62, 0x0F, 50, 51, 52},
		ref.GetErrors:     make([]byte, 17),
		ref.GetBypass:     {0, 0, 3, 0, 1, 0, 0},
		ref.GetHours:      make([]byte, 20),
	}
	// Fans run at the current mode's percentages.
	copy(u.state[ref.GetFans], []byte{36, 35})
	l.OnWrite = u.onWrite
	now := time.Now()
	for k, v := range u.state {
		u.Changes = append(u.Changes, Change{now, k, clone(v)})
	}
	go u.loop()
	return u
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }

// Stop ends the unit's goroutine.
func (u *Unit) Stop() { close(u.queue) }

func (u *Unit) loop() {
	for e := range u.queue {
		for i, s := range e.Plan.Steps {
			if s.D > 0 {
				time.Sleep(s.D)
			}
			u.mu.Lock()
			if e.Last = time.Now(); i == 0 {
				e.First = e.Last
			}
			if i == len(e.Plan.Steps)-1 {
				e.Sent = true
				if e.Reply != nil {
					e.Reply.Sent = true
					e.Reply.SentAt = time.Now()
				}
			}
			u.mu.Unlock()
			if s.B != nil {
				u.L.Push(s.B)
			}
			if s.Fail != nil {
				u.L.Fail(s.Fail)
			}
		}
	}
}

func (u *Unit) viol(f string, a ...any) {
	if len(u.Viols) < 20 {
		u.Viols = append(u.Viols, fmt.Sprintf(f, a...))
	}
}

// onWrite is the line monitor and the unit's receiver.
func (u *Unit) onWrite(p []byte) (int, error) {
	u.mu.Lock()
	defer u.mu.Unlock()
	if u.WriteFail > 0 {
		u.WriteFail--
		return 0, io.ErrClosedPipe
	}
	u.Bytes += len(p)
	first := len(u.inbuf) == 0
	u.inbuf = append(u.inbuf, p...)
	for len(u.inbuf) > 0 {
		b := u.inbuf
		if b[0] != ref.Esc || len(b) > 1 && b[1] != ref.Ack && b[1] != ref.Beg {
			u.viol("client wrote bytes that are neither a frame nor an ACK: % x", b)
			u.inbuf = nil
			break
		}
		if len(b) == 1 {
			break
		}
		if b[1] == ref.Ack {
			u.inbuf = b[2:]
			u.onAck()
			first = true
			continue
		}
		if first && u.Strict && u.cur != nil && u.cur.Plan.Healthy && u.cur.Acks == 0 {
			u.viol("request started while exchange #%d (command %02x) was in progress (reply sent: %v)", u.cur.Req.Seq, u.cur.Req.Cmd, u.cur.Sent)
		}
		first = false
		cmd, data, n, st := ref.ParseFrame(b)
		if st == ref.Incomplete {
			// A valid request has at most 8 bytes of payload.
			if len(b) > 64 {
				u.viol("client wrote an endless frame: % x", b)
				u.inbuf = nil
			}
			break
		}
		if st == ref.Invalid {
			u.viol("client wrote an invalid frame: % x", b)
			u.inbuf = nil
			break
		}
		u.inbuf = b[n:]
		first = true
		u.onReq(cmd, data)
	}
	return len(p), nil
}

func (u *Unit) onAck() {
	if u.cur == nil {
		u.Stray++
		if u.Strict {
			u.viol("ACK before any request")
		}
		return
	}
	u.cur.Acks++
	if u.Strict {
		if u.cur.Acks > 1 {
			u.viol("exchange #%d (command %02x) acknowledged %d times", u.cur.Req.Seq, u.cur.Req.Cmd, u.cur.Acks)
		}
		if !u.cur.Sent {
			u.viol("exchange #%d (command %02x) acknowledged before the reply was received", u.cur.Req.Seq, u.cur.Req.Cmd)
		}
	}
	if u.cur.Reply != nil {
		u.cur.Reply.Acked = true
		u.cur.Reply.AckedAt = time.Now()
	}
	if u.OnAck != nil {
		u.OnAck()
	}
}

// RunawayAt is a number of requests that no history comes near. The one that
// reaches it calls OnRunaway.
var RunawayAt = 50000

var OnRunaway func()

func (u *Unit) onReq(cmd byte, data []byte) {
	u.seq++
	r := Req{u.seq, cmd, clone(data), time.Now()}
	if u.OnReq != nil {
		u.OnReq(r)
	}
	e := &Exch{Req: r}
	var healthy []byte
	if IsGet(cmd) {
		if len(data) != 0 {
			u.viol("get request %02x with a payload: % x", cmd, data)
		}
		if cmd == ref.GetFans && u.ramp != nil && u.ramp.n > 0 {
			if u.ramp.n--; u.ramp.n == 0 {
				u.ramp.at = time.Time{}
			}
		}
		u.settle()
		p := clone(u.state[cmd])
		if u.Fresh != nil {
			if q := u.Fresh(r, clone(p)); q != nil && !bytes.Equal(p, q) {
				u.set(cmd, q)
				p = q
			}
		}
		healthy = append(clone(ref.AckSeq), ref.Frame(cmd+1, p)...)
		e.Reply = &Reading{Req: r, Payload: p}
		u.Readings = append(u.Readings, e.Reply)
	} else {
		healthy = clone(ref.AckSeq)
	}
	if u.Planner != nil {
		e.Plan = u.Planner(r, healthy)
	} else {
		e.Plan = Plan{Steps: []Step{{B: healthy}}, Healthy: true}
	}
	if e.Reply != nil {
		e.Reply.Plan = e.Plan
	}
	if !IsGet(cmd) && !e.Plan.NoApply {
		u.apply(cmd, data)
	}
	u.cur = e
	u.Exchs = append(u.Exchs, e)
	if len(u.Exchs) == RunawayAt && OnRunaway != nil {
		go OnRunaway()
	}
	select {
	case u.queue <- e:
	default:
		u.viol("unit's request queue overflows")
	}
}

func (u *Unit) set(get byte, p []byte) {
	u.state[get] = clone(p)
	u.Changes = append(u.Changes, Change{time.Now(), get, clone(p)})
}

// settle lets the fans reach their target.
func (u *Unit) settle() {
	if u.ramp != nil && !time.Now().Before(u.ramp.at) {
		f := clone(u.state[ref.GetFans])
		f[0], f[1] = u.ramp.in, u.ramp.out
		p := clone(u.state[ref.GetProfiles])
		p[6], p[7] = u.ramp.out, u.ramp.in
		u.ramp = nil
		u.set(ref.GetFans, f)
		u.set(ref.GetProfiles, p)
	}
}

// Pct is the in and out percentage of a mode 1-4.
func Pct(profiles []byte, mode byte) (in, out byte) {
	switch mode {
	case 1:
		return profiles[3], profiles[0]
	case 2:
		return profiles[4], profiles[1]
	case 3:
		return profiles[5], profiles[2]
	case 4:
		return profiles[11], profiles[10]
	}
	return 0, 0
}

func (u *Unit) retarget() {
	in, out := Pct(u.state[ref.GetProfiles], u.state[ref.GetProfiles][8])
	u.ramp = &ramp{time.Now().Add(u.Ramp), in, out, u.RampN}
	if u.RampN > 0 {
		u.ramp.at = time.Now().Add(time.Hour)
	}
	u.settle()
}

func (u *Unit) apply(cmd byte, d []byte) {
	switch {
	case cmd == ref.SetSpeed && len(d) == 1 && d[0] <= 4:
		p := clone(u.state[ref.GetProfiles])
		p[8] = d[0]
		u.set(ref.GetProfiles, p)
		u.retarget()
	case cmd == ref.SetComfort && len(d) == 1:
		t := clone(u.state[ref.GetTemps])
		t[0] = d[0]
		u.set(ref.GetTemps, t)
	case cmd == ref.SetProfiles && len(d) == 8:
		p := clone(u.state[ref.GetProfiles])
		p[0], p[1], p[2], p[3], p[4], p[5], p[10], p[11] = d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]
		u.set(ref.GetProfiles, p)
		u.retarget()
	default:
		u.viol("unknown or malformed command %02x % x", cmd, d)
	}
}

// ApplyL makes the locked unit carry out a command, maybe not the one it got.
func (u *Unit) ApplyL(cmd byte, d []byte) { u.apply(cmd, d) }

// Lock runs f with the unit locked.
func (u *Unit) Lock(f func()) { u.mu.Lock(); defer u.mu.Unlock(); f() }

// State returns the current payload of a get.
func (u *Unit) State(get byte) (p []byte) {
	u.Lock(func() { u.settle(); p = clone(u.state[get]) })
	return
}

// SetState changes the unit's state from outside.
func (u *Unit) SetState(get byte, p []byte) { u.Lock(func() { u.set(get, p) }) }

// SetStateL is SetState for callers that hold the lock.
func (u *Unit) SetStateL(get byte, p []byte) { u.set(get, p) }
func (u *Unit) StateL(get byte) []byte       { return clone(u.state[get]) }

// Count is the number of requests so far.
func (u *Unit) Count() (n int) { u.Lock(func() { n = u.seq }); return }

// Requests since the given count.
func (u *Unit) Since(n int) (rs []Req) {
	u.Lock(func() {
		for _, e := range u.Exchs[n:] {
			rs = append(rs, e.Req)
		}
	})
	return
}

// SetCmds filters the set commands out of rs.
func SetCmds(rs []Req) (out []Req) {
	for _, r := range rs {
		if !IsGet(r.Cmd) {
			out = append(out, r)
		}
	}
	return
}
