// Package sim contains the simulated ventilation unit and the line to it.
package sim

import (
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// Line is the client's end of an in-memory serial line. Like a socket, one
// Read at a time takes input, others queue behind it. Like a socket, a Read
// returns what has arrived, at most one chunk.
type Line struct {
	rlock sync.Mutex // serialises readers, in arrival order

	mu       sync.Mutex
	wake     chan struct{}
	in       [][]byte
	err      error // returned when in is empty
	deadline time.Time
	waiting  int // Reads in progress

	wmu     sync.Mutex
	OnWrite func(p []byte) (int, error)
	Reads   int // completed reads
}

func NewLine() *Line { return &Line{wake: make(chan struct{})} }

func (l *Line) signal() {
	close(l.wake)
	l.wake = make(chan struct{})
}

// Push delivers a chunk to the client.
func (l *Line) Push(b []byte) {
	if len(b) == 0 {
		return
	}
	l.mu.Lock()
	l.in = append(l.in, append([]byte(nil), b...))
	l.signal()
	l.mu.Unlock()
}

// Fail makes reads fail with err once the input is used up (nil: heals).
func (l *Line) Fail(err error) {
	l.mu.Lock()
	l.err = err
	l.signal()
	l.mu.Unlock()
}

// Waiting is the number of Read calls in progress, and Pending the number of
// undelivered bytes.
func (l *Line) Waiting() int { l.mu.Lock(); defer l.mu.Unlock(); return l.waiting }
func (l *Line) Pending() (n int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, c := range l.in {
		n += len(c)
	}
	return
}

func (l *Line) Read(p []byte) (int, error) {
	l.mu.Lock()
	l.waiting++
	l.mu.Unlock()
	defer func() { l.mu.Lock(); l.waiting--; l.Reads++; l.mu.Unlock() }()
	l.rlock.Lock()
	defer l.rlock.Unlock()
	for {
		l.mu.Lock()
		dl := l.deadline
		if !dl.IsZero() && !time.Now().Before(dl) {
			l.mu.Unlock()
			return 0, os.ErrDeadlineExceeded
		}
		if len(l.in) > 0 && len(p) > 0 {
			n := copy(p, l.in[0])
			if n == len(l.in[0]) {
				l.in = l.in[1:]
			} else {
				l.in[0] = l.in[0][n:]
			}
			l.mu.Unlock()
			return n, nil
		}
		if l.err != nil {
			err := l.err
			l.mu.Unlock()
			return 0, err
		}
		w := l.wake
		l.mu.Unlock()
		if dl.IsZero() {
			<-w
			continue
		}
		t := time.NewTimer(time.Until(dl))
		select {
		case <-w:
		case <-t.C:
		}
		t.Stop()
	}
}

func (l *Line) Write(p []byte) (int, error) {
	l.wmu.Lock()
	defer l.wmu.Unlock()
	if l.OnWrite == nil {
		return len(p), nil
	}
	return l.OnWrite(p)
}

func (l *Line) setReadDeadline(t time.Time) error {
	l.mu.Lock()
	l.deadline = t
	l.signal()
	l.mu.Unlock()
	return nil
}

// Plain is a connection without deadlines.
type Plain struct{ L *Line }

func (c *Plain) Read(p []byte) (int, error)  { return c.L.Read(p) }
func (c *Plain) Write(p []byte) (int, error) { return c.L.Write(p) }
func (c *Plain) Close() error                { c.L.Fail(io.EOF); return nil }

// TCP is a connection with the interface of net.Conn.
type TCP struct{ Plain }

func NewTCP(l *Line) *TCP                        { return &TCP{Plain{l}} }
func (c *TCP) SetReadDeadline(t time.Time) error { return c.L.setReadDeadline(t) }
func (c *TCP) SetDeadline(t time.Time) error     { return c.L.setReadDeadline(t) }
func (c *TCP) SetWriteDeadline(time.Time) error  { return nil }
func (c *TCP) LocalAddr() net.Addr               { return &net.TCPAddr{} }
func (c *TCP) RemoteAddr() net.Addr              { return &net.TCPAddr{} }

var _ net.Conn = (*TCP)(nil)

// Conn builds the connection of the given kind over l.
func Conn(kind string, l *Line) io.ReadWriteCloser {
	if kind == "tcp" {
		return NewTCP(l)
	}
	return &Plain{l}
}
