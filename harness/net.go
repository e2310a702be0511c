package main

import (
	"encoding/binary"
	"fmt"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

// WFrame is a frame as parsed from the wire by the harness' own parser.
type WFrame struct {
	ID      uint64
	Cmd     uint32
	Flags   byte
	Payload []byte
}

const (
	fStream = 1
	fEnd    = 2
	fRst    = 4
	fNB     = 8
	fPush   = 16
	fCodec  = 32
)

func encodeFrame(id uint64, cmd uint32, flags byte, payload []byte) []byte {
	b := make([]byte, 16+len(payload))
	binary.BigEndian.PutUint32(b, uint32(12+len(payload)))
	binary.BigEndian.PutUint64(b[4:], id)
	binary.BigEndian.PutUint32(b[12:], cmd&0xffffff|uint32(flags)<<24)
	copy(b[16:], payload)
	return b
}

// parseFrames consumes whole frames from b.
func parseFrames(b []byte, f func(WFrame)) (rest []byte, err error) {
	for len(b) >= 16 {
		n := int(binary.BigEndian.Uint32(b))
		if n < 12 || n > 64<<20 {
			return b, fmt.Errorf("garbage on the wire: frame length %d", n)
		}
		if len(b) < 4+n {
			return b, nil
		}
		cf := binary.BigEndian.Uint32(b[12:])
		fr := WFrame{ID: binary.BigEndian.Uint64(b[4:]), Cmd: cf & 0xffffff, Flags: byte(cf >> 24)}
		if n > 12 {
			fr.Payload = append([]byte(nil), b[16:4+n]...)
		}
		f(fr)
		b = b[4+n:]
	}
	return b, nil
}

type faddr string

func (a faddr) Network() string { return "fake" }
func (a faddr) String() string  { return string(a) }

// FConn is the library's end of an in-memory connection whose other end is
// held by the harness.
type FConn struct {
	mu       sync.Mutex
	cond     *sync.Cond
	name     string
	in       []byte
	inEOF    bool
	inErr    error
	out      []byte // not yet parsed
	total    int
	closed   bool
	closes   int
	rchunk   int                                   // longest read
	wplan    func(n int) (int, error)              // decides how much of a write is taken
	stalled  bool                                  // writes block
	restall  int                                   // writes block again after so many writes
	onFrame  func(WFrame)                          // in wire order
	onRaw    func([]byte)                          // in wire order
	onBad    func(error)                           // unparsable output
	linger   func()                                // called before a write returns
	onClose  func()                                // first close by the library
	virtual  func(op string, d time.Duration) bool // virtual time: does an operation with this timeout expire?
	rdl, wdl time.Time
	rtm, wtm *time.Timer
	nread    int64
	waiting  int // readers waiting for input
	onWait   func()
	user     interface{}
}

func newFConn(name string) *FConn {
	c := &FConn{name: name}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func timeoutErr(op string) error {
	return &net.OpError{Op: op, Net: "fake", Err: os.ErrDeadlineExceeded}
}

func (c *FConn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed {
			return 0, &net.OpError{Op: "read", Net: "fake", Err: net.ErrClosed}
		}
		if len(c.in) > 0 {
			n := len(b)
			if c.rchunk > 0 && n > c.rchunk {
				n = c.rchunk
			}
			n = copy(b[:n], c.in)
			c.in = c.in[n:]
			c.nread += int64(n)
			c.cond.Broadcast()
			return n, nil
		}
		if c.inErr != nil {
			return 0, c.inErr
		}
		if c.inEOF {
			return 0, errEOF
		}
		if c.virtual != nil {
			d := time.Duration(-1)
			if !c.rdl.IsZero() {
				d = time.Until(c.rdl)
			}
			c.mu.Unlock()
			exp := c.virtual("read", d)
			c.mu.Lock()
			if exp {
				return 0, timeoutErr("read")
			}
			if len(c.in) > 0 || c.closed || c.inEOF {
				continue
			}
		} else if !c.rdl.IsZero() && !time.Now().Before(c.rdl) {
			return 0, timeoutErr("read")
		}
		c.waiting++
		if c.onWait != nil {
			c.onWait()
		}
		c.cond.Wait()
		c.waiting--
	}
}

// Parked tells whether the library waits for input, having read all there is.
func (c *FConn) Parked() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.waiting > 0 && len(c.in) == 0 && !c.inEOF && c.inErr == nil && !c.closed
}

func (c *FConn) Write(b []byte) (int, error) {
	n, err := c.write(b)
	if c.linger != nil {
		c.linger()
	}
	return n, err
}

func (c *FConn) isClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

func (c *FConn) write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed {
			return 0, &net.OpError{Op: "write", Net: "fake", Err: net.ErrClosed}
		}
		if !c.stalled {
			break
		}
		if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
			return 0, timeoutErr("write")
		}
		c.cond.Wait()
	}
	if c.restall > 0 {
		c.restall--
		c.stalled = c.restall == 0
	}
	n := len(b)
	var err error
	if c.wplan != nil {
		n, err = c.wplan(len(b))
	}
	c.total += n
	if n > 0 {
		if c.onRaw != nil {
			c.onRaw(b[:n])
		}
		if c.onFrame != nil {
			c.out = append(c.out, b[:n]...)
			rest, perr := parseFrames(c.out, c.onFrame)
			c.out = append([]byte(nil), rest...)
			if perr != nil && c.onBad != nil {
				c.onBad(perr)
				c.onBad = nil
			}
		}
	}
	return n, err
}

// Close by the library
func (c *FConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closes++
	if c.closed {
		return &net.OpError{Op: "close", Net: "fake", Err: net.ErrClosed}
	}
	c.closed = true
	if c.onClose != nil {
		c.onClose()
	}
	c.cond.Broadcast()
	return nil
}

func (c *FConn) LocalAddr() net.Addr  { return faddr("local:" + c.name) }
func (c *FConn) RemoteAddr() net.Addr { return faddr(c.name) }
func (c *FConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *FConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rdl = t
	c.arm(&c.rtm, t)
	return nil
}
func (c *FConn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.wdl = t
	if c.stalled {
		c.arm(&c.wtm, t)
	}
	return nil
}
func (c *FConn) arm(tm **time.Timer, t time.Time) {
	if *tm != nil {
		(*tm).Stop()
		*tm = nil
	}
	if !t.IsZero() && c.virtual == nil {
		*tm = time.AfterFunc(time.Until(t)+time.Millisecond, func() {
			c.mu.Lock()
			c.cond.Broadcast()
			c.mu.Unlock()
		})
	}
}
func (c *FConn) SetKeepAlive(bool) error                { return nil }
func (c *FConn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *FConn) SetWriteBuffer(int) error               { return nil }
func (c *FConn) SetReadBuffer(int) error                { return nil }

// the harness' end

func (c *FConn) PeerSend(b []byte) {
	c.mu.Lock()
	c.in = append(c.in, b...)
	c.cond.Broadcast()
	c.mu.Unlock()
}
func (c *FConn) PeerEOF() {
	c.mu.Lock()
	c.inEOF = true
	c.cond.Broadcast()
	c.mu.Unlock()
}
func (c *FConn) PeerErr(err error) {
	c.mu.Lock()
	c.inErr = err
	c.cond.Broadcast()
	c.mu.Unlock()
}
func (c *FConn) Stall(on bool) {
	c.mu.Lock()
	c.stalled = on
	if on {
		c.arm(&c.wtm, c.wdl)
	}
	c.cond.Broadcast()
	c.mu.Unlock()
}
func (c *FConn) IsClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// FListener hands out connections injected by the harness.
type FListener struct {
	ch     chan net.Conn
	done   chan struct{}
	once   sync.Once
	closes int32
	nacc   int32
	errs   chan error
}

func newFListener() *FListener {
	return &FListener{ch: make(chan net.Conn), done: make(chan struct{}), errs: make(chan error, 16)}
}
func (l *FListener) Accept() (net.Conn, error) {
	select {
	case <-l.done:
		return nil, &net.OpError{Op: "accept", Net: "fake", Err: net.ErrClosed}
	default:
	}
	select {
	case c := <-l.ch:
		atomic.AddInt32(&l.nacc, 1)
		return c, nil
	case e := <-l.errs:
		return nil, e
	case <-l.done:
		return nil, &net.OpError{Op: "accept", Net: "fake", Err: net.ErrClosed}
	}
}
func (l *FListener) Close() error {
	atomic.AddInt32(&l.closes, 1)
	l.once.Do(func() { close(l.done) })
	return nil
}
func (l *FListener) Addr() net.Addr { return faddr("listener") }

// Inject offers a connection; false if it was not accepted in time.
func (l *FListener) Inject(c net.Conn, d time.Duration) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case l.ch <- c:
		return true
	case <-l.done:
		return false
	case <-t.C:
		return false
	}
}

var _ qrpc.TCPConn = (*FConn)(nil)

// payloadFor is the content identified by a tag.
func payloadFor(tag int) []byte {
	n := (tag*37 + 11) % 120
	switch {
	case tag%13 == 5:
		n = 0
	case tag%11 == 7:
		n = 1500
	case tag%17 == 3:
		n = 4096
	}
	b := make([]byte, n)
	x := uint32(tag)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func payloadOK(tag int, p []byte) bool {
	w := payloadFor(tag)
	if len(w) != len(p) {
		return false
	}
	for i := range w {
		if w[i] != p[i] {
			return false
		}
	}
	return true
}

func kindOf(flags byte) string {
	if flags&fRst != 0 {
		if flags&fPush != 0 {
			return "PR"
		}
		return "R"
	}
	p := ""
	if flags&fPush != 0 {
		p = "P"
	}
	switch {
	case flags&fEnd != 0:
		return p + "E"
	case flags&fStream != 0:
		return p + "S"
	case p != "":
		return p
	case flags&fNB != 0:
		return "N"
	}
	return "B"
}

func flagsOf(k string, variant int) byte {
	v := variant&1 != 0
	switch k {
	case "B":
		return 0
	case "N":
		return fNB
	case "S":
		if v {
			return fStream | fNB
		}
		return fStream
	case "E":
		if v {
			return fEnd
		}
		return fStream | fEnd
	case "R":
		return fRst
	case "P":
		return fPush
	case "PS":
		return fPush | fStream
	case "PE":
		return fPush | fStream | fEnd
	case "PR":
		return fPush | fRst
	}
	panic("kind " + k)
}
