package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"math/rand"
	"net"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

// What goes over the wire, byte by byte. Records traces for WireTrace.tla.

// runsOf writes bytes as runs.
func runsOf(p []byte) [][2]int {
	r := [][2]int{}
	for _, b := range p {
		if k := len(r); k > 0 && r[k-1][0] == int(b) {
			r[k-1][1]++
		} else {
			r = append(r, [2]int{int(b), 1})
		}
	}
	return r
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func id8(id uint64) []int   { return ints(binary.BigEndian.AppendUint64(nil, id)) }
func cmd4(c uint32) []int   { return ints(binary.BigEndian.AppendUint32(nil, c)) }
func cmd3(c qrpc.Cmd) []int { return cmd4(uint32(c)) }

// runCodec is the codec of WireCodec.tla.
type runCodec struct{}

func (runCodec) Encode(p []byte) ([]byte, error) {
	if len(p) > 0 && p[0] == 238 {
		return nil, errors.New("cannot encode")
	}
	var out []byte
	for _, r := range runsOf(p) {
		for n := r[1]; n > 0; n -= 256 {
			k := n
			if k > 256 {
				k = 256
			}
			out = append(out, byte(k-1), byte(r[0]))
		}
	}
	return out, nil
}

func (runCodec) Decode(p []byte) ([]byte, error) {
	if len(p)%2 == 1 {
		return nil, errors.New("cannot decode")
	}
	var out []byte
	for ; len(p) > 0; p = p[2:] {
		for k := int(p[0]) + 1; k > 0; k-- {
			out = append(out, p[1])
		}
	}
	return out, nil
}

type wireCfg struct {
	Role  string `json:"role"`
	Focus string `json:"focus"` // "" or "size"
}

type gotFrame struct {
	f *qrpc.Frame
	p []byte
}

type wireRun struct {
	got    []gotFrame
	cfg    wireCfg
	tr     *trace
	mu     sync.Mutex
	r      *rand.Rand
	codec  bool
	max    int
	fc     *FConn
	conn   *qrpc.Connection
	ci     *qrpc.ConnectionInfo
	buf    []byte
	sent   int64 // frames sent by the peer that must be handed over
	recvd  int64
	over   int32
	n      int32
	used   map[uint64]bool
	answer chan uint64 // own requests seen on the wire
	asked  map[uint64]bool
	busy   int32      // handlers and consumers
	smu    sync.Mutex // the peer sends whole groups
}

func (s *wireRun) rnd(n int) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.r.Intn(n)
}

func (s *wireRun) next() int { return int(atomic.AddInt32(&s.n, 1)) }

func (s *wireRun) log(e ev) {
	if atomic.LoadInt32(&s.over) == 0 {
		s.tr.log(e)
	}
}

// raw takes the bytes the library writes apart.
func (s *wireRun) raw(b []byte) {
	s.buf = append(s.buf, b...)
	for len(s.buf) >= 16 {
		n := binary.BigEndian.Uint32(s.buf)
		if n < 12 || n > 1<<26 {
			s.log(ev{"e": "garbage", "h": ints(s.buf[:16])})
			s.buf = nil
			return
		}
		if uint64(len(s.buf)) < uint64(n)+4 {
			return
		}
		h := s.buf[:16]
		s.log(ev{"e": "wire", "h": ints(h), "p": runsOf(s.buf[16 : n+4])})
		id := binary.BigEndian.Uint64(h[4:])
		own := id%2 == 1
		if own == (s.cfg.Role == "client") && h[12]&(fPush|fRst) == 0 {
			s.mu.Lock()
			first := !s.asked[id]
			s.asked[id] = true
			s.mu.Unlock()
			if first {
				s.answer <- id
			}
		}
		s.buf = append([]byte(nil), s.buf[n+4:]...)
	}
}

func (s *wireRun) payload() []byte {
	var b []byte
	switch s.rnd(10) {
	case 0, 1:
	case 2, 3, 4:
		for k := 1 + s.rnd(6); k > 0; k-- {
			b = append(b, byte(s.rnd(256)))
		}
	case 5:
		b = append(b, 238, byte(s.rnd(3)))
	default:
		for k := 1 + s.rnd(5); k > 0; k-- {
			x := byte([]int{0, 1, 7, 32, 255, 238, s.rnd(256)}[s.rnd(7)])
			n := []int{1, 2, 3, 12, 16, 255, 256, 257, 512, 1000, 1008, 1009, 1024, 3000}[s.rnd(14)]
			if s.rnd(60) == 0 {
				n = []int{65535 - 12, 65535, 65536, 70000}[s.rnd(4)]
			}
			for ; n > 0; n-- {
				b = append(b, x)
			}
		}
	}
	return b
}

func (s *wireRun) cmd() uint32 {
	return []uint32{0, 1, 255, 256, 65535, 65536, 0x123456, 0xffffff, 0x1000000, 0xff00ab12, 0xffffffff, uint32(s.rnd(1 << 24))}[s.rnd(12)]
}

// an id that was not used yet
func (s *wireRun) freshID(parity int) uint64 {
	for {
		id := []uint64{uint64(s.rnd(20)), uint64(s.rnd(70000)), 1<<32 + uint64(s.rnd(5)), 1<<63 + uint64(s.rnd(50)), ^uint64(0) - uint64(s.rnd(50)),
			uint64(s.rnd(1<<30))<<34 | uint64(s.rnd(1<<30))}[s.rnd(6)]
		if parity >= 0 && id%2 != uint64(parity) {
			id ^= 1
		}
		s.mu.Lock()
		dup := s.used[id]
		s.used[id] = true
		s.mu.Unlock()
		if !dup {
			return id
		}
	}
}

// fill writes a payload in pieces.
func (s *wireRun) fill(w qrpc.FrameWriter, k int, p []byte) {
	put := func(b []byte) { s.log(ev{"e": "bytes", "w": k, "p": runsOf(b)}) }
	for len(p) > 0 {
		switch s.rnd(3) {
		case 0:
			m := 1 + s.rnd(len(p))
			put(p[:m])
			w.WriteBytes(p[:m])
			p = p[m:]
		case 1:
			put(nil)
			w.WriteBytes(nil)
		default:
			put(p)
			// the library must not keep what it was given
			c := append([]byte(nil), p...)
			w.WriteBytes(c)
			for i := range c {
				c[i] = 0xbb
			}
			p = nil
		}
	}
}

// frame writes one frame, perhaps leaving others alone before; it tells
// whether it was sent.
func (s *wireRun) frame(w qrpc.FrameWriter, k int, id uint64, flags byte, how string) bool {
	for s.rnd(4) == 0 {
		// abandoned
		c, i := s.cmd(), s.freshID(-1)
		s.log(ev{"e": "start", "w": k, "id": id8(i), "cmd": cmd4(c), "fl": 32})
		w.StartWrite(i, qrpc.Cmd(c), qrpc.CodecFlag)
		s.fill(w, k, s.payload())
	}
	c := s.cmd()
	s.log(ev{"e": "start", "w": k, "id": id8(id), "cmd": cmd4(c), "fl": int(flags)})
	w.StartWrite(id, qrpc.Cmd(c), qrpc.FrameFlag(flags))
	p := s.payload()
	if how == "comp" {
		p, _ = runCodec{}.Encode(p)
		if p == nil {
			how = ""
		}
	}
	s.fill(w, k, p)
	o := s.next()
	s.log(ev{"e": "end", "o": o, "w": k, "how": how})
	var err error
	switch how {
	case "":
		err = w.EndWrite()
	case "comp":
		err = w.EndWriteCompressed()
	}
	s.log(ev{"e": "ret", "o": o, "ok": err == nil})
	return err == nil
}

func (s *wireRun) codecFlag() byte {
	if s.rnd(2) == 0 {
		return fCodec
	}
	return 0
}

func (s *wireRun) push(w qrpc.FrameWriter, k int) {
	fl := []byte{fPush, fPush | fNB, fPush | fStream | fEnd, fPush | fEnd, fPush | fStream}[s.rnd(5)]
	how := []string{"", "", "comp"}[s.rnd(3)]
	if how == "comp" && !s.codec {
		how = ""
	}
	s.frame(w, k, s.freshID(-1), fl|s.codecFlag(), how)
}

// recv logs a frame that was handed over.
func (s *wireRun) recv(f *qrpc.Frame) {
	s.log(ev{"e": "recv", "id": id8(f.RequestID), "cmd": cmd3(f.Cmd)[1:], "fl": int(f.Flags), "p": runsOf(f.Payload)})
	s.mu.Lock()
	s.got = append(s.got, gotFrame{f, append([]byte(nil), f.Payload...)})
	s.mu.Unlock()
	atomic.AddInt64(&s.recvd, 1)
}

// changed tells whether a frame changed after it had been handed over.
func (s *wireRun) changed() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, g := range s.got {
		if !bytes.Equal(g.f.Payload, g.p) {
			s.log(ev{"e": "changed", "id": id8(g.f.RequestID)})
		}
	}
}

func (s *wireRun) consume(f *qrpc.Frame) {
	if f.Flags.IsDone() {
		return
	}
	for {
		select {
		case g := <-f.FrameCh():
			if g == nil {
				return
			}
			s.recv(g)
		case <-time.After(10 * time.Second):
			return
		}
	}
}

func (s *wireRun) sub(f *qrpc.Frame) {
	s.recv(f)
	atomic.AddInt32(&s.busy, 1)
	go func() {
		defer atomic.AddInt32(&s.busy, -1)
		s.consume(f)
	}()
}

func (s *wireRun) handler(w qrpc.FrameWriter, rf *qrpc.RequestFrame) {
	atomic.AddInt32(&s.busy, 1)
	defer atomic.AddInt32(&s.busy, -1)
	f := (*qrpc.Frame)(rf)
	s.recv(f)
	k := s.next()
	if s.rnd(3) == 0 {
		s.push(w, k)
	}
	s.consume(f)
	id := f.RequestID
	switch s.rnd(4) {
	case 0:
		// streamed
		for j := s.rnd(3); j > 0; j-- {
			s.frame(w, k, id, fStream|s.codecFlag(), "")
		}
		for j := 0; j < 20 && !s.frame(w, k, id, fStream|fEnd|s.codecFlag(), "") && !s.isBad(); j++ {
		}
	case 1:
		c, o := s.cmd(), s.next()
		s.log(ev{"e": "rst", "o": o, "id": id8(id), "cmd": cmd4(c)})
		err := w.ResetFrame(id, qrpc.Cmd(c))
		s.log(ev{"e": "ret", "o": o, "ok": err == nil})
	default:
		how := ""
		if s.codec && s.rnd(4) == 0 {
			how = "comp"
		}
		for j := 0; j < 20 && !s.frame(w, k, id, byte(s.rnd(2)*fNB)|s.codecFlag(), how) && !s.isBad(); j++ {
			how = ""
		}
	}
}

func (s *wireRun) isBad() bool { return s.fc.isClosed() }

// request starts a request from the end point under test.
func (s *wireRun) request() {
	type requester interface {
		Request(qrpc.Cmd, qrpc.FrameFlag, []byte) (uint64, qrpc.Response, error)
		StreamRequest(qrpc.Cmd, qrpc.FrameFlag, []byte) (qrpc.StreamWriter, qrpc.Response, error)
	}
	var q requester = s.conn
	if s.conn == nil {
		q = s.ci
	}
	o, c, p := s.next(), s.cmd(), s.payload()
	fl := byte(s.rnd(2)*fNB) | s.codecFlag()
	var resp qrpc.Response
	arg := append([]byte(nil), p...)
	if s.rnd(3) > 0 {
		if s.rnd(4) == 0 {
			fl |= fPush
		}
		ask := fl
		if s.conn == nil {
			fl |= fNB // what a server asks for never blocks
		}
		s.log(ev{"e": "req", "o": o, "cmd": cmd4(c), "fl": int(fl), "p": runsOf(p)})
		id, r, err := q.Request(qrpc.Cmd(c), qrpc.FrameFlag(ask), arg)
		resp = r
		s.log(ev{"e": "reqret", "o": o, "ok": err == nil, "id": id8(id), "w": 0, "fl": 0})
		if err != nil {
			return
		}
	} else {
		fl |= fStream
		s.log(ev{"e": "req", "o": o, "cmd": cmd4(c), "fl": int(fl), "p": runsOf(p)})
		sw, r, err := q.StreamRequest(qrpc.Cmd(c), qrpc.FrameFlag(fl&^fStream), arg)
		resp = r
		k := s.next()
		if err != nil {
			s.log(ev{"e": "reqret", "o": o, "ok": false, "id": id8(0), "w": 0, "fl": 0})
			return
		}
		s.log(ev{"e": "reqret", "o": o, "ok": true, "id": id8(sw.RequestID()), "w": k, "fl": int(fl)})
		for j := s.rnd(3); ; j-- {
			for s.rnd(4) == 0 {
				a, x := s.cmd(), s.payload()
				s.log(ev{"e": "sstart", "w": k, "cmd": cmd4(a)})
				sw.StartWrite(qrpc.Cmd(a))
				s.log(ev{"e": "bytes", "w": k, "p": runsOf(x)})
				sw.WriteBytes(x)
			}
			a, x := s.cmd(), s.payload()
			if s.rnd(3) == 0 {
				x = nil
			}
			s.log(ev{"e": "sstart", "w": k, "cmd": cmd4(a)})
			sw.StartWrite(qrpc.Cmd(a))
			s.log(ev{"e": "bytes", "w": k, "p": runsOf(x)})
			sw.WriteBytes(x)
			e := s.next()
			how := "more"
			if j <= 0 {
				how = "last"
			}
			s.log(ev{"e": "end", "o": e, "w": k, "how": how})
			err := sw.EndWrite(how == "last")
			s.log(ev{"e": "ret", "o": e, "ok": err == nil})
			if how == "last" && err == nil || s.isBad() || j < -20 {
				break
			}
		}
	}
	for i := range arg {
		arg[i] = 0xcc
	}
	if resp == nil {
		return
	}
	atomic.AddInt32(&s.busy, 1)
	go func() {
		defer atomic.AddInt32(&s.busy, -1)
		f, err := resp.GetFrame()
		if err != nil {
			return
		}
		s.recv(f)
		s.consume(f)
	}()
}

// send sends one frame from the peer's side.
func (s *wireRun) send(id uint64, flags byte, p []byte) {
	wire := p
	if flags&fCodec != 0 && len(p) > 0 {
		wire, _ = runCodec{}.Encode(p)
		if wire == nil {
			wire, flags = p, flags&^fCodec
		}
	}
	b := encodeFrame(id, s.cmd()&0xffffff, flags, wire)
	s.log(ev{"e": "send", "h": ints(b[:16]), "p": runsOf(wire)})
	atomic.AddInt64(&s.sent, 1)
	s.pieces(b)
}

// pieces hands over bytes in pieces.
func (s *wireRun) pieces(b []byte) {
	for len(b) > 0 {
		n := len(b)
		if s.rnd(3) == 0 {
			n = 1 + s.rnd(n)
			if n > 20 && s.rnd(2) == 0 {
				n = 1 + s.rnd(20)
			}
		}
		s.fc.PeerSend(b[:n])
		if n < len(b) && s.rnd(3) == 0 {
			runtime.Gosched()
		}
		b = b[n:]
	}
}

func (s *wireRun) inCodec() byte {
	if s.codec {
		return s.codecFlag()
	}
	return 0
}

// fit returns a payload the end point accepts.
func (s *wireRun) fit() []byte {
	p := s.payload()
	if s.max > 0 {
		n := s.max - 12
		k := s.rnd(4)
		if s.max > 100000 {
			k = 1
			if s.cfg.Focus == "size" {
				k = s.rnd(8)
			}
		}
		switch k {
		case 0: // exactly as long as allowed
			j := 0
			for len(p) < n {
				m := n - len(p)
				if j++; m > 7 && j < 5 {
					m = 1 + s.rnd(m)
				}
				x := byte(s.rnd(256))
				for ; m > 0; m-- {
					p = append(p, x)
				}
			}
		}
		if len(p) > n {
			p = p[:n]
		}
		if e, _ := (runCodec{}).Encode(p); len(e) > n {
			p = p[:n/2]
		}
	}
	return p
}

// group is one request, push or stream of the peer.
func (s *wireRun) group() {
	s.smu.Lock()
	defer s.smu.Unlock()
	parity := 1
	if s.cfg.Role == "client" {
		parity = 0
	}
	fl := s.inCodec()
	switch s.rnd(4) {
	case 0:
		s.send(s.freshID(-1), fPush|fl|byte(s.rnd(2)*fNB), s.fit())
	case 1:
		id, x := s.freshID(-1), byte(fPush)
		if s.rnd(2) == 0 {
			id, x = s.freshID(parity), 0
		}
		for j := s.rnd(4); j > 0; j-- {
			s.send(id, x|fStream|s.inCodec(), s.fit())
		}
		s.send(id, x|fStream|fEnd|s.inCodec(), s.fit())
	default:
		nb := byte(fNB)
		if s.cfg.Role == "server" && s.rnd(2) == 0 {
			nb = 0
		}
		s.send(s.freshID(parity), fl|nb, s.fit())
	}
}

// reply answers an own request of the end point.
func (s *wireRun) reply(id uint64) {
	s.smu.Lock()
	defer s.smu.Unlock()
	switch s.rnd(3) {
	case 0:
		for j := s.rnd(3); j > 0; j-- {
			s.send(id, fStream|s.inCodec(), s.fit())
		}
		s.send(id, fStream|fEnd|s.inCodec(), s.fit())
	default:
		s.send(id, byte(s.rnd(2)*fNB)|s.inCodec(), s.fit())
	}
}

// wrong sends something that ends the connection; false: there is nothing.
func (s *wireRun) wrong() {
	s.smu.Lock()
	defer s.smu.Unlock()
	parity := 1
	if s.cfg.Role == "client" {
		parity = 0
	}
	id := s.freshID(parity)
	b := encodeFrame(id, s.cmd()&0xffffff, fNB, []byte{1, 2, 3})
	var p []byte
	setLen := func(n uint32) {
		binary.BigEndian.PutUint32(b, n)
		b = b[:16]
		p = nil
	}
	k := s.rnd(4)
	if k >= 2 && s.max == 0 {
		k = s.rnd(2)
	}
	switch k {
	case 0:
		setLen([]uint32{0, 1, 4, 11, 11, 11}[s.rnd(6)])
	case 1:
		// cannot be decoded
		p = []byte{1, 2, 3, 4, 5}[:[]int{1, 3, 5}[s.rnd(3)]]
		b = encodeFrame(id, s.cmd()&0xffffff, []byte{fNB, fPush, 0, fStream}[s.rnd(4)]|fCodec, p)
	case 2:
		setLen(uint32(s.max) + []uint32{1, 1, 1, 2, 500, 0x7fffffff, 0x80000000, ^uint32(0) - uint32(s.max)}[s.rnd(8)])
	case 3:
		p = make([]byte, s.max-12+1)
		b = encodeFrame(id, 0, []byte{fNB, fPush, 0, fRst}[s.rnd(4)]|s.inCodec(), p)
	}
	s.log(ev{"e": "send", "h": ints(b[:16]), "p": runsOf(p)})
	s.pieces(b)
	// more that must not be looked at
	for j := s.rnd(3); j > 0; j-- {
		s.send(s.freshID(parity), fNB, s.fit())
	}
}

func wireOne(cfg wireCfg, seed int) []ev {
	s := &wireRun{cfg: cfg, tr: &trace{}, r: rand.New(rand.NewSource(int64(seed))), used: map[uint64]bool{}, asked: map[uint64]bool{}, answer: make(chan uint64, 1000)}
	s.codec = s.rnd(4) > 0
	max := 0
	if cfg.Role == "server" {
		s.max = qrpc.DefaultMaxFrameSize
		if s.rnd(2) == 0 || cfg.Focus == "size" {
			s.max = []int{12, 13, 14, 40, 300, 1040, 70000}[s.rnd(7)]
			max = s.max
		}
		if cfg.Focus == "size" && seed%97 == 0 {
			s.max, max = qrpc.DefaultMaxFrameSize, 0
			s.codec = false // too long for the specification's codec
		}
	}
	for i := uint64(0); i < 60; i++ {
		s.used[i] = true // left to the connection
	}
	fc := newFConn(strconv.Itoa(seed))
	fc.rchunk = []int{0, 0, 1, 3, 16, 17, 1000, 1024}[s.rnd(8)]
	fc.onRaw = s.raw
	s.fc = fc
	s.log(ev{"e": "conf", "codec": s.codec, "max": s.max})
	var codec qrpc.CompressorCodec
	if s.codec {
		codec = runCodec{}
	}
	ready := make(chan struct{})
	var writers []qrpc.FrameWriter
	var srv *qrpc.Server
	if cfg.Role == "server" {
		b := qrpc.ServerBinding{
			Handler: qrpc.HandlerFunc(s.handler), Codec: codec, MaxFrameSize: max,
			WriteFrameChSize: s.rnd(4), ReadFrameChSize: s.rnd(3),
			SubFunc: func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { s.sub(f) },
		}
		srv = qrpc.NewServer([]qrpc.ServerBinding{b})
		l := newQListener(0, &trace{})
		fc.user = 1
		l.offer(fc)
		go srv.Serve(l, 0)
		for i := 0; s.ci == nil && i < 100000; i++ {
			srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
				s.ci = ci
				return false
			})
			if i > 10 {
				time.Sleep(50 * time.Microsecond)
			}
		}
		if s.ci == nil {
			return nil
		}
		for k := 0; k < 2; k++ {
			srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
				writers = append(writers, w)
				return false
			})
		}
		close(ready)
	} else {
		conf := qrpc.ConnectionConfig{
			WriteFrameChSize: s.rnd(4), Codec: codec, Handler: qrpc.HandlerFunc(s.handler),
			OverlayNetwork: func(string, qrpc.DialConfig) (net.Conn, error) { return fc, nil },
		}
		c, err := qrpc.NewConnection("fake", conf, func(_ *qrpc.Connection, f *qrpc.Frame) { s.sub(f) })
		if err != nil {
			return nil
		}
		s.conn = c
		close(ready)
	}
	fc.mu.Lock()
	fc.onClose = func() { s.log(ev{"e": "closes"}) }
	fc.mu.Unlock()
	var wg sync.WaitGroup
	run := func(f func(), n int) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for ; n > 0 && !s.isBad(); n-- {
				f()
			}
		}()
	}
	for _, w := range writers {
		w, k := w, s.next()
		run(func() { s.push(w, k) }, 1+s.rnd(4))
	}
	for k := 1 + s.rnd(2); k > 0; k-- {
		run(s.request, 1+s.rnd(3))
	}
	run(s.group, 2+s.rnd(5))
	stop := make(chan struct{})
	var rwg sync.WaitGroup
	rwg.Add(1)
	go func() {
		defer rwg.Done()
		for {
			select {
			case id := <-s.answer:
				s.reply(id)
			case <-stop:
				return
			}
		}
	}()
	wait := func(d time.Duration, cond func() bool) {
		for end := time.Now().Add(d); !cond() && time.Now().Before(end); {
			time.Sleep(50 * time.Microsecond)
		}
	}
	done := func() bool {
		return atomic.LoadInt64(&s.recvd) == atomic.LoadInt64(&s.sent) && len(s.answer) == 0
	}
	idle := func() bool { return atomic.LoadInt32(&s.busy) == 0 }
	waitFor(&wg, 10*time.Second)
	bad := s.rnd(3) == 0 || cfg.Focus == "size" && s.rnd(3) > 0
	if !bad || s.rnd(3) > 0 {
		wait(10*time.Second, func() bool { return done() || s.isBad() })
	}
	if bad {
		s.wrong()
		wait(10*time.Second, s.isBad)
		wait(5*time.Second, idle)
	} else {
		wait(10*time.Second, idle)
		time.Sleep(200 * time.Microsecond)
		wait(time.Second, done)
	}
	close(stop)
	rwg.Wait()
	s.changed()
	s.log(ev{"e": "fin"})
	atomic.StoreInt32(&s.over, 1)
	es := s.tr.events()
	if srv != nil {
		go srv.Shutdown()
	} else {
		s.conn.Close()
	}
	return es
}

func famWire(g *globals) (*results, interface{}, error) {
	var cfg wireCfg
	must(jsonUnmarshal(g.cfg, &cfg))
	return recordTraces(g, func(seed int) []ev { return wireOne(cfg, seed) })
}
