package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"sync"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

// A client whose network connections come and go. Records traces for
// ReconnectTrace.tla.

type recOp struct {
	o, net int
	id     uint64
	plain  bool // a request that may be reset by the peer
	resp   bool // answers are read
	end    bool // answered
	stream bool // the answer has begun
	stale  bool // answered on another network connection
}

type recNet struct {
	n    int
	fc   *FConn
	why  bool
	id   uint64
	hOf  map[uint64]int
	open []*recOp
}

type recRun struct {
	tr      *trace
	mu      sync.Mutex
	r       *rand.Rand
	addrs   []string
	nets    []*recNet
	ops     map[int]*recOp
	calls   int // in progress
	waiters map[int]int
	nop     int
	ntag    int
	nh      int
	nfail   int
	nofail  bool
	slow    bool // full rounds of failing dials
	handler bool
	hruns   int
	hreq    map[int]int // requests of the peer whose handler did not start
	hctx    map[int]int // handlers that wait for the end of their network connection
	gate    chan struct{}
	over    chan struct{}
	conn    *qrpc.Connection
	closing bool
	waitret bool
	cbClose int
	settles bool
	nconn   int         // OnConnect was called
	pushes  map[int]int // pushes of the peer not delivered
	wg      sync.WaitGroup
}

func (s *recRun) rnd(n int) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.r.Intn(n)
}

func (s *recRun) log(e ev) { s.tr.log(e) }

func (s *recRun) nap() {
	switch k := s.rnd(10); {
	case k < 4:
	case k < 9:
		time.Sleep(time.Duration(s.rnd(300)) * time.Microsecond)
	default:
		time.Sleep(time.Duration(s.rnd(3000)) * time.Microsecond)
	}
}

func (s *recRun) dial(addr string, _ qrpc.DialConfig) (net.Conn, error) {
	var a int
	for i, x := range s.addrs {
		if x == addr {
			a = i + 1
		}
	}
	s.log(ev{"e": "dial", "a": a})
	s.nap()
	s.mu.Lock()
	lim := len(s.addrs) - 1
	if s.slow {
		lim = len(s.addrs)
	}
	if !s.nofail && s.nfail < lim && s.r.Intn(5) < 2 {
		s.nfail++
		s.mu.Unlock()
		s.log(ev{"e": "dialfail"})
		return nil, errors.New("dial")
	}
	s.nfail = 0
	nt := &recNet{n: len(s.nets) + 1, id: 2, hOf: map[uint64]int{}}
	fc := newFConn(fmt.Sprint("net", nt.n))
	nt.fc = fc
	fc.rchunk = []int{0, 0, 0, 1, 17}[s.r.Intn(5)]
	fc.onFrame = func(f WFrame) { s.onFrame(nt, f) }
	fc.onClose = func() { s.log(ev{"e": "netclose", "n": nt.n}) }
	s.log(ev{"e": "dialok", "n": nt.n})
	s.nets = append(s.nets, nt)
	s.mu.Unlock()
	return fc, nil
}

func (s *recRun) onFrame(nt *recNet, f WFrame) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if f.Cmd == 0 && f.Flags&fRst != 0 {
		s.log(ev{"e": "hreset", "n": nt.n, "h": nt.hOf[f.ID]})
		return
	}
	o := int(f.Cmd)
	s.log(ev{"e": "sent", "n": nt.n, "o": o})
	op := s.ops[o]
	if op == nil || op.net != 0 {
		return
	}
	op.net, op.id = nt.n, f.ID
	if op.resp {
		nt.open = append(nt.open, op)
	}
}

func (s *recRun) newOp(b int, plain, resp bool) *recOp {
	s.mu.Lock()
	s.nop++
	op := &recOp{o: s.nop, plain: plain, resp: resp}
	s.ops[op.o] = op
	s.calls++
	s.mu.Unlock()
	s.log(ev{"e": "call", "o": op.o, "b": b, "w": resp})
	return op
}

func (s *recRun) ret(op *recOp, err error, kind string) {
	s.log(ev{"e": kind, "o": op.o, "ok": err == nil})
	s.mu.Lock()
	s.calls--
	s.mu.Unlock()
}

func (s *recRun) netOf(op *recOp) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return op.net
}

// consume reads the answer.
func (s *recRun) consume(op *recOp, resp qrpc.Response) {
	s.mu.Lock()
	s.waiters[op.o]++
	s.mu.Unlock()
	defer func() {
		s.mu.Lock()
		delete(s.waiters, op.o)
		s.mu.Unlock()
	}()
	tag := func(f *qrpc.Frame) int {
		if len(f.Payload) < 4 {
			return -1
		}
		return int(binary.BigEndian.Uint32(f.Payload))
	}
	var f *qrpc.Frame
	var err error
	if s.rnd(2) == 0 {
		f, err = resp.GetFrame()
	} else {
		f, err = resp.GetFrameWithContext(context.Background())
	}
	if err != nil {
		s.log(ev{"e": "gotend", "o": op.o})
		return
	}
	s.log(ev{"e": "got", "o": op.o, "t": tag(f)})
	if f.Flags&qrpc.StreamFlag == 0 {
		return
	}
	for {
		select {
		case g := <-f.FrameCh():
			if g == nil {
				s.log(ev{"e": "gotend", "o": op.o})
				return
			}
			s.log(ev{"e": "got", "o": op.o, "t": tag(g)})
		case <-f.Context().Done():
			s.log(ev{"e": "gotend", "o": op.o})
			return
		}
	}
}

func (s *recRun) request() bool {
	op := s.newOp(0, true, true)
	_, resp, err := s.conn.Request(qrpc.Cmd(op.o), []qrpc.FrameFlag{0, qrpc.NBFlag}[s.rnd(2)], nil)
	if err == nil {
		s.mu.Lock()
		s.waiters[op.o]++
		s.mu.Unlock()
	}
	s.ret(op, err, "ret")
	if err != nil {
		return false
	}
	s.consume(op, resp)
	return true
}

func (s *recRun) push() {
	op := s.newOp(0, false, false)
	_, _, err := s.conn.Request(qrpc.Cmd(op.o), qrpc.PushFlag, nil)
	s.ret(op, err, "ret")
}

func (s *recRun) streamRequest() {
	op := s.newOp(0, false, true)
	w, resp, err := s.conn.StreamRequest(qrpc.Cmd(op.o), 0, []byte("x"))
	if err == nil {
		s.mu.Lock()
		s.waiters[op.o]++
		s.mu.Unlock()
	}
	s.ret(op, err, "ret")
	if err != nil {
		return
	}
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		s.consume(op, resp)
	}()
	b := s.netOf(op)
	fails := 0
	for k := s.rnd(6); k > 0; k-- {
		s.nap()
		if s.rnd(4) == 0 {
			time.Sleep(time.Duration(s.rnd(4000)) * time.Microsecond)
		}
		c := s.newOp(b, false, false)
		w.StartWrite(qrpc.Cmd(c.o))
		if s.rnd(2) == 0 {
			w.WriteBytes([]byte("more"))
		}
		end := k == 1 && s.rnd(2) == 0
		err := w.EndWrite(end)
		s.ret(c, err, "ret")
		if err != nil {
			fails++
			if end || fails > 2 {
				return
			}
		}
	}
}

// reset resets a request of an earlier network connection.
func (s *recRun) reset() {
	s.mu.Lock()
	var old []*recOp
	for _, op := range s.ops {
		if op.resp && (!op.plain || s.handler) && op.net != 0 && op.net <= len(s.nets) && s.nets[op.net-1].why {
			old = append(old, op)
		}
	}
	var op *recOp
	if len(old) > 0 {
		op = old[s.r.Intn(len(old))]
	}
	s.mu.Unlock()
	if op == nil {
		return
	}
	c := s.newOp(op.net, false, false)
	s.ret(c, s.conn.ResetFrame(op.id, qrpc.Cmd(c.o)), "rstret")
}

func (s *recRun) serve(w qrpc.FrameWriter, rf *qrpc.RequestFrame) {
	h := int(binary.BigEndian.Uint32(rf.Payload))
	nt := int(rf.Cmd)
	s.mu.Lock()
	s.hruns++
	delete(s.hreq, h)
	s.mu.Unlock()
	s.log(ev{"e": "hstart", "h": h})
	defer func() {
		s.log(ev{"e": "hend", "h": h})
		s.mu.Lock()
		s.hruns--
		s.mu.Unlock()
	}()
	f := (*qrpc.Frame)(rf)
	switch k := s.rnd(8); {
	case k < 2:
	case k < 5:
		s.nap()
	case k < 7:
		// outlives the network connection
		select {
		case <-s.gate:
		case <-s.over:
		}
	default:
		s.mu.Lock()
		s.hctx[h] = nt
		s.mu.Unlock()
		select {
		case <-f.Context().Done():
			s.log(ev{"e": "hctx", "h": h})
		case <-s.over:
			return
		}
		s.mu.Lock()
		delete(s.hctx, h)
		s.mu.Unlock()
	}
	n := s.rnd(4)
	for k := 0; k < n; k++ {
		c := s.newOp(nt, false, false)
		fl := qrpc.StreamFlag
		if k == n-1 {
			fl = qrpc.StreamEndFlag
			if n == 1 {
				fl = 0
			}
		}
		w.StartWrite(rf.RequestID, qrpc.Cmd(c.o), fl)
		w.WriteBytes([]byte("out"))
		err := w.EndWrite()
		s.ret(c, err, "ret")
		if s.rnd(3) == 0 {
			s.nap()
		}
	}
	if s.rnd(30) == 0 && !s.settling() {
		s.closeConn()
	}
}

func (s *recRun) settling() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.settles
}

func (s *recRun) sub(c *qrpc.Connection, f *qrpc.Frame) {
	s.log(ev{"e": "sub", "n": int(f.Cmd), "p": int(binary.BigEndian.Uint32(f.Payload))})
	s.mu.Lock()
	s.pushes[int(f.Cmd)]--
	s.mu.Unlock()
	if s.rnd(6) == 0 {
		s.nap()
	}
}

func be(v int) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, uint32(v))
	return b
}

// answer makes the peer answer something on the network connection.
func (s *recRun) answer(nt *recNet, fully bool) bool {
	s.mu.Lock()
	if len(nt.open) == 0 {
		s.mu.Unlock()
		return false
	}
	j := s.r.Intn(len(nt.open))
	op := nt.open[j]
	k := s.r.Intn(8)
	if fully {
		k = s.r.Intn(3)
	}
	s.ntag++
	t := s.ntag
	first := !op.stream
	if k < 5 || k == 7 && op.plain {
		nt.open = append(nt.open[:j], nt.open[j+1:]...)
		op.end = true
	}
	op.stream = true
	s.mu.Unlock()
	switch {
	case k == 7 && op.plain:
		s.log(ev{"e": "preset", "n": nt.n, "o": op.o})
		nt.fc.PeerSend(encodeFrame(op.id, 0, fStream|fRst, nil))
	case k < 5:
		fl := byte(fStream | fEnd)
		if first && k < 3 {
			fl = 0
		}
		s.log(ev{"e": "answer", "n": nt.n, "o": op.o, "t": t, "last": true})
		nt.fc.PeerSend(encodeFrame(op.id, 1, fl, be(t)))
	default:
		s.log(ev{"e": "answer", "n": nt.n, "o": op.o, "t": t, "last": false})
		nt.fc.PeerSend(encodeFrame(op.id, 1, fStream, be(t)))
	}
	return true
}

// stale answers a request of an earlier network connection.
func (s *recRun) stale(nt *recNet) {
	s.mu.Lock()
	var op *recOp
	for _, x := range s.ops {
		if x.resp && x.plain && !x.stale && x.net != 0 && x.net != nt.n && s.nets[x.net-1].why {
			op = x
		}
	}
	s.ntag++
	t := s.ntag
	k := s.r.Intn(3)
	s.mu.Unlock()
	if op == nil {
		return
	}
	op.stale = true
	nt.fc.PeerSend(encodeFrame(op.id, 1, []byte{0, fStream | fEnd, fStream | fRst}[k], be(t)))
}

func (s *recRun) latest() *recNet {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.nets) == 0 {
		return nil
	}
	return s.nets[len(s.nets)-1]
}

// peer acts on the latest network connection.
func (s *recRun) peer() {
	nt := s.latest()
	if nt == nil || nt.why {
		return
	}
	switch k := s.rnd(10); {
	case k < 5:
		s.answer(nt, false)
	case k < 7 && s.handler:
		s.mu.Lock()
		s.nh++
		h := s.nh
		id := nt.id
		nt.id += 2
		nt.hOf[id] = h
		s.hreq[h] = nt.n
		s.mu.Unlock()
		s.log(ev{"e": "preq", "n": nt.n, "h": h})
		nt.fc.PeerSend(encodeFrame(id, uint32(nt.n), fNB, be(h)))
	case k < 9:
		s.mu.Lock()
		s.ntag++
		p := s.ntag
		id := nt.id
		nt.id += 2
		s.pushes[nt.n]++
		s.mu.Unlock()
		s.log(ev{"e": "ppush", "n": nt.n, "p": p})
		nt.fc.PeerSend(encodeFrame(id, uint32(nt.n), fPush, be(p)))
	case !s.handler:
		s.stale(nt)
	}
}

// cut ends the latest network connection.
func (s *recRun) cut() {
	nt := s.latest()
	if nt == nil || nt.why {
		return
	}
	s.mu.Lock()
	nt.why = true
	s.mu.Unlock()
	s.log(ev{"e": "cause", "n": nt.n})
	switch s.rnd(4) {
	case 0:
		nt.fc.PeerErr(errors.New("lost"))
	case 1:
		nt.fc.mu.Lock()
		nt.fc.wplan = func(n int) (int, error) {
			s.mu.Lock()
			defer s.mu.Unlock()
			return s.r.Intn(n + 1), &net.OpError{Op: "write", Net: "fake", Err: errors.New("lost")}
		}
		nt.fc.mu.Unlock()
		if s.rnd(2) == 0 {
			s.nap()
			nt.fc.PeerEOF()
		} else {
			// garbage
			nt.fc.PeerSend([]byte{0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0})
		}
	default:
		nt.fc.PeerEOF()
	}
}

func (s *recRun) closeConn() {
	s.mu.Lock()
	first := !s.waitret
	s.closing = s.closing || first
	s.waitret = true
	s.mu.Unlock()
	s.log(ev{"e": "closecall"})
	err := s.conn.Close()
	s.log(ev{"e": "closeret", "ok": err == nil})
	if first {
		s.wg.Add(1)
		go func() {
			defer s.wg.Done()
			s.conn.Wait()
			s.log(ev{"e": "waitret"})
			s.mu.Lock()
			s.closing = false
			s.mu.Unlock()
		}()
	}
}

func (s *recRun) isClosed() {
	s.tr.mu.Lock()
	b := s.conn.IsClosed()
	s.tr.evs = append(s.tr.evs, ev{"e": "isclosed", "b": b})
	s.tr.mu.Unlock()
}

func (s *recRun) until(d time.Duration, cond func() bool) bool {
	for end := time.Now().Add(d); !cond(); {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(100 * time.Microsecond)
	}
	return true
}

func (s *recRun) quiet() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.calls == 0 && len(s.waiters) == 0 && !s.closing
}

// closed waits for the end of a closed connection.
func (s *recRun) closed() {
	if !s.conn.IsClosed() {
		return
	}
	s.mu.Lock()
	self := !s.waitret
	s.mu.Unlock()
	if self {
		s.closeConn()
	}
	s.until(8*time.Second, s.quiet)
	s.isClosed()
}

func recOne(_ string, seed int) []ev {
	s := &recRun{tr: &trace{}, r: rand.New(rand.NewSource(int64(seed))), ops: map[int]*recOp{}, waiters: map[int]int{}, hctx: map[int]int{}, pushes: map[int]int{}, hreq: map[int]int{}, gate: make(chan struct{}, 100), over: make(chan struct{})}
	again := s.rnd(4) > 0
	n := 1
	if again {
		n = 1 + s.rnd(4)
	}
	for i := 0; i < n; i++ {
		s.addrs = append(s.addrs, fmt.Sprint("addr", i))
	}
	s.slow = s.rnd(40) == 0
	s.handler = s.rnd(2) == 0
	if s.rnd(30) == 0 {
		s.cbClose = 1 + s.rnd(2)
	}
	s.log(ev{"e": "conf", "n": n, "again": again})
	conf := qrpc.ConnectionConfig{OverlayNetwork: s.dial, WriteFrameChSize: []int{0, 1, 3, 16}[s.rnd(4)]}
	if s.handler {
		conf.Handler = qrpc.HandlerFunc(s.serve)
	}
	ready := make(chan struct{})
	conf.LifecycleCallbacks.OnConnect = func(c *qrpc.Connection) {
		s.log(ev{"e": "onconn"})
		s.mu.Lock()
		s.nconn++
		s.mu.Unlock()
		s.nap()
		if s.cbClose == 1 && s.rnd(3) == 0 {
			<-ready
			s.closeConn()
		}
	}
	conf.LifecycleCallbacks.OnDisconnect = func(c *qrpc.Connection) {
		s.nap()
		s.log(ev{"e": "ondisc"})
		if s.cbClose == 2 && s.rnd(3) == 0 {
			<-ready
			s.closeConn()
		}
	}
	if again {
		s.conn = qrpc.NewConnectionWithReconnect(s.addrs, conf, s.sub)
	} else {
		s.nofail = s.rnd(20) > 0
		c, err := qrpc.NewConnection(s.addrs[0], conf, s.sub)
		if err != nil {
			return s.tr.events()
		}
		s.conn = c
	}
	close(ready)
	user := func(f func()) {
		s.mu.Lock()
		s.calls++
		s.mu.Unlock()
		s.wg.Add(1)
		go func() {
			defer s.wg.Done()
			f()
			s.mu.Lock()
			s.calls--
			s.mu.Unlock()
		}()
	}
	calls := func() int {
		s.mu.Lock()
		defer s.mu.Unlock()
		return len(s.waiters) + s.calls
	}
	steps := 10 + s.rnd(50)
	cuts := s.rnd(5)
	if !again {
		cuts = 1
	}
	for ; steps > 0; steps-- {
		switch k := s.rnd(24); {
		case k < 6:
			if calls() < 8 {
				user(func() { s.request() })
			}
		case k < 7:
			user(s.push)
		case k < 9:
			if calls() < 8 {
				user(s.streamRequest)
			}
		case k < 10:
			user(s.reset)
		case k < 17:
			s.peer()
		case k < 19:
			if cuts > 0 && s.rnd(2) == 0 {
				cuts--
				s.cut()
			}
		case k < 20:
			select {
			case s.gate <- struct{}{}:
			default:
			}
		case k < 21:
			s.isClosed()
		case k < 22:
			if s.rnd(12) == 0 {
				user(s.closeConn)
			}
		default:
			s.nap()
		}
		if s.rnd(3) == 0 {
			s.nap()
		}
	}
	// settle
	s.mu.Lock()
	s.nofail = true
	s.settles = true
	s.mu.Unlock()
	for k := 0; k < 50; k++ {
		select {
		case s.gate <- struct{}{}:
		default:
		}
	}
	pump := func() {
		s.mu.Lock()
		nets := append([]*recNet(nil), s.nets...)
		s.mu.Unlock()
		for _, nt := range nets {
			for !nt.why && s.answer(nt, true) {
			}
		}
	}
	end := time.Now().Add(15 * time.Second)
	served := make(chan struct{})
	stop := false
	var smu sync.Mutex
	stopped := func() bool { smu.Lock(); defer smu.Unlock(); return stop }
	user(func() {
		for !s.conn.IsClosed() && !stopped() {
			if s.request() && !s.conn.IsClosed() {
				if nt := s.latest(); nt != nil && !nt.why && !nt.fc.isClosed() {
					break
				}
			}
			time.Sleep(2 * time.Millisecond)
		}
		close(served)
	})
	for time.Now().Before(end) {
		pump()
		ok := false
		select {
		case <-served:
			ok = s.quiet()
		default:
		}
		if ok {
			nt := s.latest()
			if nt == nil || nt.why || s.conn.IsClosed() || nt.fc.Parked() {
				time.Sleep(3 * time.Millisecond)
				if s.quiet() && (nt == nil || nt == s.latest()) {
					break
				}
			}
		}
		time.Sleep(200 * time.Microsecond)
	}
	if time.Now().After(end) && os.Getenv("RECDEBUG") != "" {
		nt := s.latest()
		s.mu.Lock()
		println("slow", seed, s.calls, len(s.waiters), s.closing, nt != nil && nt.why, s.conn.IsClosed(), nt != nil && nt.fc.Parked())
		s.mu.Unlock()
	}
	s.closed()
	// handlers of lost network connections
	s.until(5*time.Second, func() bool {
		s.mu.Lock()
		defer s.mu.Unlock()
		for _, n := range s.hctx {
			if s.nets[n-1].why || s.conn.IsClosed() {
				return false
			}
		}
		for _, n := range s.hreq {
			if n == len(s.nets) && !s.nets[n-1].why && !s.conn.IsClosed() {
				return false
			}
		}
		if n := len(s.nets); n > 0 && !s.nets[n-1].why && !s.conn.IsClosed() && (s.nconn < n || s.pushes[n] > 0) {
			return false
		}
		return s.hruns == len(s.hctx)
	})
	s.closed()
	s.log(ev{"e": "fin"})
	es := s.tr.events()
	for k, e := range es {
		if e["e"] == "fin" {
			es = es[:k+1]
			break
		}
	}
	smu.Lock()
	stop = true
	smu.Unlock()
	close(s.over)
	go func() {
		s.conn.Close()
		for _, nt := range s.nets {
			nt.fc.PeerEOF()
		}
	}()
	return es
}

func famRec(g *globals) (*results, interface{}, error) {
	return recordTraces(g, func(seed int) []ev { return recOne(g.cfg, seed) })
}
