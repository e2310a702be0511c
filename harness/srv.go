package main

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

// A server with two bindings under random concurrent use of its API. Records
// traces for ServerTrace.tla.

// qListener is a listener that logs exactly when it hands out a connection.
type qListener struct {
	mu     sync.Mutex
	cond   *sync.Cond
	q      []*FConn
	closed bool
	b      int
	tr     *trace
	temp   int // temporary errors still to be reported
	thr    bool
}

type tempErr struct{}

func (tempErr) Error() string   { return "temporary" }
func (tempErr) Timeout() bool   { return false }
func (tempErr) Temporary() bool { return true }

func newQListener(b int, tr *trace) *qListener {
	l := &qListener{b: b, tr: tr}
	l.cond = sync.NewCond(&l.mu)
	return l
}

func (l *qListener) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.tr.log(ev{"e": "acceptcall", "b": l.b})
	for {
		if l.closed {
			if l.thr {
				l.tr.log(ev{"e": "accepterr", "b": l.b})
			}
			return nil, &net.OpError{Op: "accept", Net: "fake", Err: net.ErrClosed}
		}
		if l.temp > 0 {
			l.temp--
			if l.thr {
				l.tr.log(ev{"e": "accepterr", "b": l.b})
			}
			return nil, tempErr{}
		}
		if len(l.q) > 0 {
			c := l.q[0]
			l.q = l.q[1:]
			l.tr.log(ev{"e": "accept", "c": c.user.(int)})
			return c, nil
		}
		l.cond.Wait()
	}
}

func (l *qListener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return nil
	}
	l.closed = true
	l.tr.log(ev{"e": "lnclose", "b": l.b})
	l.cond.Broadcast()
	return nil
}

func (l *qListener) Addr() net.Addr { return faddr("q") }

func (l *qListener) offer(c *FConn) {
	l.mu.Lock()
	l.q = append(l.q, c)
	l.tr.log(ev{"e": "offer", "c": c.user.(int), "b": l.b})
	l.cond.Broadcast()
	l.mu.Unlock()
}

type srvCfg struct {
	Focus string `json:"focus"` // ids, life, shutdown
}

type srvConn struct {
	c     int
	b     int
	fc    *FConn
	ci    *qrpc.ConnectionInfo
	setid bool
	eof   bool
}

type srvRun struct {
	cfg   srvCfg
	tr    *trace
	r     *rand.Rand
	mu    sync.Mutex
	srv   *qrpc.Server
	ls    []*qListener
	conns []*srvConn
	n     int32
	busy  sync.WaitGroup
	stop  chan struct{}
}

func (s *srvRun) rnd(n int) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.r.Intn(n)
}

func (s *srvRun) next() int { return int(atomic.AddInt32(&s.n, 1)) }

func (s *srvRun) byName(name string) *srvConn {
	n, err := strconv.Atoi(name)
	if err != nil {
		return nil
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.conns[n-1]
}

func (s *srvRun) dial(b int) *srvConn {
	s.mu.Lock()
	c := &srvConn{c: len(s.conns) + 1, b: b}
	s.conns = append(s.conns, c)
	s.mu.Unlock()
	fc := newFConn(strconv.Itoa(c.c))
	fc.user = c.c
	fc.onClose = func() { s.tr.log(ev{"e": "closes", "c": c.c}) }
	fc.onFrame = func(f WFrame) {
		if f.Flags&fPush != 0 {
			s.tr.log(ev{"e": "got", "c": c.c, "t": f.Cmd})
		}
	}
	c.fc = fc
	s.ls[b].offer(fc)
	// the connection makes itself known with its first request
	fc.PeerSend(encodeFrame(1, 1, byte(s.rnd(2)*fNB), nil))
	return c
}

func (s *srvRun) handler(w qrpc.FrameWriter, rf *qrpc.RequestFrame) {
	ci := rf.ConnectionInfo()
	c := s.byName(ci.RemoteAddr())
	r := int(rf.RequestID)
	s.tr.log(ev{"e": "start", "c": c.c, "r": r})
	s.mu.Lock()
	c.ci = ci
	s.mu.Unlock()
	k := s.rnd(10)
	if r == 1 {
		k = 0
	}
	switch {
	case k < 5:
		w.StartWrite(rf.RequestID, 0, 0)
		w.EndWrite()
	case k < 7:
		time.Sleep(time.Duration(s.rnd(500)) * time.Microsecond)
	case k == 7:
		s.tr.log(ev{"e": "cause", "c": c.c})
		go rf.Close()
	case k == 8:
		select {
		case <-rf.Context().Done():
			time.Sleep(time.Duration(s.rnd(1500)) * time.Microsecond)
		case <-time.After(time.Duration(s.rnd(4000)) * time.Microsecond):
		}
	case k == 9:
		if s.rnd(2) == 0 {
			defer func() { panic("scripted") }()
		}
	}
	s.tr.log(ev{"e": "hend", "c": c.c, "r": r})
}

// pick returns a connection known to the application, perhaps closed
func (s *srvRun) pick() *srvConn {
	s.mu.Lock()
	defer s.mu.Unlock()
	var k []*srvConn
	for _, c := range s.conns {
		if c.ci != nil {
			k = append(k, c)
		}
	}
	if len(k) == 0 {
		return nil
	}
	return k[s.r.Intn(len(k))]
}

func (s *srvRun) xs(b int) (string, int) {
	k := s.rnd(2)
	return fmt.Sprintf("id%d", k), 2*b + k + 1
}

func (s *srvRun) num(ci *qrpc.ConnectionInfo) int {
	if ci == nil {
		return 0
	}
	return s.byName(ci.RemoteAddr()).c
}

func (s *srvRun) reg(c *srvConn) {
	k := s.next()
	s.tr.log(ev{"e": "regcall", "k": k, "c": c.c})
	c.ci.NotifyWhenClose(func() { s.tr.log(ev{"e": "notify", "k": k}) })
	s.tr.log(ev{"e": "regret", "k": k})
}

func (s *srvRun) visit(c int, w qrpc.FrameWriter) {
	if s.rnd(3) > 0 {
		return
	}
	t := s.next()
	s.tr.log(ev{"e": "wsub", "c": c, "t": t})
	w.StartWrite(uint64(t), qrpc.Cmd(t), qrpc.PushFlag)
	err := w.EndWrite()
	s.tr.log(ev{"e": "wret", "c": c, "t": t, "r": okErr(err)})
}

func (s *srvRun) setid(c *srvConn) {
	s.mu.Lock()
	done := c.setid
	c.setid = true
	s.mu.Unlock()
	if done {
		return
	}
	s.setidx(c, s.rnd(2))
}

func (s *srvRun) setidx(c *srvConn, k int) {
	o := s.next()
	id, x := fmt.Sprintf("id%d", k), 2*c.b+k+1
	s.tr.log(ev{"e": "setidcall", "o": o, "c": c.c, "x": x})
	kick, ko := c.ci.SetID(id)
	s.tr.log(ev{"e": "setidret", "o": o, "kick": kick, "ko": ko})
}

func (s *srvRun) shutdown() {
	o := s.next()
	s.tr.log(ev{"e": "sdcall", "o": o})
	s.srv.Shutdown()
	s.tr.log(ev{"e": "sdret", "o": o})
}

func (s *srvRun) onShutdown() {
	k := s.next()
	s.tr.log(ev{"e": "oscall", "k": k})
	s.srv.OnShutdown(func() { s.tr.log(ev{"e": "osrun", "k": k}) })
	s.tr.log(ev{"e": "osret", "k": k})
}

func (s *srvRun) lookup(b int) {
	id, x := s.xs(b)
	o := s.next()
	s.tr.log(ev{"e": "lookupcall", "o": o, "x": x})
	ci := s.srv.GetConnectionInfoByID(b, id)
	s.tr.log(ev{"e": "lookupret", "o": o, "c": s.num(ci)})
}

func (s *srvRun) close(c *srvConn) {
	o := s.next()
	s.tr.log(ev{"e": "closecall", "o": o, "c": c.c})
	c.ci.Close()
	s.tr.log(ev{"e": "closeret", "o": o})
}

func (s *srvRun) walk(b, n int) {
	o := s.next()
	s.tr.log(ev{"e": "walkcall", "o": o, "b": b, "n": n})
	left := n
	s.srv.WalkConn(b, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
		c := s.num(ci)
		s.tr.log(ev{"e": "walkvisit", "o": o, "c": c})
		s.visit(c, w)
		left--
		return left > 0
	})
	s.tr.log(ev{"e": "walkret", "o": o})
}

// act does something at random.
func (s *srvRun) act() {
	weights := map[string][]int{
		//            dial setid lookup walkid walk reg close eof garbage request os shutdown race several
		"ids":      {3, 6, 3, 2, 1, 0, 2, 1, 0, 1, 0, 0, 4, 5},
		"life":     {3, 1, 0, 0, 1, 5, 3, 2, 2, 4, 0, 0, 2, 0},
		"shutdown": {3, 1, 0, 0, 0, 2, 1, 1, 0, 3, 2, 1, 1, 1},
	}[s.cfg.Focus]
	sum := 0
	for _, w := range weights {
		sum += w
	}
	k := s.rnd(sum)
	what := 0
	for k >= weights[what] {
		k -= weights[what]
		what++
	}
	c := s.pick()
	if c == nil && (what == 1 || what >= 5 && what <= 9 || what >= 12) {
		what = 0
	}
	switch what {
	case 0:
		s.mu.Lock()
		full := len(s.conns) >= 7
		s.mu.Unlock()
		if !full {
			s.dial(s.rnd(2))
		}
	case 1:
		s.setid(c)
	case 2:
		s.lookup(s.rnd(2))
	case 3:
		b := s.rnd(2)
		var ids []string
		var xs []int
		for i := 1 + s.rnd(3); i > 0; i-- {
			id, x := s.xs(b)
			ids, xs = append(ids, id), append(xs, x)
		}
		o := s.next()
		s.tr.log(ev{"e": "walkidcall", "o": o, "ids": xs})
		s.srv.WalkConnByID(b, ids, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo, i int) {
			n := s.num(ci)
			s.tr.log(ev{"e": "walkidvisit", "o": o, "c": n, "i": i + 1})
			s.visit(n, w)
		})
		s.tr.log(ev{"e": "walkidret", "o": o})
	case 4:
		s.walk(s.rnd(2), []int{1, 2, 100}[s.rnd(3)])
	case 12:
		// binding an id while the connection goes away
		var wg sync.WaitGroup
		wg.Add(2)
		k, d := s.rnd(3), s.rnd(3)*s.rnd(20)
		go func() {
			defer wg.Done()
			s.setid(c)
		}()
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(d) * time.Microsecond)
			switch k {
			case 0:
				s.tr.log(ev{"e": "cause", "c": c.c})
				c.fc.PeerEOF()
			case 1:
				s.close(c)
			case 2:
				s.reg(c)
				s.close(c)
			}
		}()
		wg.Wait()
		s.lookup(c.b)
		s.lookup(c.b)
		s.walk(c.b, 100)
	case 13:
		// several newcomers for the same id at the same time
		var cs []*srvConn
		s.mu.Lock()
		for _, d := range s.conns {
			if d.ci != nil && d.b == c.b && !d.setid && len(cs) < 3 {
				d.setid = true
				cs = append(cs, d)
			}
		}
		s.mu.Unlock()
		k := s.rnd(2)
		if len(cs) == 3 {
			s.setidx(cs[0], k)
			cs = cs[1:]
		}
		var wg sync.WaitGroup
		for _, d := range cs {
			wg.Add(1)
			go func(d *srvConn) {
				defer wg.Done()
				s.setidx(d, k)
			}(d)
		}
		wg.Wait()
		s.lookup(c.b)
		s.walk(c.b, 100)
	case 5:
		s.reg(c)
	case 6:
		s.close(c)
	case 7:
		s.tr.log(ev{"e": "cause", "c": c.c})
		c.fc.PeerEOF()
	case 8:
		s.tr.log(ev{"e": "cause", "c": c.c})
		c.fc.PeerSend(make([]byte, 16))
	case 9:
		c.fc.PeerSend(encodeFrame(uint64(2*s.next()+1), 1, byte(s.rnd(2)*fNB), nil))
	case 10:
		s.onShutdown()
	case 11:
		if s.rnd(3) == 0 {
			s.shutdown()
		}
	}
}

func srvOne(cfg srvCfg, seed int) []ev {
	s := &srvRun{cfg: cfg, tr: &trace{}, r: rand.New(rand.NewSource(int64(seed))), stop: make(chan struct{})}
	s.n = 100
	bs := make([]qrpc.ServerBinding, 3)
	rate := 0
	if s.rnd(12) == 0 {
		rate = 2000
	}
	for b := range bs {
		bs[b] = qrpc.ServerBinding{
			Handler: qrpc.HandlerFunc(s.handler), WriteFrameChSize: s.rnd(3), ReadFrameChSize: 0, MaxCloseRate: rate,
			OnKickCB: func(w qrpc.FrameWriter) {
				t := s.next()
				s.tr.log(ev{"e": "kickcb", "t": t})
				if s.rnd(2) == 0 {
					time.Sleep(time.Duration(s.rnd(300)) * time.Microsecond)
				}
				w.StartWrite(uint64(t), qrpc.Cmd(t), qrpc.PushFlag)
				w.EndWrite()
			},
			LifecycleCallbacks: qrpc.ServerLifecycleCallbacks{
				OnAccept: func(c net.Conn) error {
					ok := s.rnd(8) > 0
					s.tr.log(ev{"e": "onaccept", "c": c.(*FConn).user.(int), "ok": ok})
					if !ok {
						return errors.New("rejected")
					}
					return nil
				},
				OnClose: func(c net.Conn) { s.tr.log(ev{"e": "onclose", "c": c.(*FConn).user.(int)}) },
			},
		}
	}
	s.srv = qrpc.NewServer(bs)
	var serves sync.WaitGroup
	serve := func(b int) {
		l := newQListener(b, s.tr)
		l.temp = s.rnd(4) / 3
		s.ls = append(s.ls, l)
		s.tr.log(ev{"e": "servecall", "b": b})
		serves.Add(1)
		go func() {
			defer serves.Done()
			err := s.srv.Serve(l, b)
			s.tr.log(ev{"e": "serveret", "b": b, "closed": err == qrpc.ErrServerClosed})
		}()
	}
	serve(0)
	serve(1)
	for i := 0; i < 4; i++ {
		s.dial(i % 3 % 2)
	}
	actors := 2 + s.rnd(3)
	per := 4 + s.rnd(5)
	for a := 0; a < actors; a++ {
		s.busy.Add(1)
		go func() {
			defer s.busy.Done()
			for i := 0; i < per; i++ {
				s.act()
				if s.rnd(3) == 0 {
					time.Sleep(time.Duration(s.rnd(200)) * time.Microsecond)
				}
			}
		}()
	}
	ok := waitFor(&s.busy, 20*time.Second)
	if ok {
		done := make(chan struct{})
		go func() {
			s.shutdown()
			serve(2) // too late
			serves.Wait()
			s.onShutdown()
			s.mu.Lock()
			cs := append([]*srvConn(nil), s.conns...)
			s.mu.Unlock()
			for _, c := range cs {
				if c.ci != nil {
					s.reg(c)
				}
			}
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
		}
		time.Sleep(2 * time.Millisecond)
	}
	s.tr.log(ev{"e": "end"})
	return s.tr.events()
}

// waitFor tells whether the group finished in time.
func waitFor(wg *sync.WaitGroup, d time.Duration) bool {
	ch := make(chan struct{})
	go func() {
		wg.Wait()
		close(ch)
	}()
	select {
	case <-ch:
		return true
	case <-time.After(d):
		return false
	}
}

func famSrv(g *globals) (*results, interface{}, error) {
	var cfg srvCfg
	must(jsonUnmarshal(g.cfg, &cfg))
	return recordTraces(g, func(seed int) []ev { return srvOne(cfg, seed) })
}
