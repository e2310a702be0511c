package main

import (
	"math/rand"
	"net"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

// A server whose bindings are throttled at random. Records traces for
// ThrottleTrace.tla.

type thrRun struct {
	tr      *trace
	mu      sync.Mutex
	r       *rand.Rand
	srv     *qrpc.Server
	ls      []*qListener
	conns   []*thrConn
	n       int32
	stopped bool
}

type thrConn struct {
	c, b    int
	fc      *FConn
	smu     sync.Mutex // one sender at a time
	next    int
	cause   bool
	started int32
	ci      *qrpc.ConnectionInfo
	over    chan struct{}
}

func (s *thrRun) rnd(n int) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.r.Intn(n)
}

func (s *thrRun) op() int { return int(atomic.AddInt32(&s.n, 1)) }

func (s *thrRun) handler(w qrpc.FrameWriter, rf *qrpc.RequestFrame) {
	n, _ := strconv.Atoi(rf.ConnectionInfo().RemoteAddr())
	s.mu.Lock()
	c := s.conns[n-1]
	c.ci = rf.ConnectionInfo()
	s.mu.Unlock()
	r := int(rf.RequestID) / 2
	s.tr.log(ev{"e": "start", "c": n, "r": r})
	atomic.AddInt32(&c.started, 1)
	if k := s.rnd(4); k == 0 {
		time.Sleep(time.Duration(s.rnd(300)) * time.Microsecond)
	} else if k < 3 {
		w.StartWrite(rf.RequestID, 0, 0)
		w.EndWrite()
	}
	s.tr.log(ev{"e": "hend", "c": n, "r": r})
}

func (s *thrRun) set(b int) {
	o := s.op()
	s.tr.log(ev{"e": "setcall", "o": o, "b": b})
	s.srv.SetThrottle(b)
	s.tr.log(ev{"e": "thret", "o": o})
}

func (s *thrRun) clear(b int) {
	o := s.op()
	s.tr.log(ev{"e": "clrcall", "o": o, "b": b})
	s.srv.ClearThrottle(b)
	s.tr.log(ev{"e": "thret", "o": o})
}

func (s *thrRun) dial(b int) {
	s.mu.Lock()
	if len(s.conns) >= 8 {
		s.mu.Unlock()
		return
	}
	c := &thrConn{c: len(s.conns) + 1, b: b, over: make(chan struct{})}
	fc := newFConn(strconv.Itoa(c.c))
	fc.user = c.c
	fc.onClose = func() { s.tr.log(ev{"e": "closes", "c": c.c}) }
	c.fc = fc
	s.conns = append(s.conns, c)
	s.mu.Unlock()
	s.ls[b].offer(fc)
}

func (s *thrRun) pick() *thrConn {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.conns) == 0 {
		return nil
	}
	return s.conns[s.r.Intn(len(s.conns))]
}

func (s *thrRun) send(c *thrConn) {
	c.smu.Lock()
	defer c.smu.Unlock()
	if c.cause {
		return
	}
	// frames of one batch arrive with one read
	var b []byte
	for k := 1 + s.rnd(3)*s.rnd(2); k > 0; k-- {
		c.next++
		nb := s.rnd(2)
		s.tr.log(ev{"e": "send", "c": c.c, "r": c.next, "nb": nb == 1})
		b = append(b, encodeFrame(uint64(2*c.next+1), 1, byte(nb*fNB), nil)...)
	}
	c.fc.PeerSend(b)
}

func (s *thrRun) end(c *thrConn) {
	c.smu.Lock()
	c.cause = true
	c.smu.Unlock()
	s.mu.Lock()
	ci := c.ci
	s.mu.Unlock()
	if ci == nil || s.rnd(3) == 0 {
		s.tr.log(ev{"e": "cause", "c": c.c})
		c.fc.PeerEOF()
		return
	}
	defer func() {
		// also while the throttle is set
		select {
		case <-c.over:
		case <-time.After(5 * time.Second):
		}
		s.tr.log(ev{"e": "gone", "c": c.c})
	}()
	o := s.op()
	s.tr.log(ev{"e": "closecall", "o": o, "c": c.c})
	ci.Close()
	s.tr.log(ev{"e": "closeret", "o": o})
}

// settled waits until a binding has nothing left to do
func (s *thrRun) settled(b int) {
	end := time.Now().Add(10 * time.Second)
	for {
		s.mu.Lock()
		cs := append([]*thrConn(nil), s.conns...)
		s.mu.Unlock()
		done := true
		for _, c := range cs {
			c.smu.Lock()
			if c.b == b && !c.cause && int(atomic.LoadInt32(&c.started)) < c.next {
				done = false
			}
			c.smu.Unlock()
		}
		l := s.ls[b]
		l.mu.Lock()
		if len(l.q) > 0 {
			done = false
		}
		l.mu.Unlock()
		if done || time.Now().After(end) {
			break
		}
		time.Sleep(50 * time.Microsecond)
	}
	s.tr.log(ev{"e": "settled", "b": b})
}

func thrOne(seed int) []ev {
	s := &thrRun{tr: &trace{}, r: rand.New(rand.NewSource(int64(seed)))}
	bs := make([]qrpc.ServerBinding, 2)
	for b := range bs {
		bs[b] = qrpc.ServerBinding{Handler: qrpc.HandlerFunc(s.handler),
			LifecycleCallbacks: qrpc.ServerLifecycleCallbacks{OnClose: func(c net.Conn) {
				n := c.(*FConn).user.(int)
				s.tr.log(ev{"e": "onclose", "c": n})
				s.mu.Lock()
				close(s.conns[n-1].over)
				s.mu.Unlock()
			}}}
	}
	s.srv = qrpc.NewServer(bs)
	var serves sync.WaitGroup
	for b := range bs {
		l := newQListener(b, s.tr)
		l.temp = s.rnd(8) / 7
		l.thr = true
		s.ls = append(s.ls, l)
		serves.Add(1)
		go func(b int) {
			defer serves.Done()
			s.srv.Serve(l, b)
		}(b)
	}
	var all sync.WaitGroup
	all.Add(1)
	go func() {
		defer all.Done()
		s.dial(0)
		s.dial(1)
		for phase := 1 + s.rnd(2); phase > 0; phase-- {
			var wg sync.WaitGroup
			tb := s.rnd(3)
			if tb == 2 {
				tb = 0
			}
			for a := 1 + s.rnd(3); a > 0; a-- {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 1 + s.rnd(4); i > 0; i-- {
						if s.rnd(5) < 3 {
							s.set(tb)
						} else {
							s.clear(tb)
						}
						if s.rnd(2) == 0 {
							time.Sleep(time.Duration(s.rnd(150)) * time.Microsecond)
						}
					}
				}()
			}
			for a := 1 + s.rnd(2); a > 0; a-- {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 2 + s.rnd(4); i > 0; i-- {
						switch k := s.rnd(12); {
						case k < 2:
							s.dial(s.rnd(2))
						case k == 2:
							s.end(s.pick())
						default:
							s.send(s.pick())
						}
						if s.rnd(2) == 0 {
							time.Sleep(time.Duration(s.rnd(150)) * time.Microsecond)
						}
					}
				}()
			}
			wg.Wait()
			if s.rnd(2) == 0 {
				// time for whatever should not happen
				s.set(tb)
				for i := s.rnd(5); i > 0; i-- {
					if s.rnd(3) == 0 {
						s.dial(tb)
					} else {
						s.send(s.pick())
					}
				}
				time.Sleep(time.Duration(s.rnd(1000)) * time.Microsecond)
				if s.rnd(4) == 0 {
					s.end(s.pick())
				}
			}
			s.settled(1 - tb)
			s.clear(tb)
			s.settled(tb)
		}
		if s.rnd(2) == 0 {
			s.set(0)
			s.send(s.pick())
			s.send(s.pick())
			s.end(s.pick())
		}
		o := s.op()
		s.tr.log(ev{"e": "sdcall", "o": o})
		s.srv.Shutdown()
		serves.Wait()
		s.tr.log(ev{"e": "sdret", "o": o})
	}()
	waitFor(&all, 30*time.Second)
	s.tr.log(ev{"e": "end"})
	return s.tr.events()
}

func famThr(g *globals) (*results, interface{}, error) {
	return recordTraces(g, thrOne)
}
