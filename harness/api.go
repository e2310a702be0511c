package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

// A pool of endpoints. Records traces for ApiTrace.tla.

type apiReq struct {
	o  int
	id uint64
}

type apiNet struct {
	n, ep int
	fc    *FConn
	why   bool
	open  []apiReq
}

type apiRun struct {
	tr     *trace
	mu     sync.Mutex
	r      *rand.Rand
	eps    []string
	nets   []*apiNet
	nop    int
	ntag   int
	calls  int
	pfail  int
	settle bool
	kind   map[int]string
	cancel map[int]func()
	gone   map[int]bool // cancelled
	api    qrpc.API
	wg     sync.WaitGroup
}

func (s *apiRun) rnd(n int) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.r.Intn(n)
}

func (s *apiRun) log(e ev) { s.tr.log(e) }

func (s *apiRun) nap() {
	if k := s.rnd(10); k > 3 {
		time.Sleep(time.Duration(s.rnd([]int{100, 300, 2000}[k%3])) * time.Microsecond)
	}
}

func (s *apiRun) dial(addr string, _ qrpc.DialConfig) (net.Conn, error) {
	ep := 0
	for i, x := range s.eps {
		if x == addr {
			ep = i + 1
		}
	}
	s.log(ev{"e": "dial", "ep": ep})
	s.nap()
	s.mu.Lock()
	if s.r.Intn(100) < s.pfail {
		s.mu.Unlock()
		s.log(ev{"e": "dialfail", "ep": ep})
		return nil, errors.New("dial")
	}
	nt := &apiNet{n: len(s.nets) + 1, ep: ep}
	fc := newFConn(fmt.Sprint("net", nt.n))
	nt.fc = fc
	fc.rchunk = []int{0, 0, 0, 1, 17}[s.r.Intn(5)]
	fc.onFrame = func(f WFrame) { s.onFrame(nt, f) }
	fc.onClose = func() { s.log(ev{"e": "netclose", "n": nt.n}) }
	s.log(ev{"e": "dialok", "ep": ep, "n": nt.n})
	s.nets = append(s.nets, nt)
	s.mu.Unlock()
	return fc, nil
}

func (s *apiRun) onFrame(nt *apiNet, f WFrame) {
	if f.Flags&fRst != 0 {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.log(ev{"e": "sent", "n": nt.n, "o": int(f.Cmd)})
	nt.open = append(nt.open, apiReq{int(f.Cmd), f.ID})
}

// answer answers something on the network connection.
func (s *apiRun) answer(nt *apiNet, fully bool) bool {
	s.mu.Lock()
	var q apiReq
	j := -1
	for k := range nt.open {
		x := nt.open[k]
		if s.gone[x.o] && fully {
			continue
		}
		if j < 0 || s.r.Intn(2) == 0 {
			j, q = k, x
		}
	}
	if j < 0 || nt.why {
		s.mu.Unlock()
		return false
	}
	nt.open = append(nt.open[:j], nt.open[j+1:]...)
	s.ntag++
	t := s.ntag
	rst := s.r.Intn(8) == 0
	s.mu.Unlock()
	if rst {
		s.log(ev{"e": "preset", "n": nt.n, "o": q.o})
		nt.fc.PeerSend(encodeFrame(q.id, 0, fStream|fRst, nil))
		return true
	}
	s.log(ev{"e": "answer", "n": nt.n, "o": q.o, "t": t})
	nt.fc.PeerSend(encodeFrame(q.id, 1, 0, be(t)))
	return true
}

func (s *apiRun) some() *apiNet {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.nets) == 0 {
		return nil
	}
	return s.nets[s.r.Intn(len(s.nets))]
}

func (s *apiRun) cut(nt *apiNet) {
	s.mu.Lock()
	if nt.why {
		s.mu.Unlock()
		return
	}
	nt.why = true
	s.log(ev{"e": "cause", "n": nt.n})
	k := s.r.Intn(4)
	s.mu.Unlock()
	switch k {
	case 0:
		nt.fc.PeerErr(errors.New("lost"))
	case 1:
		nt.fc.mu.Lock()
		nt.fc.wplan = func(n int) (int, error) {
			return 0, &net.OpError{Op: "write", Net: "fake", Err: errors.New("lost")}
		}
		nt.fc.mu.Unlock()
		s.nap()
		nt.fc.PeerEOF()
	default:
		nt.fc.PeerEOF()
	}
}

func (s *apiRun) call() {
	s.mu.Lock()
	s.nop++
	o := s.nop
	kind := []string{"one", "one", "any", "any", "all"}[s.r.Intn(5)]
	ep := 0
	if kind == "one" {
		ep = 1 + s.r.Intn(len(s.eps))
		if s.r.Intn(20) == 0 {
			ep = len(s.eps) + 1
		}
	}
	s.calls++
	ctx, cancel := context.WithCancel(context.Background())
	s.kind[o] = kind
	s.cancel[o] = cancel
	early := s.r.Intn(30) == 0
	s.mu.Unlock()
	s.log(ev{"e": "call", "o": o, "kind": kind, "ep": ep})
	if early {
		s.drop(o)
	}
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		tag := func(f *qrpc.Frame, err error) (bool, int) {
			if err != nil {
				return false, 0
			}
			if f == nil || len(f.Payload) != 4 {
				return true, -1
			}
			return true, int(binary.BigEndian.Uint32(f.Payload))
		}
		switch kind {
		case "one":
			name := "nowhere"
			if ep <= len(s.eps) {
				name = s.eps[ep-1]
			}
			ok, t := tag(s.api.CallOne(ctx, name, qrpc.Cmd(o), []byte("q")))
			s.log(ev{"e": "ret", "o": o, "ok": ok, "t": t})
		case "any":
			ok, t := tag(s.api.Call(ctx, qrpc.Cmd(o), []byte("q")))
			s.log(ev{"e": "ret", "o": o, "ok": ok, "t": t})
		default:
			m := s.api.CallAll(ctx, qrpc.Cmd(o), []byte("q"))
			n := 0
			for i, name := range s.eps {
				if r, in := m[name]; in {
					ok, t := tag(r.Frame, r.Err)
					s.log(ev{"e": "res", "o": o, "ep": i + 1, "ok": ok, "t": t})
					n++
				}
			}
			if n != len(m) {
				s.log(ev{"e": "res", "o": o, "ep": -1, "ok": true, "t": 0})
			}
			s.log(ev{"e": "retall", "o": o})
		}
		cancel()
		s.mu.Lock()
		s.calls--
		delete(s.cancel, o)
		s.mu.Unlock()
	}()
}

func (s *apiRun) drop(o int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for k, c := range s.cancel {
		if (o == 0 || k == o) && !s.gone[k] {
			s.gone[k] = true
			s.log(ev{"e": "cancel", "o": k})
			c()
			return
		}
	}
}

func apiOne(seed int) []ev {
	s := &apiRun{tr: &trace{}, r: rand.New(rand.NewSource(int64(seed))), kind: map[int]string{}, cancel: map[int]func(){}, gone: map[int]bool{}}
	n := 1 + s.rnd(4)
	for i := 0; i < n; i++ {
		s.eps = append(s.eps, fmt.Sprint("ep", i))
	}
	var weights []int
	if s.rnd(2) == 0 {
		for range s.eps {
			weights = append(weights, s.rnd(3))
		}
		weights[s.rnd(n)]++
	}
	s.pfail = []int{0, 10, 30, 60}[s.rnd(4)]
	s.log(ev{"e": "conf", "n": n})
	s.api = qrpc.NewAPI(s.eps, qrpc.ConnectionConfig{OverlayNetwork: s.dial, WriteFrameChSize: []int{0, 1, 3, 16}[s.rnd(4)]}, weights)
	s.log(ev{"e": "created"})
	busy := func() int {
		s.mu.Lock()
		defer s.mu.Unlock()
		return s.calls
	}
	closes := 0
	cl := func() {
		s.mu.Lock()
		s.calls++
		s.mu.Unlock()
		s.log(ev{"e": "closecall"})
		err := s.api.Close()
		s.log(ev{"e": "closeret", "ok": err == nil})
		s.mu.Lock()
		s.calls--
		s.mu.Unlock()
	}
	for k := 10 + s.rnd(50); k > 0; k-- {
		switch x := s.rnd(20); {
		case x < 8:
			if busy() < 6 {
				s.call()
			}
		case x < 14:
			if nt := s.some(); nt != nil {
				s.answer(nt, false)
			}
		case x < 16:
			if nt := s.some(); nt != nil && s.rnd(2) == 0 {
				s.cut(nt)
			}
		case x < 17:
			if s.rnd(2) == 0 {
				s.drop(0)
			}
		case x < 18:
			if closes < 2 && s.rnd(6) == 0 {
				closes++
				go cl()
			}
		case x < 19:
			s.mu.Lock()
			s.pfail = []int{0, 10, 30, 100}[s.r.Intn(4)]
			s.mu.Unlock()
		default:
			s.nap()
		}
		if s.rnd(3) == 0 {
			s.nap()
		}
	}
	if closes == 0 && s.rnd(2) == 0 {
		cl()
	}
	settled := func() bool {
		s.mu.Lock()
		calls := s.calls
		nets := append([]*apiNet(nil), s.nets...)
		s.mu.Unlock()
		if calls > 0 {
			return false
		}
		for _, nt := range nets {
			if nt.why && !nt.fc.isClosed() {
				return false
			}
		}
		return true
	}
	closed := func() bool {
		s.mu.Lock()
		nets := append([]*apiNet(nil), s.nets...)
		s.mu.Unlock()
		for _, nt := range nets {
			if !nt.fc.isClosed() {
				return false
			}
		}
		return true
	}
	for end := time.Now().Add(10 * time.Second); time.Now().Before(end); time.Sleep(100 * time.Microsecond) {
		s.mu.Lock()
		nets := append([]*apiNet(nil), s.nets...)
		s.mu.Unlock()
		for _, nt := range nets {
			for s.answer(nt, true) {
			}
		}
		if settled() {
			time.Sleep(2 * time.Millisecond)
			if settled() {
				break
			}
		}
	}
	isClosing := false
	for _, e := range s.tr.events() {
		isClosing = isClosing || e["e"] == "closecall"
	}
	if isClosing {
		for end := time.Now().Add(10 * time.Second); time.Now().Before(end) && !closed(); {
			time.Sleep(100 * time.Microsecond)
		}
	}
	s.log(ev{"e": "fin"})
	es := s.tr.events()
	for k, e := range es {
		if e["e"] == "fin" {
			es = es[:k+1]
			break
		}
	}
	go s.api.Close()
	return es
}

func famApi(g *globals) (*results, interface{}, error) {
	return recordTraces(g, func(seed int) []ev { return apiOne(seed) })
}
