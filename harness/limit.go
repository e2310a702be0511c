package main

import (
	"encoding/binary"
	"math/rand"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-kit/kit/metrics"
	"github.com/zhiqiangxu/qrpc"
)

// Limits on what arrives. Records traces for LimitTrace.tla.

type limCfg struct {
	Focus string `json:"focus"` // "qps" or "inflight"
}

type limRun struct {
	tr    *trace
	mu    sync.Mutex
	r     *rand.Rand
	fc    *FConn
	ci    *qrpc.ConnectionInfo
	cmds  map[int]chan int // running handlers
	ofID  map[uint64]int
	open  []uint64 // streams of the peer that it did not end
	asked chan uint64
	ended int32 // handlers told to return
	freed int32
	n     int
	id    uint64
}

// limMetric counts requests whose handling is over.
type limMetric struct{ s *limRun }

func (m limMetric) With(...string) metrics.Histogram { return m }
func (m limMetric) Observe(float64)                  { atomic.AddInt32(&m.s.freed, 1) }

func (s *limRun) rnd(n int) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.r.Intn(n)
}

// log records an event with the second in which it happens.
func (s *limRun) log(e ev) {
	s.tr.mu.Lock()
	e["t"] = int(time.Now().Unix() - limEpoch)
	s.tr.evs = append(s.tr.evs, e)
	s.tr.mu.Unlock()
}

var limEpoch = time.Now().Unix() - 1

func (s *limRun) handler(w qrpc.FrameWriter, rf *qrpc.RequestFrame) {
	s.mu.Lock()
	i := s.ofID[rf.RequestID]
	ch := make(chan int, 1)
	s.cmds[i] = ch
	s.mu.Unlock()
	s.log(ev{"e": "start", "f": i})
	f := (*qrpc.Frame)(rf)
	var how int
	stream := f.FrameCh()
	for on := true; on; {
		select {
		case how = <-ch:
			on = false
		case g := <-stream:
			if g == nil {
				stream = nil
			}
		}
	}
	switch how {
	case 1, 2:
		w.StartWrite(rf.RequestID, 0, 0)
		w.EndWrite()
	case 3:
		w.StartWrite(rf.RequestID, 0, qrpc.StreamFlag)
		w.EndWrite()
		w.StartWrite(rf.RequestID, 0, qrpc.StreamEndFlag)
		w.EndWrite()
	case 4:
		w.ResetFrame(rf.RequestID, 0)
	case 5:
		s.over(i)
		panic("handler")
	}
	s.over(i)
}

func (s *limRun) over(i int) {
	s.log(ev{"e": "hend", "f": i})
}

func (s *limRun) running() []int {
	s.mu.Lock()
	defer s.mu.Unlock()
	var r []int
	for i := range s.cmds {
		r = append(r, i)
	}
	sortInts(r)
	return r
}

func (s *limRun) end(i int) {
	s.mu.Lock()
	ch := s.cmds[i]
	delete(s.cmds, i)
	s.mu.Unlock()
	if ch != nil {
		atomic.AddInt32(&s.ended, 1)
		ch <- s.rnd(6)
	}
}

// frame returns the bytes of a frame and records that it is sent.
func (s *limRun) frame(k string) []byte {
	var b []byte
	switch k {
	case "C":
		id, fl := uint64(999999), byte(fRst)
		if len(s.open) > 0 && s.rnd(4) > 0 {
			j := s.rnd(len(s.open))
			id, fl = s.open[j], fStream
			if e := s.rnd(4); e == 0 {
				fl = fStream | fEnd
			} else if e == 1 {
				fl = fRst
			}
			if fl != fStream {
				s.open = append(s.open[:j], s.open[j+1:]...)
			}
		}
		b = encodeFrame(id, 1, fl, nil)
	case "A":
		select {
		case id := <-s.asked:
			b = encodeFrame(id, 1, fNB, nil)
		case <-time.After(5 * time.Second):
			return nil
		}
	default:
		s.id += 2
		fl := map[string]byte{"N": fNB, "S": fStream, "B": 0, "P": fPush}[k]
		if k == "S" {
			s.open = append(s.open, s.id+1)
		}
		b = encodeFrame(s.id+1, 1, fl, []byte("x"))
	}
	s.n++
	s.mu.Lock()
	if k != "C" {
		s.ofID[binary.BigEndian.Uint64(b[4:])] = s.n
	}
	s.mu.Unlock()
	s.log(ev{"e": "send", "f": s.n, "k": k})
	return b
}

func (s *limRun) wait(d time.Duration, cond func() bool) bool {
	for end := time.Now().Add(d); !cond(); {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(50 * time.Microsecond)
	}
	return true
}

// calm waits until whatever returned does not count any more.
func (s *limRun) calm() {
	if s.wait(5*time.Second, func() bool { return atomic.LoadInt32(&s.freed) == atomic.LoadInt32(&s.ended) }) {
		time.Sleep(3 * time.Millisecond)
		s.log(ev{"e": "calm"})
	}
}

func limOne(cfg limCfg, seed int) []ev {
	s := &limRun{tr: &trace{}, r: rand.New(rand.NewSource(int64(seed))), cmds: map[int]chan int{}, ofID: map[uint64]int{}, asked: make(chan uint64, 100), id: 1000}
	qps, inf := 0, 1+s.rnd(3)
	if cfg.Focus == "qps" {
		qps, inf = 1+s.rnd(6), 0
		if s.rnd(3) == 0 {
			inf = 1 + s.rnd(3)
		}
	}
	fc := newFConn(strconv.Itoa(seed))
	fc.user = 1
	fc.rchunk = []int{0, 0, 1, 16, 17, 1000}[s.rnd(6)]
	fc.onFrame = func(f WFrame) {
		if f.ID%2 == 0 && f.Flags&fPush == 0 {
			s.asked <- f.ID
		}
	}
	s.fc = fc
	b := qrpc.ServerBinding{
		Handler: qrpc.HandlerFunc(s.handler), LatencyMetric: limMetric{s}, MaxInboundFramePerSecond: qps, MaxInboundInflightStreamPerConn: int32(inf),
		ReadFrameChSize: []int{0, 0, 1, 4}[s.rnd(4)],
		SubFunc:         func(*qrpc.ConnectionInfo, *qrpc.Frame) {},
	}
	srv := qrpc.NewServer([]qrpc.ServerBinding{b})
	l := newQListener(0, &trace{})
	l.offer(fc)
	go srv.Serve(l, 0)
	if !s.wait(5*time.Second, func() bool {
		srv.WalkConn(0, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool { s.ci = ci; return false })
		return s.ci != nil
	}) {
		return nil
	}
	s.log(ev{"e": "conf", "qps": qps, "inflight": inf})
	fc.mu.Lock()
	fc.onClose = func() { s.log(ev{"e": "closes"}) }
	fc.mu.Unlock()
	// as many requests as allowed at a time, most of the time
	careful := s.rnd(4) > 0
	steps := 20 + s.rnd(40)
	start := time.Now()
	var sec int64
	left := 0
	blocked := 0
	for ; steps > 0 && !fc.isClosed() && time.Since(start) < 3*time.Second; steps-- {
		if cfg.Focus == "qps" {
			if t := time.Now().Unix(); t != sec {
				sec, left = t, qps
			}
			if left == 0 && s.rnd(12) > 0 {
				// wait for the next second, or not
				time.Sleep(time.Until(time.Unix(sec+1, 0)) + time.Duration(s.rnd(100))*time.Millisecond)
				continue
			}
			if s.rnd(3) == 0 {
				time.Sleep(time.Duration(s.rnd(300)) * time.Millisecond)
			}
		}
		run := s.running()
		if k := s.rnd(10); k < 3 && len(run) > 0 || blocked > 0 && k < 8 {
			if len(run) > 0 {
				i := run[s.rnd(len(run))]
				if i == blocked {
					blocked = 0
				}
				s.end(i)
				if s.rnd(4) > 0 {
					s.calm()
				}
			} else {
				time.Sleep(100 * time.Microsecond)
			}
			continue
		}
		if careful && inf > 0 {
			for len(run) >= inf && blocked == 0 {
				s.end(run[s.rnd(len(run))])
				run = s.running()
			}
			s.calm()
		}
		var out []byte
		for k := 1 + s.rnd(3)*s.rnd(2); k > 0; k-- {
			kind := []string{"N", "N", "N", "S", "B", "P", "A", "C", "C"}[s.rnd(9)]
			if blocked > 0 || cfg.Focus == "qps" && left == 0 && s.rnd(5) > 0 {
				kind = "C"
			}
			if careful && inf > 0 && (kind == "N" || kind == "S") {
				if len(s.running())+k > inf {
					kind = "P"
				}
				k = 1
			}
			if kind == "A" {
				if _, _, err := s.ci.Request(1, 0, nil); err != nil {
					break
				}
			}
			b := s.frame(kind)
			if kind == "B" {
				blocked = s.n
			}
			if kind != "C" {
				left--
			}
			out = append(out, b...)
		}
		fc.PeerSend(out)
		if s.rnd(3) > 0 && blocked == 0 {
			s.settle()
		}
	}
	for _, i := range s.running() {
		if i == blocked {
			s.end(i)
		}
	}
	s.wait(10*time.Second, func() bool {
		for _, i := range s.running() {
			if i == blocked {
				s.end(i)
			}
		}
		return fc.isClosed() || fc.Parked()
	})
	s.settle()
	time.Sleep(500 * time.Microsecond)
	// the rest
	for end := time.Now().Add(10 * time.Second); time.Now().Before(end) && !fc.isClosed(); {
		s.tr.mu.Lock()
		starts, reqs := 0, 0
		for _, e := range s.tr.evs {
			if e["e"] == "start" {
				starts++
			}
			if e["e"] == "send" && (e["k"] == "N" || e["k"] == "S" || e["k"] == "B") {
				reqs++
			}
		}
		s.tr.mu.Unlock()
		if starts == reqs {
			time.Sleep(time.Millisecond)
			break
		}
		time.Sleep(100 * time.Microsecond)
	}
	s.log(ev{"e": "fin"})
	es := s.tr.events()
	for k, e := range es {
		if e["e"] == "fin" {
			es = es[:k+1]
		}
	}
	for k := 0; k < 1000; k++ {
		for _, i := range s.running() {
			s.end(i)
		}
		if atomic.LoadInt32(&s.freed) == atomic.LoadInt32(&s.ended) {
			break
		}
		time.Sleep(time.Millisecond)
	}
	go srv.Shutdown()
	return es
}

// settle waits until everything sent was read.
func (s *limRun) settle() {
	s.wait(2*time.Second, func() bool { return s.fc.isClosed() || s.fc.Parked() })
}

func famLim(g *globals) (*results, interface{}, error) {
	var cfg limCfg
	must(jsonUnmarshal(g.cfg, &cfg))
	return recordTraces(g, func(seed int) []ev { return limOne(cfg, seed) })
}
