package main

import (
	"context"
	"encoding/json"
	"errors"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/channel"
)

// Channels between a client and a server. Records traces for ChannelTrace.tla.

// bridge carries bytes between two connections.
func bridge(a, b *FConn, rnd func(int) int) {
	pump := func(from, to *FConn) {
		var mu sync.Mutex
		cond := sync.NewCond(&mu)
		var q [][]byte
		end := false
		from.onRaw = func(p []byte) {
			mu.Lock()
			q = append(q, append([]byte(nil), p...))
			cond.Signal()
			mu.Unlock()
		}
		prev := from.onClose
		from.onClose = func() {
			if prev != nil {
				prev()
			}
			mu.Lock()
			end = true
			cond.Signal()
			mu.Unlock()
		}
		go func() {
			for {
				mu.Lock()
				for len(q) == 0 && !end {
					cond.Wait()
				}
				if len(q) == 0 {
					mu.Unlock()
					to.PeerEOF()
					return
				}
				p := q[0]
				q = q[1:]
				mu.Unlock()
				switch rnd(6) {
				case 0:
					n := rnd(len(p) + 1)
					to.PeerSend(p[:n])
					time.Sleep(time.Duration(rnd(100)) * time.Microsecond)
					to.PeerSend(p[n:])
				default:
					to.PeerSend(p)
				}
			}
		}()
	}
	pump(a, b)
	pump(b, a)
}

type chMsg struct {
	P, K int
	Pad  string
}

// chBin is a message with an encoding of its own.
type chBin struct{ chMsg }

func (m *chBin) Marshal() ([]byte, error) {
	return []byte(strconv.Itoa(m.P) + "/" + strconv.Itoa(m.K) + "/" + m.Pad), nil
}
func (m *chBin) Unmarshal(b []byte) error {
	x := strings.SplitN(string(b), "/", 3)
	if len(x) != 3 {
		return errors.New("garbage")
	}
	m.P, _ = strconv.Atoi(x[0])
	m.K, _ = strconv.Atoi(x[1])
	m.Pad = x[2]
	return nil
}

func chPad(k int) string {
	n := []int{0, 1, 20, 300, 5000}[k%5]
	return strings.Repeat(string(rune('a'+k%26)), n)
}

// chAny decodes either encoding.
type chAny struct{ chMsg }

func (m *chAny) Unmarshal(b []byte) error {
	if len(b) > 0 && b[0] == '{' {
		return json.Unmarshal(b, &m.chMsg)
	}
	var x chBin
	err := x.Unmarshal(b)
	m.chMsg = x.chMsg
	return err
}

type chDir struct {
	sent, got   int
	busy, ended bool
	loop        bool // a receiver is at work
	recv, ctx   bool
}

type chRun struct {
	tr   *trace
	mu   sync.Mutex
	r    *rand.Rand
	d    map[string]*chDir
	np   int
	nk   int
	hret map[int]bool
	cut  bool
	fin  bool
	todo int // scripts in progress
	wait int // channels the responder did not see yet
	over chan struct{}
	ctl  chan channel.Transport
}

func (s *chRun) rnd(n int) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.r.Intn(n)
}
func (s *chRun) log(e ev) { s.tr.log(e) }
func (s *chRun) nap() {
	if k := s.rnd(10); k > 4 {
		time.Sleep(time.Duration(s.rnd([]int{100, 300, 1500}[k%3])) * time.Microsecond)
	}
}
func (s *chRun) dir(p int, d string) *chDir {
	k := d + strconv.Itoa(p)
	if s.d[k] == nil {
		s.d[k] = &chDir{}
	}
	return s.d[k]
}
func (s *chRun) set(p int, d string, f func(x *chDir)) {
	s.mu.Lock()
	f(s.dir(p, d))
	s.mu.Unlock()
}

// send sends a message, and tells whether it was accepted.
func (s *chRun) send(p int, d string, w channel.Sender, last bool) bool {
	s.mu.Lock()
	s.nk++
	k := s.nk
	cmd := s.r.Intn([]int{3, 1 << 16, 1 << 24}[s.r.Intn(3)])
	x := s.dir(p, d)
	x.busy = true
	late := x.ended
	s.mu.Unlock()
	s.log(ev{"e": "send", "p": p, "d": d, "k": k, "cmd": cmd, "last": last})
	m := chMsg{p, k, chPad(k)}
	var err error
	if p%2 == 0 {
		err = w.Send(context.Background(), qrpc.Cmd(cmd), &m, last)
	} else {
		err = w.Send(context.Background(), qrpc.Cmd(cmd), &chBin{m}, last)
	}
	s.log(ev{"e": "sret", "p": p, "d": d, "ok": err == nil})
	s.set(p, d, func(x *chDir) {
		x.busy = false
		if !late {
			x.sent++
			x.ended = x.ended || last
		}
	})
	return err == nil
}

func (s *chRun) end(p int, d string, w channel.Sender, after bool) {
	s.set(p, d, func(x *chDir) { x.busy = true })
	s.log(ev{"e": "end", "p": p, "d": d})
	err := w.End()
	s.log(ev{"e": "eret", "p": p, "d": d, "ok": err == nil, "after": after})
	s.set(p, d, func(x *chDir) { x.busy = false; x.ended = true })
}

func (s *chRun) sends(p int, d string, w channel.Sender, n int) {
	last := s.rnd(3) == 0
	for k := 0; k < n; k++ {
		s.send(p, d, w, last && k == n-1)
		s.nap()
	}
	after := last && n > 0
	switch s.rnd(3) {
	case 0:
		// left open
		if !after {
			return
		}
	case 1:
		if !after || s.rnd(3) == 0 {
			s.end(p, d, w, after)
			after = true
		}
	default:
		if !after {
			s.end(p, d, w, after)
			after = true
		}
	}
	if after {
		for k := s.rnd(3); k > 0; k-- {
			if s.rnd(2) == 0 || d == "r" {
				s.send(p, d, w, s.rnd(2) == 0)
			} else {
				s.end(p, d, w, true)
			}
		}
	}
}

// receive receives one message; false at the end.
func (s *chRun) receive(p int, d string, r channel.Receiver) bool {
	ctx, cancel := context.WithCancel(context.Background())
	s.set(p, d, func(x *chDir) { x.recv, x.ctx = true, false })
	s.log(ev{"e": "recv", "p": p, "d": d})
	if s.rnd(4) == 0 {
		t := time.AfterFunc(time.Duration(s.rnd(800))*time.Microsecond, func() {
			s.mu.Lock()
			defer s.mu.Unlock()
			if x := s.dir(p, d); x.recv && !s.fin && ctx.Err() == nil {
				s.log(ev{"e": "ctx", "p": p, "d": d})
				x.ctx = true
				cancel()
			}
		})
		defer t.Stop()
	}
	defer func() {
		s.mu.Lock()
		cancel()
		s.mu.Unlock()
	}()
	return s.received(p, d, r, ctx)
}

func (s *chRun) received(p int, d string, r channel.Receiver, ctx context.Context) bool {
	var m chAny
	cmd := qrpc.Cmd(s.rnd(1 << 24))
	pc := &cmd
	if s.rnd(5) == 0 {
		pc = nil
	}
	err := r.Receive(ctx, pc, &m)
	on := true
	switch {
	case err == nil:
		k := m.K
		if m.Pad != chPad(k) || m.P != p {
			k = -1
		}
		c := int(cmd)
		if pc == nil {
			c = -1
		}
		s.log(ev{"e": "got", "p": p, "d": d, "k": k, "cmd": c})
	case err == channel.ErrStreamFinished:
		s.log(ev{"e": "finished", "p": p, "d": d})
		on = false
	case err == context.Canceled:
		s.log(ev{"e": "rerr", "p": p, "d": d, "why": "ctx"})
	case err == channel.ErrNoResp:
		s.log(ev{"e": "rerr", "p": p, "d": d, "why": "none"})
		on = false
	default:
		s.log(ev{"e": "rerr", "p": p, "d": d, "why": err.Error()})
		on = false
	}
	s.set(p, d, func(x *chDir) {
		x.recv = false
		if err == nil {
			x.got++
		}
	})
	return on
}

func (s *chRun) receives(p int, d string, r channel.Receiver) {
	s.set(p, d, func(x *chDir) { x.loop = true })
	for n := 0; n < 30 && s.receive(p, d, r); n++ {
		if s.rnd(3) == 0 {
			s.nap()
		}
	}
	if s.rnd(4) == 0 {
		s.receive(p, d, r)
	}
	s.set(p, d, func(x *chDir) { x.loop = false })
}

func (s *chRun) script(f func()) {
	s.mu.Lock()
	s.todo++
	s.mu.Unlock()
	go func() {
		f()
		s.mu.Lock()
		s.todo--
		s.mu.Unlock()
	}()
}

// open is the side of the initiator.
func (s *chRun) open(t channel.Transport) {
	w, r, err := t.Pipe()
	if err != nil {
		return
	}
	s.mu.Lock()
	s.np++
	p := s.np
	s.mu.Unlock()
	s.log(ev{"e": "new", "p": p})
	if s.rnd(8) == 0 {
		s.receive(p, "r", r)
	}
	n := s.rnd(5)
	if n == 0 || s.rnd(12) == 0 {
		s.end(p, "i", w, false)
		s.send(p, "i", w, false)
		s.receive(p, "r", r)
		return
	}
	s.mu.Lock()
	s.wait++
	s.mu.Unlock()
	if n == 1 && s.rnd(2) == 0 {
		s.send(p, "i", w, true)
	} else {
		s.send(p, "i", w, false)
		s.script(func() { s.sends(p, "i", w, n-1) })
	}
	s.set(p, "r", func(x *chDir) { x.loop = true })
	go s.receives(p, "r", r)
}

func (s *chRun) serve(w channel.Sender, r channel.Receiver, t channel.Transport) {
	var m chAny
	cmd := qrpc.Cmd(0)
	err := r.Receive(context.Background(), &cmd, &m)
	p := m.P
	if err == nil && p == 0 {
		s.ctl <- t
		<-s.over
		return
	}
	k := m.K
	if err != nil || m.Pad != chPad(k) {
		k = -1
	}
	s.mu.Lock()
	s.log(ev{"e": "recv", "p": p, "d": "i"})
	s.log(ev{"e": "got", "p": p, "d": "i", "k": k, "cmd": int(cmd)})
	s.dir(p, "i").got++
	s.wait--
	s.mu.Unlock()
	var wg sync.WaitGroup
	wg.Add(1)
	s.script(func() {
		defer wg.Done()
		s.sends(p, "r", w, s.rnd(5))
	})
	hard := s.rnd(8) == 0
	if !hard {
		s.receives(p, "i", r)
	}
	wg.Wait()
	s.mu.Lock()
	s.log(ev{"e": "hret", "p": p})
	s.hret[p] = true
	s.mu.Unlock()
}

func chOne(seed int) []ev {
	s := &chRun{tr: &trace{}, r: rand.New(rand.NewSource(int64(seed))), d: map[string]*chDir{}, hret: map[int]bool{}, over: make(chan struct{}), ctl: make(chan channel.Transport, 1)}
	a, b := newFConn("client"), newFConn("server"+strconv.Itoa(seed))
	a.rchunk = []int{0, 0, 1, 17}[s.rnd(4)]
	b.rchunk = []int{0, 0, 1, 17}[s.rnd(4)]
	bridge(a, b, s.rnd)
	h := channel.NewQRPCHandler(channel.HandlerFunc(s.serve))
	srv := qrpc.NewServer([]qrpc.ServerBinding{{Handler: h}})
	l := newQListener(0, &trace{})
	go srv.Serve(l, 0)
	b.user = 0
	l.offer(b)
	c, err := qrpc.NewConnection("x", qrpc.ConnectionConfig{Handler: h, OverlayNetwork: func(string, qrpc.DialConfig) (net.Conn, error) { return a, nil }}, nil)
	must(err)
	ct := channel.NewTransport(c)
	cw, _, err := ct.Pipe()
	must(err)
	must(cw.Send(context.Background(), 1, &chMsg{}, false))
	st := <-s.ctl
	cuts := s.rnd(12) == 0
	for n := 1 + s.rnd(6); n > 0; n-- {
		s.script(func() {
			if s.rnd(2) == 0 {
				s.open(ct)
			} else {
				s.open(st)
			}
		})
		s.nap()
	}
	if cuts {
		s.nap()
		s.mu.Lock()
		s.cut = true
		s.mu.Unlock()
		s.log(ev{"e": "cut"})
		switch s.rnd(3) {
		case 0:
			c.Close()
		case 1:
			a.PeerEOF()
		default:
			b.PeerEOF()
		}
	}
	settled := func() bool {
		if s.todo > 0 || (s.wait > 0 && !s.cut) {
			return false
		}
		for k, x := range s.d {
			p, _ := strconv.Atoi(k[1:])
			if x.busy || x.loop && !x.recv || x.recv && (s.cut || x.ctx || x.ended || x.got < x.sent && !(k[0] == 'i' && s.hret[p]) || k[0] == 'r' && s.hret[p]) {
				return false
			}
		}
		return true
	}
	locked := false
	for end := time.Now().Add(10 * time.Second); time.Now().Before(end); time.Sleep(100 * time.Microsecond) {
		s.mu.Lock()
		if settled() {
			s.mu.Unlock()
			time.Sleep(time.Millisecond)
			s.mu.Lock()
			if settled() {
				locked = true
				break
			}
		}
		s.mu.Unlock()
	}
	if !locked {
		s.mu.Lock()
	}
	s.fin = true
	s.log(ev{"e": "fin"})
	s.mu.Unlock()
	es := s.tr.events()
	for k, e := range es {
		if e["e"] == "fin" {
			es = es[:k+1]
			break
		}
	}
	close(s.over)
	go func() {
		c.Close()
		srv.Shutdown()
	}()
	return es
}

func famChan(g *globals) (*results, interface{}, error) {
	return recordTraces(g, func(seed int) []ev { return chOne(seed) })
}
