package main

import (
	"encoding/binary"
	"math/rand"
	"net"
	"strconv"
	"sync"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

// A mux and what is passed to its handlers. Records traces for MuxTrace.tla.

func muxOne(seed int) []ev {
	tr := &trace{}
	var mu sync.Mutex
	r := rand.New(rand.NewSource(int64(seed)))
	rnd := func(n int) int {
		mu.Lock()
		defer mu.Unlock()
		return r.Intn(n)
	}
	base := 3 + rnd(8)
	cmd := func() int {
		routing := []int{rnd(base), rnd(base), rnd(base), 0xffff, 0xff00 + rnd(3), 1 << (8 + uint(rnd(8)))}[rnd(6)]
		return []int{0, 0, 1, 0x80, 0xff, rnd(256)}[rnd(6)]<<16 | routing
	}
	mux := qrpc.NewServeMux()
	nreg := 0
	pending := map[int]bool{} // requests not answered for
	qof := func(rf *qrpc.RequestFrame) int { return int(binary.BigEndian.Uint32(rf.Payload)) }
	over := func(q int) {
		mu.Lock()
		delete(pending, q)
		mu.Unlock()
	}
	register := func() {
		mu.Lock()
		nreg++
		n := nreg
		mu.Unlock()
		c := cmd()
		if rnd(12) == 0 {
			c |= 1 << (24 + uint(rnd(7)))
		}
		nilh := rnd(12) == 0
		var mws []qrpc.MiddlewareFunc
		ans := []bool{}
		for k := rnd(4) * rnd(2); k > 0; k-- {
			a := rnd(4) > 0
			ans = append(ans, a)
			j := len(ans)
			mws = append(mws, func(w qrpc.FrameWriter, rf *qrpc.RequestFrame) bool {
				tr.log(ev{"e": "mw", "q": qof(rf), "r": n, "k": j, "cmd": int(rf.Cmd)})
				if !a {
					over(qof(rf))
				}
				return a
			})
		}
		f := func(w qrpc.FrameWriter, rf *qrpc.RequestFrame) {
			tr.log(ev{"e": "handle", "q": qof(rf), "r": n, "cmd": int(rf.Cmd)})
			over(qof(rf))
		}
		var ok bool
		func() {
			tr.log(ev{"e": "regcall", "r": n, "cmd": c, "nil": nilh, "mws": ans})
			defer func() { recover() }()
			switch {
			case nilh:
				mux.Handle(qrpc.Cmd(c), nil, mws...)
			case rnd(2) == 0:
				mux.Handle(qrpc.Cmd(c), qrpc.HandlerFunc(f), mws...)
			default:
				mux.HandleFunc(qrpc.Cmd(c), f, mws...)
			}
			ok = true
		}()
		tr.log(ev{"e": "regret", "r": n, "ok": ok})
	}
	for k := rnd(6); k > 0; k-- {
		register()
	}
	// connections 0..3 of a server, the others of clients
	nc := 2 + rnd(3)
	var fcs []*FConn
	srv := qrpc.NewServer([]qrpc.ServerBinding{{Handler: mux}})
	l := newQListener(0, &trace{})
	go srv.Serve(l, 0)
	var ccs []*qrpc.Connection
	for c := 0; c < nc; c++ {
		c := c
		fc := newFConn(strconv.Itoa(seed*10 + c))
		fc.rchunk = []int{0, 0, 1, 17}[rnd(4)]
		fc.onClose = func() { tr.log(ev{"e": "close", "c": c}) }
		fcs = append(fcs, fc)
		if c%2 == 0 {
			fc.user = c
			l.offer(fc)
			continue
		}
		cc, err := qrpc.NewConnection("x", qrpc.ConnectionConfig{Handler: mux, OverlayNetwork: func(string, qrpc.DialConfig) (net.Conn, error) { return fc, nil }}, nil)
		must(err)
		ccs = append(ccs, cc)
	}
	nq := 0
	ids := make([]uint64, nc)
	send := func() {
		c := rnd(nc)
		fc := fcs[c]
		if fc.isClosed() {
			return
		}
		var out []byte
		for k := 1 + rnd(3); k > 0; k-- {
			nq++
			x := cmd()
			ids[c] += 2
			id := ids[c] + uint64((c+1)%2)
			p := make([]byte, 4)
			binary.BigEndian.PutUint32(p, uint32(nq))
			fl := byte(fNB)
			if c%2 == 0 && rnd(3) == 0 {
				fl = []byte{0, fStream, fStream | fEnd}[rnd(3)]
			}
			mu.Lock()
			pending[nq] = true
			mu.Unlock()
			tr.log(ev{"e": "req", "c": c, "q": nq, "cmd": x})
			out = append(out, encodeFrame(id, uint32(x), fl, p)...)
		}
		fc.PeerSend(out)
	}
	var wg sync.WaitGroup
	for k := 4 + rnd(12); k > 0; k-- {
		switch rnd(4) {
		case 0:
			if rnd(2) == 0 {
				wg.Add(1)
				go func() { defer wg.Done(); register() }()
			} else {
				register()
			}
		default:
			send()
		}
		if rnd(3) == 0 {
			time.Sleep(time.Duration(rnd(300)) * time.Microsecond)
		}
	}
	wg.Wait()
	settled := func() bool {
		mu.Lock()
		defer mu.Unlock()
		for c, fc := range fcs {
			if fc.isClosed() {
				continue
			}
			if !fc.Parked() {
				return false
			}
			_ = c
		}
		return true
	}
	// requests of open connections are dealt with
	connOf := map[int]int{}
	for _, e := range tr.events() {
		if e["e"] == "req" {
			connOf[e["q"].(int)] = e["c"].(int)
		}
	}
	for end := time.Now().Add(10 * time.Second); time.Now().Before(end); time.Sleep(100 * time.Microsecond) {
		if !settled() {
			continue
		}
		mu.Lock()
		n := 0
		for q := range pending {
			if !fcs[connOf[q]].isClosed() {
				n++
			}
		}
		mu.Unlock()
		if n == 0 {
			time.Sleep(2 * time.Millisecond)
			break
		}
	}
	tr.log(ev{"e": "fin"})
	es := tr.events()
	for k, e := range es {
		if e["e"] == "fin" {
			es = es[:k+1]
		}
	}
	go func() {
		for _, c := range ccs {
			c.Close()
		}
		srv.Shutdown()
	}()
	return es
}

func famMux(g *globals) (*results, interface{}, error) {
	return recordTraces(g, func(seed int) []ev { return muxOne(seed) })
}
