package main

import (
	"fmt"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"encoding/binary"

	"github.com/zhiqiangxu/qrpc"
)

// The write path: concurrent writers of one connection on a network that takes
// the bytes in portions, stalls, and fails. Records traces for WriteTrace.tla.

type wqCfg struct {
	Role string `json:"role"` // server, client, reconnect
}

type wqRun struct {
	tr     *trace
	r      *rand.Rand
	mu     sync.Mutex // for r
	role   string
	nets   int
	cur    *FConn
	closed int32
	broke  map[*FConn]bool
	tag    int32
	active int
	over   bool // no further writers
}

func (w *wqRun) leave() {
	w.mu.Lock()
	w.active--
	w.mu.Unlock()
}

// waitWriters waits until nobody writes.
func (w *wqRun) waitWriters(d time.Duration) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(100 * time.Microsecond) {
		w.mu.Lock()
		w.over = w.active == 0
		over := w.over
		w.mu.Unlock()
		if over {
			return true
		}
	}
	return false
}

func (w *wqRun) rnd(n int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.r.Intn(n)
}

// newNet makes the next network connection.
func (w *wqRun) newNet() *FConn {
	w.mu.Lock()
	w.nets++
	k := w.nets
	w.mu.Unlock()
	if k > 1 {
		w.tr.log(ev{"e": "net"})
	}
	c := newFConn(fmt.Sprintf("net%d", k))
	mode := w.rnd(4)
	left := -1
	if w.role == "reconnect" && k < 3 || w.rnd(3) == 0 {
		left = w.rnd(6000)
	}
	failed := false
	c.wplan = func(n int) (int, error) {
		if failed {
			return 0, &net.OpError{Op: "write", Net: "fake", Err: fmt.Errorf("network failed")}
		}
		m := n
		var err error
		switch mode {
		case 1:
			if w.rnd(3) == 0 {
				m = w.rnd(n + 1)
			}
		case 2:
			m = 1 + w.rnd(40)
		case 3:
			if w.rnd(2) == 0 {
				m = 1 + w.rnd(400)
			}
		}
		if m < n {
			err = timeoutErr("write")
		} else {
			m = n
		}
		if left >= 0 && m > left {
			m = left
			failed = true
			w.breaks(c)
			err = &net.OpError{Op: "write", Net: "fake", Err: fmt.Errorf("network failed")}
		} else if left >= 0 {
			left -= m
		}
		return m, err
	}
	c.onFrame = func(f WFrame) {
		if f.Flags&fRst != 0 && f.Cmd == 0 {
			return // the library's own reset
		}
		if !payloadOK(int(f.Cmd), f.Payload) {
			w.tr.log(ev{"e": "badpayload", "t": f.Cmd, "len": len(f.Payload)})
			return
		}
		w.tr.log(ev{"e": "wire", "k": k, "t": f.Cmd})
	}
	c.onBad = func(err error) { w.tr.log(ev{"e": "garbage", "err": err.Error()}) }
	c.onClose = func() {
		if len(c.out) >= 16 {
			cf := binary.BigEndian.Uint32(c.out[12:])
			if byte(cf>>24)&fRst == 0 || cf&0xffffff != 0 {
				w.tr.log(ev{"e": "part", "k": k, "t": cf & 0xffffff})
			}
		}
	}
	w.mu.Lock()
	w.cur = c
	w.mu.Unlock()
	return c
}

func (w *wqRun) breaks(c *FConn) {
	w.mu.Lock()
	b := w.broke[c]
	w.broke[c] = true
	w.mu.Unlock()
	if !b {
		w.tr.log(ev{"e": "break"})
	}
}

func (w *wqRun) next() int { return int(atomic.AddInt32(&w.tag, 1)) }

func (w *wqRun) write(g, t int, f func() error) bool {
	w.tr.log(ev{"e": "sub", "g": g, "t": t})
	err := f()
	w.tr.log(ev{"e": "ret", "g": g, "t": t, "r": okErr(err)})
	return err == nil
}

type wqRequester interface {
	Request(qrpc.Cmd, qrpc.FrameFlag, []byte) (uint64, qrpc.Response, error)
	StreamRequest(qrpc.Cmd, qrpc.FrameFlag, []byte) (qrpc.StreamWriter, qrpc.Response, error)
}

func (w *wqRun) writer(g int, q wqRequester, fw qrpc.FrameWriter, n int) {
	defer w.leave()
	var sw qrpc.StreamWriter
	for i := 0; i < n; i++ {
		t := w.next()
		p := payloadFor(t)
		switch k := w.rnd(6); {
		case sw != nil && k < 3:
			end := w.rnd(5) == 0
			ok := w.write(g, t, func() error {
				sw.StartWrite(qrpc.Cmd(t))
				sw.WriteBytes(p)
				return sw.EndWrite(end)
			})
			if end || !ok {
				sw = nil
			}
		case sw != nil && k == 3 && w.rnd(3) == 0:
			// a reset that is on the wire carries the tag; it has no payload
			sw = nil
		case k == 4:
			w.write(g, t, func() error {
				s, _, err := q.StreamRequest(qrpc.Cmd(t), 0, p)
				if err == nil {
					sw = s
				}
				return err
			})
		case k == 5 || fw == nil:
			fl := qrpc.PushFlag
			if w.rnd(2) == 0 {
				fl = qrpc.NBFlag
			}
			w.write(g, t, func() error {
				_, _, err := q.Request(qrpc.Cmd(t), fl, p)
				return err
			})
		default:
			w.write(g, t, func() error {
				fw.StartWrite(uint64(t), qrpc.Cmd(t), qrpc.PushFlag)
				fw.WriteBytes(p)
				return fw.EndWrite()
			})
		}
		if w.rnd(12) == 0 {
			time.Sleep(time.Duration(w.rnd(300)) * time.Microsecond)
		}
	}
}

// handler writes a stream of answers.
func (w *wqRun) handler(fw qrpc.FrameWriter, rf *qrpc.RequestFrame) {
	w.mu.Lock()
	if w.over {
		w.mu.Unlock()
		return
	}
	w.active++
	w.mu.Unlock()
	defer w.leave()
	g := int(rf.Cmd)
	n := 1 + w.rnd(5)
	for i := 0; i < n; i++ {
		t := w.next()
		fl := qrpc.StreamFlag
		if i == n-1 {
			fl |= qrpc.StreamEndFlag
		}
		if !w.write(g, t, func() error {
			fw.StartWrite(rf.RequestID, qrpc.Cmd(t), fl)
			fw.WriteBytes(payloadFor(t))
			return fw.EndWrite()
		}) {
			return
		}
	}
}

func wqOne(role string, seed int) []ev {
	w := &wqRun{tr: &trace{}, r: rand.New(rand.NewSource(int64(seed))), role: role, broke: map[*FConn]bool{}}
	w.tag = 100
	wch := []int{1, 2, 3, 8, 64}[w.rnd(5)]
	writers := 1 + w.rnd(5)
	per := 3 + w.rnd(20)
	rid := uint64(1001) // peer's requests
	var (
		q       wqRequester
		ci      *qrpc.ConnectionInfo
		conn    *qrpc.Connection
		cleanup func()
		rate    int
	)
	switch role {
	case "server":
		got := make(chan *qrpc.ConnectionInfo, 1)
		if w.rnd(3) == 0 {
			rate = 30
		}
		b := []qrpc.ServerBinding{{WriteFrameChSize: wch, MaxCloseRate: rate, Handler: qrpc.HandlerFunc(w.handler),
			SubFunc: func(c *qrpc.ConnectionInfo, f *qrpc.Frame) { got <- c }}}
		srv := qrpc.NewServer(b)
		ln := newFListener()
		served := make(chan struct{})
		go func() { srv.Serve(ln, 0); close(served) }()
		c := w.newNet()
		if !ln.Inject(c, 10*time.Second) {
			return []ev{{"e": "connection not accepted"}}
		}
		c.PeerSend(encodeFrame(999, 1, fPush, nil))
		select {
		case ci = <-got:
		case <-time.After(10 * time.Second):
			return []ev{{"e": "push not delivered"}}
		}
		q = ci
		if rate > 0 {
			// closing takes a while with these around
			for i := 0; i < 3; i++ {
				if !ln.Inject(newFConn("other"), 10*time.Second) {
					return []ev{{"e": "connection not accepted"}}
				}
			}
		}
		cleanup = func() { srv.Shutdown(); <-served }
	default:
		conf := qrpc.ConnectionConfig{WriteFrameChSize: wch, Handler: qrpc.HandlerFunc(w.handler),
			OverlayNetwork: func(addr string, _ qrpc.DialConfig) (net.Conn, error) {
				return w.newNet(), nil
			}}
		if role == "client" {
			var err error
			conn, err = qrpc.NewConnection("x", conf, nil)
			if err != nil {
				return []ev{{"e": "connect failed"}}
			}
		} else {
			conn = qrpc.NewConnectionWithReconnect([]string{"x"}, conf, nil)
		}
		q = conn
		rid = 1000
		cleanup = func() { conn.Close(); conn.Wait() }
	}
	net0 := func() *FConn {
		w.mu.Lock()
		defer w.mu.Unlock()
		return w.cur
	}
	g := 0
	for ; g < writers; g++ {
		var fw qrpc.FrameWriter
		if ci != nil {
			fw = ci.GetWriter()
		}
		w.mu.Lock()
		w.active++
		w.mu.Unlock()
		go w.writer(g+1, q, fw, per)
	}
	// the environment: handlers, stalls, failure, close
	fin := make(chan struct{})
	var env sync.WaitGroup
	env.Add(1)
	go func() {
		defer env.Done()
		hs := 0
		ending := w.rnd(6)
		if rate > 0 {
			ending = 2
		}
		after := w.rnd(30)
		for i := 0; ; i++ {
			select {
			case <-fin:
				return
			case <-time.After(time.Duration(50+w.rnd(400)) * time.Microsecond):
			}
			c := net0()
			if hs < 6 && w.rnd(3) == 0 {
				g++
				hs++
				c.PeerSend(encodeFrame(rid, uint32(g), fNB, nil))
				rid += 2
			}
			if w.rnd(8) == 0 {
				c.Stall(true)
				time.Sleep(time.Duration(w.rnd(2000)) * time.Microsecond)
				c.Stall(false)
			}
			if i == after {
				switch ending {
				case 0:
					w.breaks(c)
					c.PeerEOF()
				case 1:
					w.tr.log(ev{"e": "close"})
					if ci != nil {
						ci.Close()
					} else {
						conn.Close()
					}
				case 2:
					if role == "server" {
						// a batch piles up and is being written when the shutdown begins
						c.Stall(true)
						time.Sleep(time.Duration(w.rnd(300)) * time.Microsecond)
						c.mu.Lock()
						c.restall = 1 + w.rnd(3)
						c.mu.Unlock()
						c.Stall(false)
						time.Sleep(time.Duration(w.rnd(500)) * time.Microsecond)
						w.tr.log(ev{"e": "close"})
						go cleanup()
						time.Sleep(time.Duration(w.rnd(8000)) * time.Microsecond)
						c.mu.Lock()
						c.restall = 0
						c.mu.Unlock()
						c.Stall(false)
					}
				}
			}
		}
	}()
	ok := w.waitWriters(30 * time.Second)
	close(fin)
	env.Wait()
	w.tr.log(ev{"e": "end"})
	t := w.tr.events()
	if ok {
		cleanup()
	} else {
		go cleanup()
	}
	return t
}

func famWq(g *globals) (*results, interface{}, error) {
	var cfg wqCfg
	must(jsonUnmarshal(g.cfg, &cfg))
	if g.par > 16 {
		g.par = 16
	}
	return recordTraces(g, func(seed int) []ev { return wqOne(cfg.Role, seed) })
}
