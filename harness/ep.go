package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

var errEOF = io.EOF

var stepDeadline = 20 * time.Second

// epCfg is the configuration of an Endpoint replay.
type epCfg struct {
	Role        string `json:"role"`
	HasHandler  bool   `json:"has_handler"`
	HasSub      bool   `json:"has_sub"`
	MaxInflight int    `json:"max_inflight"`
}

// variant of the implementation's configuration that must not matter.
type epVariant struct {
	WCh    int `json:"write_ch"`
	RCh    int `json:"read_ch"`
	RChunk int `json:"rchunk"`
	FV     int `json:"flag_variant"`
	PV     int `json:"payload_variant"` // which payloads are empty
}

var epVariants = []epVariant{
	{1, 0, 0, 0, 0}, {0, 0, 1, 1, 1}, {8, 4, 0, 0, 2}, {3, 0, 7, 1, 0}, {64, 1, 0, 1, 1},
}

type actor struct {
	tag   int
	typ   string
	id    uint64
	w     qrpc.FrameWriter
	rf    *qrpc.RequestFrame
	f     *qrpc.Frame
	sw    qrpc.StreamWriter
	resp  qrpc.Response
	gave  context.CancelFunc
	cmds  chan []string
	quit  chan struct{}
	watch bool
	got   chan struct{} // closed once f is set (callers)
}

type epRun struct {
	cfg   epCfg
	v     epVariant
	srv   *epServer
	fc    *FConn
	conn  *qrpc.Connection
	ci    *qrpc.ConnectionInfo
	mu    sync.Mutex
	obs   []string
	from  int
	ch    chan struct{} // signalled on every observation
	acts  map[int]*actor
	wired map[uint64]bool // ids of frames that were put on the wire
	conc  int32           // in a concurrent step
	wg    sync.WaitGroup
	quit  chan struct{}
	ended bool
	oncl  int32
	downs int32
	cbs   sync.WaitGroup
}

func (r *epRun) log(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	r.mu.Lock()
	r.obs = append(r.obs, s)
	r.mu.Unlock()
	r.poke()
}

func (r *epRun) payload(tag int) []byte {
	if (tag+r.v.PV)%3 == 0 {
		return nil
	}
	return payloadFor(tag)
}

func (r *epRun) payloadOK(tag int, p []byte) bool { return bytes.Equal(p, r.payload(tag)) }

func (r *epRun) poke() {
	select {
	case r.ch <- struct{}{}:
	default:
	}
}

func (r *epRun) onFrame(f WFrame) {
	k := kindOf(f.Flags)
	if f.Flags&fRst == 0 && !r.payloadOK(int(f.Cmd), f.Payload) {
		r.log("badpayload %d %s %d len %d", f.ID, k, f.Cmd, len(f.Payload))
		return
	}
	if f.Flags&fRst != 0 && len(f.Payload) > 0 {
		r.log("rst with payload %d %d", f.ID, f.Cmd)
	}
	if f.Flags&(fCodec|0xc0) != 0 {
		r.log("badflags %d", f.Flags)
	}
	r.log("wire %d %s %d", f.ID, k, f.Cmd)
	r.mu.Lock()
	r.wired[f.ID] = true
	r.mu.Unlock()
}

func (r *epRun) onWire(id uint64) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.wired[id]
}

func (r *epRun) newActor(typ string, f *qrpc.Frame, tag int) *actor {
	a := &actor{typ: typ, tag: tag, cmds: make(chan []string, 16), quit: r.quit, f: f}
	if f != nil {
		a.id = f.RequestID
	}
	r.mu.Lock()
	if r.acts[tag] != nil {
		r.mu.Unlock()
		r.log("duplicate %s %d", typ, tag)
		r.mu.Lock()
	}
	r.acts[tag] = a
	r.mu.Unlock()
	r.watchActor(a)
	return a
}

func (r *epRun) watchActor(a *actor) {
	if a.f == nil {
		return
	}
	ctx, done := a.f.Context().Done(), a.f.Stream.Done()
	r.mu.Lock()
	a.watch = true
	r.mu.Unlock()
	go func() {
		<-ctx
		r.poke()
		<-done
		r.poke()
	}()
}

func (r *epRun) handler(w qrpc.FrameWriter, rf *qrpc.RequestFrame) {
	tag := int(rf.Cmd)
	a := r.newActor("h", (*qrpc.Frame)(rf), tag)
	a.w, a.rf = w, rf
	if !r.payloadOK(tag, rf.Payload) {
		r.log("badpayload in handler %d", tag)
	}
	r.log("start %d", tag)
	r.serveActor(a)
}

func (r *epRun) sub(f *qrpc.Frame) {
	tag := int(f.Cmd)
	a := r.newActor("s", f, tag)
	if !r.payloadOK(tag, f.Payload) {
		r.log("badpayload in subscriber %d", tag)
	}
	r.log("sub %d", tag)
	go r.serveActor(a)
}

func okErr(err error) string {
	if err == nil {
		return "ok"
	}
	return "err"
}

// serveActor performs the commands of the script in the actor's goroutine.
func (r *epRun) serveActor(a *actor) {
	for {
		var c []string
		select {
		case c = <-a.cmds:
		case <-a.quit:
			return
		}
		switch c[0] {
		case "hw":
			t := atoi(c[3])
			var err error
			if c[2] == "R" {
				err = a.w.ResetFrame(a.id, qrpc.Cmd(t))
			} else {
				a.w.StartWrite(a.id, qrpc.Cmd(t), qrpc.FrameFlag(flagsOf(c[2], r.v.FV)))
				a.w.WriteBytes(r.payload(t))
				err = a.w.EndWrite()
			}
			r.log("res %d %d %s", a.tag, t, okErr(err))
		case "ab":
			a.w.StartWrite(a.id, 0x7777, 0)
			a.w.WriteBytes([]byte("never to be sent"))
		case "cw":
			t := atoi(c[3])
			var err error
			if c[2] == "R" {
				err = a.sw.ResetFrame(qrpc.Cmd(t))
			} else {
				a.sw.StartWrite(qrpc.Cmd(t))
				a.sw.WriteBytes(r.payload(t))
				err = a.sw.EndWrite(c[2] == "E")
			}
			r.log("res %d %d %s", a.tag, t, okErr(err))
		case "creset":
			t := atoi(c[3])
			err := r.conn.ResetFrame(a.id, qrpc.Cmd(t))
			r.log("res %d %d %s", a.tag, t, okErr(err))
		case "recv":
			if a.got != nil {
				select {
				case <-a.got:
				case <-a.quit:
					return
				}
			}
			select {
			case f := <-a.f.FrameCh():
				if f == nil {
					r.log("recv %d 0", a.tag)
				} else {
					if !r.payloadOK(int(f.Cmd), f.Payload) {
						r.log("badpayload received by %d", a.tag)
					}
					if f.RequestID != a.id {
						r.log("bad id %d received by %d", f.RequestID, a.tag)
					}
					r.log("recv %d %d", a.tag, f.Cmd)
				}
			case <-a.quit:
				return
			}
		case "ret":
			return
		case "panic":
			panic("scripted")
		case "close":
			a.rf.Close()
		}
	}
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		panic(err)
	}
	return n
}

// own starts a request from the end point under test.
func (r *epRun) own(k string, id uint64, t int) {
	var (
		rid  uint64
		resp qrpc.Response
		sw   qrpc.StreamWriter
		err  error
	)
	p := r.payload(t)
	cmd := qrpc.Cmd(t)
	type requester interface {
		Request(qrpc.Cmd, qrpc.FrameFlag, []byte) (uint64, qrpc.Response, error)
		StreamRequest(qrpc.Cmd, qrpc.FrameFlag, []byte) (qrpc.StreamWriter, qrpc.Response, error)
	}
	var q requester
	if r.conn != nil {
		q = r.conn
	} else {
		q = r.ci
	}
	switch k {
	case "S":
		sw, resp, err = q.StreamRequest(cmd, 0, p)
	case "E":
		sw, resp, err = q.StreamRequest(cmd, qrpc.StreamEndFlag, p)
	default:
		rid, resp, err = q.Request(cmd, qrpc.FrameFlag(flagsOf(k, 0)), p)
	}
	if err != nil {
		r.log("req %d err", t)
		return
	}
	if sw != nil {
		rid = sw.RequestID()
	}
	if k == "P" {
		if resp != nil {
			r.log("response for a push %d", t)
		}
		r.log("req %d ok", t)
		return
	}
	if rid != id {
		r.log("request id %d instead of %d", rid, id)
	}
	ctx, cancel := context.WithCancel(context.Background())
	a := &actor{typ: "c", tag: t, id: rid, cmds: make(chan []string, 16), quit: r.quit, sw: sw, resp: resp, gave: cancel, got: make(chan struct{})}
	r.mu.Lock()
	r.acts[t] = a
	r.mu.Unlock()
	go r.serveActor(a)
	r.log("req %d ok", t)
	go func() {
		f, err := resp.GetFrameWithContext(ctx)
		switch {
		case err == nil:
			if !r.payloadOK(int(f.Cmd), f.Payload) {
				r.log("badpayload in answer to %d", t)
			}
			if f.RequestID != rid {
				r.log("answer with id %d for %d", f.RequestID, rid)
			}
			a.f = f
			close(a.got)
			r.watchActor(a)
			r.log("get %d %d", t, f.Cmd)
		case ctx.Err() != nil && err == ctx.Err():
			r.log("get %d 1000000", t)
		default:
			r.log("get %d 0", t)
		}
	}()
}

func (r *epRun) localClose() {
	if r.conn != nil {
		r.conn.Close()
	} else {
		go r.ci.Close()
	}
}

func (r *epRun) perform(a string) {
	c := strings.Fields(a)
	switch c[0] {
	case "peer":
		id, t := atoi(c[2]), atoi(c[3])
		var p []byte
		if c[1] != "R" && c[1] != "PR" {
			p = r.payload(t)
		}
		if own := id%2 == 1; own == (r.cfg.Role == "client") && c[1][0] != 'P' {
			// as soon as the request is on the wire
			for w := 0; w < 20000 && !r.onWire(uint64(id)) && !r.fc.isClosed(); w++ {
				if w < 100 {
					runtime.Gosched()
				} else {
					time.Sleep(100 * time.Microsecond)
				}
			}
		}
		r.fc.PeerSend(encodeFrame(uint64(id), uint32(t), flagsOf(c[1], r.v.FV), p))
	case "eof":
		r.fc.PeerEOF()
	case "cclose":
		r.localClose()
	case "own":
		go r.own(c[1], uint64(atoi(c[2])), atoi(c[3]))
	case "giveup":
		if a := r.actor(atoi(c[1])); a == nil {
			r.log("no actor for %s", strings.Join(c, " "))
		} else {
			a.gave()
		}
	default:
		a := r.actor(atoi(c[1]))
		if a == nil {
			r.log("no actor for %s", strings.Join(c, " "))
			return
		}
		a.cmds <- c
	}
}

// actor finds an actor; in a concurrent step it may have yet to appear.
func (r *epRun) actor(t int) *actor {
	deadline := time.Now().Add(stepDeadline)
	for i := 0; ; i++ {
		r.mu.Lock()
		a := r.acts[t]
		r.mu.Unlock()
		if a != nil || time.Now().After(deadline) {
			return a
		}
		if i < 20 {
			runtime.Gosched()
		} else {
			time.Sleep(100 * time.Microsecond)
		}
	}
}

func isClosed(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

func tf(b bool) string {
	if b {
		return "T"
	}
	return "F"
}

// state returns the observations of the current step and the flags of all actors.
func (r *epRun) state() (obs, fl []string) {
	r.mu.Lock()
	obs = append(obs, r.obs[r.from:]...)
	for t, a := range r.acts {
		if a.watch {
			fl = append(fl, fmt.Sprintf("%d %s %s", t, tf(isClosed(a.f.Context().Done())), tf(isClosed(a.f.Stream.Done()))))
		}
	}
	r.mu.Unlock()
	sort.Strings(obs)
	for i := len(obs) - 1; i > 0; i-- {
		if obs[i] == obs[i-1] {
			obs[i] += " again"
		}
	}
	sort.Strings(obs)
	sort.Strings(fl)
	return
}

func eq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// sub-multiset of sorted lists
func subset(a, b []string) bool {
	j := 0
	for _, x := range a {
		for j < len(b) && b[j] < x {
			j++
		}
		if j >= len(b) || b[j] != x {
			return false
		}
		j++
	}
	return true
}

type stepFail struct {
	Step    int      `json:"step"`
	Actions []string `json:"actions"`
	Kind    string   `json:"kind"` // "missing" or "unexpected"
	Allowed []Alt    `json:"allowed"`
	Obs     []string `json:"observed"`
	Fl      []string `json:"observed_flags"`
	All     []string `json:"all_observed"`
}

func (r *epRun) fail(i int, st SStep, kind string, obs, fl []string) *stepFail {
	r.mu.Lock()
	all := append([]string(nil), r.obs...)
	r.mu.Unlock()
	return &stepFail{i, st.A, kind, st.Alts, obs, fl, all}
}

func (r *epRun) await(i int, st SStep) *stepFail {
	deadline := time.Now().Add(stepDeadline)
	wait := 50 * time.Microsecond
	for {
		obs, fl := r.state()
		possible := false
		for _, al := range st.Alts {
			if eq(obs, al.Obs) && eq(fl, al.Fl) && (al.Pk != "T" || r.fc.Parked()) {
				return nil
			}
			if subset(obs, al.Obs) {
				possible = true
			}
		}
		if !possible {
			return r.fail(i, st, "unexpected", obs, fl)
		}
		if time.Now().After(deadline) {
			return r.fail(i, st, "missing", obs, fl)
		}
		t := time.NewTimer(wait)
		select {
		case <-r.ch:
		case <-t.C:
			if wait < 20*time.Millisecond {
				wait *= 2
			}
		}
		t.Stop()
	}
}

// matches tells whether the current step still is in an allowed state.
func (r *epRun) matches(st SStep) bool {
	obs, fl := r.state()
	for _, al := range st.Alts {
		if eq(obs, al.Obs) && eq(fl, al.Fl) {
			return true
		}
	}
	return false
}

func (r *epRun) run(sc *Script, settle time.Duration) (fail *stepFail) {
	for i, st := range sc.Steps {
		r.mu.Lock()
		r.from = len(r.obs)
		r.mu.Unlock()
		if len(st.A) == 1 || sameActor(st.A) {
			for _, a := range st.A {
				r.perform(a)
			}
		} else {
			var wg sync.WaitGroup
			start := make(chan struct{})
			byActor := map[string][]string{}
			var order []string
			for _, a := range st.A {
				k := actorOf(a)
				if byActor[k] == nil {
					order = append(order, k)
				}
				byActor[k] = append(byActor[k], a)
			}
			for _, k := range order {
				as := byActor[k]
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for _, a := range as {
						r.perform(a)
					}
				}()
			}
			atomic.StoreInt32(&r.conc, 1)
			close(start)
			wg.Wait()
		}
		if f := r.await(i, st); f != nil {
			return f
		}
		if r.cfg.MaxInflight > 0 && i < len(sc.Steps)-1 {
			// a handler that returned silently may still be counted for a moment
			for _, a := range st.A {
				if strings.HasPrefix(a, "ret") || strings.HasPrefix(a, "panic") {
					time.Sleep(3 * time.Millisecond)
				}
			}
		}
		if i == len(sc.Steps)-1 {
			time.Sleep(settle)
			if !r.matches(st) {
				// a further observation, maybe on the way to another allowed outcome
				if f := r.await(i, st); f != nil {
					return f
				}
			}
		}
	}
	// the end: the peer goes away, everybody stops; everything must be torn down
	r.mu.Lock()
	r.ended = true
	r.mu.Unlock()
	close(r.quit)
	if len(sc.Steps) > 0 {
		r.fc.PeerEOF()
		for _, al := range sc.Steps[len(sc.Steps)-1].Alts {
			if al.Pk != "T" {
				// the reader may be held up by a stream
				r.localClose()
				break
			}
		}
		deadline := time.Now().Add(stepDeadline)
		for {
			r.mu.Lock()
			ok := atomic.LoadInt32(&r.oncl) == 1 && atomic.LoadInt32(&r.downs) == 1
			for _, a := range r.acts {
				if a.watch && !(isClosed(a.f.Context().Done()) && isClosed(a.f.Stream.Done())) {
					ok = false
				}
			}
			r.mu.Unlock()
			if ok {
				break
			}
			if time.Now().After(deadline) {
				obs, fl := r.state()
				return r.fail(len(sc.Steps), SStep{A: []string{"final teardown"}}, "missing", append(obs, fmt.Sprintf("onclose %d down %d", r.oncl, r.downs)), fl)
			}
			select {
			case <-r.ch:
			case <-time.After(time.Millisecond):
			}
		}
	}
	return nil
}

func (r *epRun) cleanup() {
	r.mu.Lock()
	if !r.ended {
		r.ended = true
		close(r.quit)
	}
	for _, a := range r.acts {
		if a.gave != nil {
			a.gave()
		}
	}
	r.mu.Unlock()
	r.fc.PeerEOF()
	if r.conn != nil {
		r.conn.Close()
	}
	if r.srv != nil {
		r.srv.conns.Delete(r.fc.name)
	}
}

// epServer is one server shared by many runs.
type epServer struct {
	ln    *FListener
	srv   *qrpc.Server
	conns sync.Map // remote address -> *epRun
}

var connSeq int64

func newEpServer(cfg epCfg, v epVariant) *epServer {
	s := &epServer{ln: newFListener()}
	find := func(addr string) *epRun {
		r, ok := s.conns.Load(addr)
		if !ok {
			return nil
		}
		return r.(*epRun)
	}
	b := qrpc.ServerBinding{
		Addr: "fake", ReadFrameChSize: v.RCh, WriteFrameChSize: v.WCh,
		MaxInboundInflightStreamPerConn: int32(cfg.MaxInflight),
		ListenFunc:                      func(_, _ string) (net.Listener, error) { return s.ln, nil },
		Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
			if r := find(f.ConnectionInfo().RemoteAddr()); r != nil {
				r.handler(w, f)
			}
		}),
		LifecycleCallbacks: qrpc.ServerLifecycleCallbacks{OnClose: func(c net.Conn) {
			if r := find(c.RemoteAddr().String()); r != nil {
				atomic.AddInt32(&r.oncl, 1)
				r.log("onclose")
			}
		}},
	}
	if cfg.HasSub {
		b.SubFunc = func(ci *qrpc.ConnectionInfo, f *qrpc.Frame) {
			if r := find(ci.RemoteAddr()); r != nil {
				r.sub(f)
			}
		}
	}
	s.srv = qrpc.NewServer([]qrpc.ServerBinding{b})
	if err := s.srv.ListenAll(); err != nil {
		panic(err)
	}
	go s.srv.ServeAll()
	return s
}

func newEpRun(cfg epCfg, v epVariant, s *epServer) (*epRun, error) {
	n := atomic.AddInt64(&connSeq, 1)
	r := &epRun{cfg: cfg, v: v, srv: s, ch: make(chan struct{}, 1), acts: map[int]*actor{}, wired: map[uint64]bool{}, quit: make(chan struct{})}
	fc := newFConn(fmt.Sprintf("c%d", n))
	fc.rchunk = v.RChunk
	fc.onFrame = r.onFrame
	fc.onWait = r.poke
	fc.linger = func() {
		if atomic.LoadInt32(&r.conc) != 0 && n%3 == 0 {
			time.Sleep(time.Duration(20+n%200) * time.Microsecond)
		}
	}
	fc.onBad = func(err error) { r.log("bad wire: %v", err) }
	fc.onClose = func() {
		atomic.AddInt32(&r.downs, 1)
		r.log("down")
	}
	r.fc = fc
	if cfg.Role == "server" {
		s.conns.Store(fc.name, r)
		if !s.ln.Inject(fc, 20*time.Second) {
			return nil, fmt.Errorf("connection not accepted")
		}
		for i := 0; r.ci == nil; i++ {
			s.srv.WalkConn(0, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
				if ci.RemoteAddr() == fc.name {
					r.ci = ci
					return false
				}
				return true
			})
			if i > 10 {
				time.Sleep(100 * time.Microsecond)
			}
			if i > 100000 {
				return nil, fmt.Errorf("connection not listed by WalkConn")
			}
		}
	} else {
		conf := qrpc.ConnectionConfig{
			WriteFrameChSize: v.WCh,
			OverlayNetwork:   func(string, qrpc.DialConfig) (net.Conn, error) { return fc, nil },
			LifecycleCallbacks: qrpc.ClientLifecycleCallbacks{OnDisconnect: func(*qrpc.Connection) {
				atomic.AddInt32(&r.oncl, 1)
				r.log("onclose")
			}},
		}
		if cfg.HasHandler {
			conf.Handler = qrpc.HandlerFunc(r.handler)
		}
		var sub qrpc.SubFunc
		if cfg.HasSub {
			sub = func(_ *qrpc.Connection, f *qrpc.Frame) { r.sub(f) }
		}
		conn, err := qrpc.NewConnection("fake", conf, sub)
		if err != nil {
			return nil, err
		}
		r.conn = conn
	}
	return r, nil
}

type epReplay struct {
	Family  string    `json:"family"`
	Cfg     epCfg     `json:"cfg"`
	Variant epVariant `json:"variant"`
	Perturb string    `json:"perturbation"`
	Script  *Script   `json:"script"`
	Fail    *stepFail `json:"failure"`
}

// runEp replays all scripts; it returns the first failure.
func runEp(cfg epCfg, scripts []*Script, par int, settle time.Duration, deadline time.Time, seed int, pt *perturber) (done int, steps int64, bad *epReplay, err error) {
	var servers []*epServer
	for _, v := range epVariants {
		if cfg.Role == "server" {
			servers = append(servers, newEpServer(cfg, v))
		} else {
			servers = append(servers, nil)
		}
	}
	defer func() {
		for _, s := range servers {
			if s != nil {
				s := s
				go s.srv.Shutdown()
			}
		}
	}()
	var (
		next    int64 = -1
		ndone   int64
		nsteps  int64
		stop    int32
		mu      sync.Mutex
		wg      sync.WaitGroup
		infraEr error
	)
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for atomic.LoadInt32(&stop) == 0 && time.Now().Before(deadline) {
				i := int(atomic.AddInt64(&next, 1))
				if i >= len(scripts) {
					return
				}
				sc := scripts[i]
				vi := (i + seed) % len(epVariants)
				f, e := runEpOne(cfg, epVariants[vi], servers[vi], sc, settle)
				if e != nil {
					mu.Lock()
					infraEr = e
					mu.Unlock()
					atomic.StoreInt32(&stop, 1)
					return
				}
				atomic.AddInt64(&ndone, 1)
				atomic.AddInt64(&nsteps, int64(len(sc.Steps)))
				if f != nil {
					mu.Lock()
					if bad == nil {
						bad = &epReplay{"ep", cfg, epVariants[vi], pt.current(), sc, f}
					}
					mu.Unlock()
					atomic.StoreInt32(&stop, 1)
					return
				}
			}
		}()
	}
	wg.Wait()
	return int(ndone), nsteps, bad, infraEr
}

func runEpOne(cfg epCfg, v epVariant, s *epServer, sc *Script, settle time.Duration) (*stepFail, error) {
	r, err := newEpRun(cfg, v, s)
	if err != nil {
		return nil, err
	}
	f := r.run(sc, settle)
	r.cleanup()
	return f, nil
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic(err)
	}
}
