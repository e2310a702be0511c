package main

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
)

// Step of a behaviour printed by a generator specification.
type Step struct {
	A   []string
	Obs []string
	Fl  []string
	Pk  string
}

// Alt is one allowed outcome of a step.
type Alt struct {
	Obs []string `json:"obs"` // sorted
	Fl  []string `json:"fl"`  // sorted
	Pk  string   `json:"pk,omitempty"`
}

// SStep is a script step: concurrent actions and the allowed outcomes.
type SStep struct {
	A    []string `json:"a"`
	Alts []Alt    `json:"alts"`
}

// Script is one test: a behaviour of the specification.
type Script struct {
	Steps []SStep `json:"steps"`
	key   string
}

// behaviour line parser: JSON as TLC prints it, inside a quoted string
type bparser struct {
	b []byte
	i int
}

func (p *bparser) bad(what string) error {
	lo, hi := p.i-40, p.i+40
	if lo < 0 {
		lo = 0
	}
	if hi > len(p.b) {
		hi = len(p.b)
	}
	return fmt.Errorf("behaviour: %s at %q", what, p.b[lo:hi])
}

func (p *bparser) ws() {
	for p.i < len(p.b) && (p.b[p.i] == ' ' || p.b[p.i] == ',') {
		p.i++
	}
}

func (p *bparser) str() (string, error) {
	if p.i >= len(p.b) || p.b[p.i] != '"' {
		return "", p.bad("string expected")
	}
	j := bytes.IndexByte(p.b[p.i+1:], '"')
	if j < 0 {
		return "", p.bad("unterminated string")
	}
	s := string(p.b[p.i+1 : p.i+1+j])
	p.i += j + 2
	return s, nil
}

// flat renders a value: numbers, booleans and strings separated by blanks,
// inner lists in brackets
func (p *bparser) flat(sb *strings.Builder, top bool) error {
	p.ws()
	if p.i >= len(p.b) {
		return p.bad("value expected")
	}
	switch c := p.b[p.i]; {
	case c == '"':
		s, err := p.str()
		sb.WriteString(s)
		return err
	case c == '[':
		p.i++
		if !top {
			sb.WriteByte('[')
		}
		for n := 0; ; n++ {
			p.ws()
			if p.i >= len(p.b) {
				return p.bad("unterminated list")
			}
			if p.b[p.i] == ']' {
				p.i++
				break
			}
			if n > 0 {
				sb.WriteByte(' ')
			}
			if err := p.flat(sb, false); err != nil {
				return err
			}
		}
		if !top {
			sb.WriteByte(']')
		}
		return nil
	case c == 't':
		sb.WriteByte('T')
		p.i += 4
		return nil
	case c == 'f':
		sb.WriteByte('F')
		p.i += 5
		return nil
	case c == '-' || c >= '0' && c <= '9':
		for p.i < len(p.b) && (p.b[p.i] == '-' || p.b[p.i] >= '0' && p.b[p.i] <= '9') {
			sb.WriteByte(p.b[p.i])
			p.i++
		}
		return nil
	}
	return p.bad("value expected")
}

// list of flat values
func (p *bparser) list() ([]string, error) {
	p.ws()
	if p.i >= len(p.b) || p.b[p.i] != '[' {
		return nil, p.bad("list expected")
	}
	p.i++
	r := []string{}
	for {
		p.ws()
		if p.i >= len(p.b) {
			return nil, p.bad("unterminated list")
		}
		if p.b[p.i] == ']' {
			p.i++
			return r, nil
		}
		var sb strings.Builder
		if err := p.flat(&sb, true); err != nil {
			return nil, err
		}
		r = append(r, sb.String())
	}
}

func (p *bparser) step() (s Step, err error) {
	p.ws()
	if p.i >= len(p.b) || p.b[p.i] != '{' {
		return s, p.bad("step expected")
	}
	p.i++
	for {
		p.ws()
		if p.i >= len(p.b) {
			return s, p.bad("unterminated step")
		}
		if p.b[p.i] == '}' {
			p.i++
			sort.Strings(s.Obs)
			sort.Strings(s.Fl)
			return s, nil
		}
		var k string
		if k, err = p.str(); err != nil {
			return
		}
		if p.i < len(p.b) && p.b[p.i] == ':' {
			p.i++
		}
		switch k {
		case "a":
			s.A, err = p.list()
		case "obs":
			s.Obs, err = p.list()
		case "fl":
			s.Fl, err = p.list()
		case "pk":
			var sb strings.Builder
			err = p.flat(&sb, true)
			s.Pk = sb.String()
		default:
			return s, p.bad("unknown field " + k)
		}
		if err != nil {
			return
		}
	}
}

func parseBehaviour(line []byte) ([]Step, error) {
	p := &bparser{b: line}
	if len(p.b) == 0 || p.b[0] != '[' {
		return nil, p.bad("behaviour expected")
	}
	p.i++
	var r []Step
	for {
		p.ws()
		if p.i >= len(p.b) {
			return nil, p.bad("unterminated behaviour")
		}
		if p.b[p.i] == ']' {
			return r, nil
		}
		s, err := p.step()
		if err != nil {
			return nil, err
		}
		r = append(r, s)
	}
}

// behaviours parses the "@@" lines TLC printed, in parallel.
func behaviours(file string) ([][]Step, error) {
	data, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var lines [][]byte
	for len(data) > 0 {
		j := bytes.IndexByte(data, '\n')
		var l []byte
		if j < 0 {
			l, data = data, nil
		} else {
			l, data = data[:j], data[j+1:]
		}
		if k := bytes.Index(l, []byte(`"@@`)); k >= 0 {
			l = bytes.TrimRight(l[k+3:], " \r\n")
			if len(l) == 0 || l[len(l)-1] != '"' {
				return nil, fmt.Errorf("truncated behaviour %.100q", l)
			}
			lines = append(lines, l[:len(l)-1])
		}
	}
	out := make([][]Step, len(lines))
	var wg sync.WaitGroup
	var mu sync.Mutex
	n := runtime.NumCPU()
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := w; i < len(lines); i += n {
				s, e := parseBehaviour(bytes.ReplaceAll(lines[i], []byte(`\"`), []byte(`"`)))
				if e != nil {
					mu.Lock()
					err = e
					mu.Unlock()
					return
				}
				out[i] = s
			}
		}()
	}
	wg.Wait()
	return out, err
}

// loadScripts turns TLC output into scripts: behaviours with equal actions are
// merged (their last steps become alternatives), and behaviours that are
// prefixes of others are dropped.
func loadScripts(file string) ([]*Script, int, error) {
	bs, err := behaviours(file)
	if err != nil {
		return nil, 0, err
	}
	type node struct {
		sc   *Script
		alts map[string]bool
	}
	m := make(map[string]*node, len(bs))
	prefixes := make(map[string]bool, len(bs))
	for _, st := range bs {
		var sb strings.Builder
		sc := &Script{Steps: make([]SStep, len(st))}
		for i, s := range st {
			if len(s.A) > 1 && !sameActor(s.A) {
				sort.Strings(s.A)
			}
			sb.WriteString(strings.Join(s.A, "&"))
			sb.WriteByte(';')
			if i < len(st)-1 {
				prefixes[sb.String()] = true
			}
			sc.Steps[i] = SStep{A: s.A, Alts: []Alt{{s.Obs, s.Fl, s.Pk}}}
		}
		sc.key = sb.String()
		last := sc.Steps[len(sc.Steps)-1].Alts[0]
		ak := strings.Join(last.Obs, "|") + "#" + strings.Join(last.Fl, "|") + "#" + last.Pk
		nd := m[sc.key]
		if nd == nil {
			m[sc.key] = &node{sc, map[string]bool{ak: true}}
			continue
		}
		if !nd.alts[ak] {
			nd.alts[ak] = true
			l := &nd.sc.Steps[len(nd.sc.Steps)-1]
			l.Alts = append(l.Alts, last)
		}
	}
	amb := map[string]bool{}
	for k, nd := range m {
		if len(nd.alts) > 1 {
			amb[k] = true
		}
	}
	var out []*Script
	for k, nd := range m {
		// a step inside a behaviour has one recorded outcome: behaviours
		// through a step with several outcomes cannot be replayed blindly
		if prefixes[k] && !amb[k] {
			continue
		}
		bad := false
		if len(amb) > 0 {
			p := ""
			for _, st := range nd.sc.Steps[:len(nd.sc.Steps)-1] {
				p += strings.Join(st.A, "&") + ";"
				if amb[p] {
					bad = true
				}
			}
		}
		if !bad {
			out = append(out, nd.sc)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out, len(bs), nil
}

// actorOf tells who performs an action; actions of one actor are sequential.
func actorOf(a string) string {
	f := strings.Fields(a)
	switch f[0] {
	case "peer", "eof":
		return "peer"
	case "own", "cclose":
		return a
	}
	return "act " + f[1]
}

func sameActor(as []string) bool {
	for _, a := range as[1:] {
		if actorOf(a) != actorOf(as[0]) {
			return false
		}
	}
	return true
}
