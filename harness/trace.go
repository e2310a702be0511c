package main

import (
	"encoding/json"
	"os"
	"sync"
	"time"
)

// ev is one event of a recorded trace.
type ev map[string]interface{}

// trace records events in the order in which they are logged.
type trace struct {
	mu  sync.Mutex
	evs []ev
}

func (t *trace) log(e ev) {
	t.mu.Lock()
	t.evs = append(t.evs, e)
	t.mu.Unlock()
}

func (t *trace) events() []ev {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([]ev(nil), t.evs...)
}

// recordTraces repeats a run with consecutive seeds, in parallel, until the
// time is over or max traces were recorded, the second half of the time under
// schedule perturbation, and writes the traces to g.tr.
func recordTraces(g *globals, one func(seed int) []ev) (*results, interface{}, error) {
	res := &results{}
	var (
		mu     sync.Mutex
		traces [][]ev
	)
	end := time.Now().Add(time.Duration(g.secs) * time.Second)
	half := time.Now().Add(time.Duration(g.secs) * time.Second / 3)
	next := g.seed * 1000000
	pass := func(end time.Time, max int) {
		var wg sync.WaitGroup
		for k := 0; k < g.par; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					mu.Lock()
					s := next
					next++
					full := max > 0 && len(traces) >= max
					mu.Unlock()
					if full || time.Now().After(end) {
						return
					}
					t := one(s)
					if t == nil {
						continue
					}
					mu.Lock()
					traces = append(traces, t)
					res.Steps += int64(len(t))
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
	}
	pass(half, g.max/3)
	plain := len(traces)
	pt := startPerturber(g.seed, 10*time.Millisecond)
	pass(end, g.max)
	res.Perturbations = pt.close()
	res.Perturbed = len(traces) - plain
	res.Done = len(traces)
	if len(traces) > 0 {
		s := traces[len(traces)/2]
		if len(s) > 40 {
			s = s[:40]
		}
		res.Sample = s
	}
	b, err := json.Marshal(traces)
	if err != nil {
		return nil, nil, err
	}
	return res, nil, os.WriteFile(g.tr, b, 0o644)
}
