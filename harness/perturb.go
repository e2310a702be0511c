package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	"qv/vyield"
)

// perturber keeps changing the schedule perturbation until stopped: random
// yields everywhere, or long delays at a few statements of the library.
type perturber struct {
	stop chan struct{}
	wg   sync.WaitGroup
	mu   sync.Mutex
	cur  string
	n    int
}

func startPerturber(seed int, every time.Duration) *perturber {
	p := &perturber{stop: make(chan struct{})}
	r := rand.New(rand.NewSource(int64(seed)))
	vyield.Off()
	vyield.Random(4096, 16, 50)
	known := map[int]bool{}
	p.wg.Add(1)
	go func() {
		defer p.wg.Done()
		defer vyield.Off()
		for i := 0; ; i++ {
			select {
			case <-p.stop:
				return
			case <-time.After(every):
			}
			for _, s := range vyield.Hits() {
				known[s] = true
			}
			var sites []int
			for s := range known {
				sites = append(sites, s)
			}
			sortInts(sites)
			vyield.Off()
			var what string
			if i%4 == 0 || len(sites) == 0 {
				a, b, c := uint32(r.Intn(20000)), uint32(r.Intn(300)), uint32(20+r.Intn(500))
				vyield.Random(a, b, c)
				what = fmt.Sprintf("random %d %d %d", a, b, c)
			} else {
				vyield.Random(uint32(r.Intn(8000)), 0, 0)
				n := 1 + r.Intn(6)
				us := uint32([]int{100, 300, 1000, 3000}[r.Intn(4)])
				what = fmt.Sprintf("delay %dus at", us)
				for k := 0; k < n; k++ {
					s := sites[r.Intn(len(sites))]
					vyield.Delay(s, us)
					what += fmt.Sprintf(" %d", s)
				}
			}
			p.mu.Lock()
			p.cur = what
			p.n++
			p.mu.Unlock()
		}
	}()
	return p
}

func (p *perturber) current() string {
	if p == nil {
		return ""
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.cur
}

func (p *perturber) close() int {
	if p == nil {
		return 0
	}
	close(p.stop)
	p.wg.Wait()
	return p.n
}
