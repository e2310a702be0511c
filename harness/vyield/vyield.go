// Package vyield perturbs schedules. The instrumenter (cmd/instr) inserts a
// call to P before the statements of the library under test, in an overlay that
// exists only for the build of the checks: the files of the library are not
// touched, and P does nothing but give way or sleep.
package vyield

import (
	"math/rand/v2"
	"runtime"
	"sync/atomic"
	"time"
)

var (
	on    atomic.Int32
	prob  atomic.Uint32 // yield probability, of 1<<16
	slp   atomic.Uint32 // sleep probability, of 1<<16
	maxUs atomic.Uint32 // longest random sleep
	delay [65536]atomic.Uint32
	hits  [65536]atomic.Uint32
	// MaxSite is the number of sites seen so far
	maxSite atomic.Uint32
)

// Off turns all perturbation off.
func Off() {
	on.Store(0)
	prob.Store(0)
	slp.Store(0)
	for i := range delay[:maxSite.Load()+1] {
		delay[i].Store(0)
	}
}

// Random makes every site yield with probability p and sleep up to us
// microseconds with probability s (both of 65536).
func Random(p, s, us uint32) {
	prob.Store(p)
	slp.Store(s)
	maxUs.Store(us)
	on.Store(1)
}

// Delay makes one site sleep us microseconds on every visit.
func Delay(site int, us uint32) {
	delay[site].Store(us)
	on.Store(1)
}

// Count turns hit counting on (see Hits).
func Count() { on.Store(1) }

// Hits returns the sites that were visited while perturbation was on, and resets the counters.
func Hits() (sites []int) {
	for i := range hits[:maxSite.Load()+1] {
		if hits[i].Swap(0) > 0 {
			sites = append(sites, i)
		}
	}
	return
}

// P is called before each statement.
func P(site int) {
	if on.Load() == 0 {
		return
	}
	slow(site)
}

func slow(site int) {
	for {
		m := maxSite.Load()
		if uint32(site) <= m || maxSite.CompareAndSwap(m, uint32(site)) {
			break
		}
	}
	if hits[site].Load() == 0 {
		hits[site].Store(1)
	}
	if d := delay[site].Load(); d > 0 {
		time.Sleep(time.Duration(d) * time.Microsecond)
		return
	}
	if p, s := prob.Load(), slp.Load(); p+s > 0 {
		r := rand.Uint32() & 0xffff
		if r < s {
			time.Sleep(time.Duration(rand.Uint32N(maxUs.Load()+1)) * time.Microsecond)
		} else if r < s+p {
			runtime.Gosched()
		}
	}
}
