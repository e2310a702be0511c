package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/zhiqiangxu/qrpc"
	"go.uber.org/zap"
)

func main() {
	qrpc.SetLogger(zap.NewNop())
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	in := fs.String("in", "", "TLC output")
	cfgs := fs.String("cfg", "{}", "configuration (json)")
	par := fs.Int("par", 64, "parallel runs")
	secs := fs.Int("secs", 300, "time limit")
	max := fs.Int("max", 0, "number of scripts (0: all)")
	seed := fs.Int("seed", 1, "seed")
	pert := fs.Int("pert", 0, "ms between changes of perturbation, 0: none")
	psecs := fs.Int("pertsecs", 0, "time for perturbed repetitions")
	out := fs.String("out", "out.json", "replayable failure")
	seed2 := fs.Int("seed2", 0, "added to the seed")
	tr := fs.String("tr", "traces.json", "recorded traces")
	resf := fs.String("res", "", "result")
	fs.Parse(os.Args[2:])
	g = globals{tr: *tr, in: *in, cfg: *cfgs, par: *par, secs: *secs, max: *max, seed: *seed + 1000**seed2, pert: *pert, pertsecs: *psecs}
	f := families[cmd]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(3)
	}
	t0 := time.Now()
	res, bad, err := f(&g)
	must(err)
	res.Wall = time.Since(t0).Seconds()
	b, _ := json.Marshal(res)
	fmt.Println(strings.TrimSpace(string(b)))
	if *resf != "" {
		writeJSON(*resf, res)
	}
	if bad != nil {
		writeJSON(*out, bad)
		fmt.Println("BAD", *out)
		os.Exit(1)
	}
}

type globals struct {
	in, cfg, tr          string
	par, secs, max, seed int
	pert, pertsecs       int
}

// results of a driver run, part of the evidence
type results struct {
	Behaviours    int         `json:"behaviours,omitempty"`
	Scripts       int         `json:"scripts,omitempty"`
	Done          int         `json:"done"`
	Steps         int64       `json:"steps"`
	Perturbed     int         `json:"perturbed_runs,omitempty"`
	Perturbations int         `json:"perturbations,omitempty"`
	Wall          float64     `json:"wall_s"`
	Sample        interface{} `json:"sample,omitempty"`
	Extra         interface{} `json:"extra,omitempty"`
}

var g globals

var families = map[string]func(*globals) (*results, interface{}, error){
	"ep":   famEp,
	"wq":   famWq,
	"srv":  famSrv,
	"thr":  famThr,
	"wire": famWire,
	"lim":  famLim,
	"rec":  famRec,
	"mux":  famMux,
	"api":  famApi,
	"chan": famChan,
}

func famEp(g *globals) (*results, interface{}, error) {
	var cfg epCfg
	must(jsonUnmarshal(g.cfg, &cfg))
	scripts, n, err := loadScripts(g.in)
	if err != nil {
		return nil, nil, err
	}
	if len(scripts) == 0 {
		return nil, nil, fmt.Errorf("no behaviours in %s", g.in)
	}
	shuffle(scripts, g.seed)
	if g.max > 0 && len(scripts) > g.max {
		scripts = scripts[:g.max]
	}
	res := &results{Behaviours: n, Scripts: len(scripts), Sample: scripts[len(scripts)/2]}
	var bad *epReplay
	pass := func(seed int, pt *perturber, deadline time.Time) error {
		done, steps, b, err := runEp(cfg, scripts, g.par, 2*time.Millisecond, deadline, seed, pt)
		res.Done += done
		res.Steps += steps
		if pt != nil {
			res.Perturbed += done
		}
		bad = b
		return err
	}
	if g.pert == 0 {
		if err := pass(g.seed, nil, time.Now().Add(time.Duration(g.secs)*time.Second)); err != nil {
			return nil, nil, err
		}
	}
	if bad == nil && (g.pertsecs > 0 || g.pert > 0) {
		every := g.pert
		if every == 0 {
			every = 20
		}
		end := time.Now().Add(time.Duration(g.pertsecs) * time.Second)
		if g.pertsecs == 0 {
			end = time.Now().Add(time.Duration(g.secs) * time.Second)
		}
		for k := 0; bad == nil && time.Now().Before(end); k++ {
			pt := startPerturber(g.seed*1000+k, time.Duration(every)*time.Millisecond)
			shuffle(scripts, g.seed*1000+k)
			err := pass(g.seed+k, pt, end)
			res.Perturbations += pt.close()
			if err != nil {
				return nil, nil, err
			}
			if g.pertsecs == 0 {
				break
			}
		}
	}
	if bad == nil {
		return res, nil, nil
	}
	return res, bad, nil
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		os.Exit(3)
	}
}
