// mon observes executions of the radolan package and its command line program
// and judges them against independent oracles. It is built together with the
// source tree under test by check.py.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"time"
)

var props = map[string]func(*Ctx){
	"C01": propC01, "C02": propC02, "C03": propC03, "C04": propC04, "C05": propC05, "C06": propC06,
	"C07": propC07, "C08": propC08, "C09": propC09, "C10": propC10, "C11": propC11, "C12": propC12,
	"C13": propC13, "C14": propC14, "C15": propC15, "C16": propC16, "C17": propC17, "C17first": propC17first, "C17tight": propC17tight, "C18": propC18, "C18run": propC18run,
	"C19": propC19, "C20": propC20, "C21": propC21, "C22": propC22, "C23": propC23,
}

type result struct {
	Property   string           `json:"property"`
	Evals      int64            `json:"evaluations"`
	Distinct   int64            `json:"distinct"`
	Rules      []string         `json:"rules"`
	Cats       map[string]int64 `json:"observed"`
	Samples    []any            `json:"samples"`
	Violations []Violation      `json:"violations"`
	NViol      int64            `json:"violation_count"`
	Unmet      []string         `json:"unmet"`
	Done       bool             `json:"done"`
}

func main() {
	// a local time zone in which nothing accidentally equals UTC
	time.Local = time.FixedZone("MON", 5*3600+45*60)
	c := newCtx()
	tier := flag.String("tier", "quick", "quick or thorough")
	out := flag.String("out", "", "result file")
	flag.StringVar(&c.src, "src", "", "source tree under test")
	flag.StringVar(&c.prop, "prop", "", "property")
	flag.Uint64Var(&c.seed, "seed", 1, "seed")
	flag.StringVar(&c.only, "only", "", "stage:index to replay")
	flag.StringVar(&c.list, "list", "", "operations to execute (internal)")
	flag.StringVar(&c.work, "work", "", "scratch directory")
	flag.StringVar(&c.cli, "cli", "", "radolan2png")
	flag.Parse()
	c.thorough = *tier == "thorough"
	c.dict = loadDict(c.src)
	f := props[c.prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "harness: unknown property", c.prop)
		os.Exit(3)
	}
	c.finish = func() {
		res := result{Property: c.prop, Evals: c.evals, Distinct: int64(len(c.distinct)) + c.bulk, Rules: c.rules,
			Cats: c.cats, Samples: c.samples, Violations: c.viol, NViol: max(c.nviol, int64(len(c.viol))), Done: true}
		for _, k := range sortedCats(c.needs) {
			if c.cats[k] < c.needs[k] {
				res.Unmet = append(res.Unmet, fmt.Sprintf("%s: observed %d, need %d", k, c.cats[k], c.needs[k]))
			}
		}
		b, err := json.Marshal(res)
		if err == nil {
			err = os.WriteFile(*out, b, 0644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(3)
		}
	}
	go c.watchdog()
	f(c)
	c.mu.Lock()
	c.finish()
	c.mu.Unlock()
}
