package main

import (
	"encoding/base64"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	_ "time/tzdata"
)

// Violation is one observed refutation of the property.
type Violation struct {
	Stage  string `json:"stage"`
	Index  int    `json:"index"`
	Msg    string `json:"msg"`
	Input  string `json:"input_base64,omitempty"`
	Detail string `json:"detail,omitempty"`
}

// Ctx is the state of one monitoring run.
type Ctx struct {
	prop     string
	seed     uint64
	thorough bool
	only     string // "stage:index" for replay
	work     string // scratch directory
	cli      string // radolan2png binary
	dict     *Dict
	list     string // operations of a child process

	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	bulk     int64 // distinct by construction (exhaustive enumerations)
	cats     map[string]int64
	samples  []any
	viol     []Violation
	nviol    int64
	rules    []string
	needs    map[string]int64
	watch    []*slot
	finish   func()
	src      string
	poolOnce sync.Once
	pool     [][]byte
	nstage   int
}

type slot struct {
	stage atomic.Value
	index atomic.Int64
	start atomic.Int64 // unix nanos, 0 = idle
	cpu   atomic.Int64
}

func newCtx() *Ctx {
	return &Ctx{distinct: map[uint64]struct{}{}, cats: map[string]int64{}, needs: map[string]int64{}}
}

// quickFactor makes the quick checks use about 10 to 20 s of 8 cores,
// thoroughFactor the thorough ones several minutes.
var quickFactor = map[string]int{"C01": 2, "C02": 2, "C03": 12, "C04": 10, "C05": 10, "C06": 8, "C07": 7, "C08": 2, "C09": 10, "C10": 12, "C11": 7,
	"C13": 8, "C14": 6, "C15": 4, "C16": 6, "C18": 2, "C19": 10, "C20": 12, "C21": 2, "C22": 5, "C23": 3}

var thoroughFactor = map[string]int{"C01": 3, "C02": 15, "C03": 25, "C04": 25, "C05": 25, "C06": 15, "C07": 12, "C08": 3, "C09": 20, "C10": 25, "C11": 25,
	"C12": 4, "C13": 25, "C14": 15, "C15": 25, "C16": 40, "C17": 2, "C18": 3, "C19": 25, "C20": 20, "C21": 3, "C22": 8, "C23": 3}

// N scales the number of cases with the tier.
func (c *Ctx) N(quick, thorough int) int {
	quick *= max(1, quickFactor[c.prop])
	if c.thorough {
		return max(thorough*max(1, thoroughFactor[c.prop]), quick)
	}
	return quick
}

// Size is a size that depends on the tier.
func (c *Ctx) Size(quick, thorough int) int {
	if c.thorough {
		return thorough
	}
	return quick
}

// Rule adds a sentence describing how cases are made.
func (c *Ctx) Rule(s string) { c.rules = append(c.rules, s) }

// Need makes the run inconclusive unless category cat was observed at least n times.
func (c *Ctx) Need(cat string, n int64) { c.needs[cat] = n }

// R is the view one case has of the run.
type R struct {
	*rand.Rand
	c     *Ctx
	stage string
	i     int
	sl    *slot
	input []byte
	evals int64
	bulk  int64
	cats  map[string]int64
	dist  map[uint64]struct{}
	samp  int
	home  string // of the programs run; their own scratch directory if empty
	name  string // of their files

	oddEntry int // of the next archive, counted from one, which has oddType
	oddType  byte
}

func hash64(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprint(h, p)
		}
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// Par runs n cases of a stage on all cores. Every case has its own generator
// state derived from (seed, property, stage, index) only.
func (c *Ctx) Par(stage string, n int, f func(r *R)) { c.par(stage, n, runtime.GOMAXPROCS(0), f) }

// Seq runs n cases of a stage one after another.
func (c *Ctx) Seq(stage string, n int, f func(r *R)) { c.par(stage, n, 1, f) }

func (c *Ctx) par(stage string, n, workers int, f func(r *R)) {
	c.zone()
	onlyIdx := -1
	if c.only != "" {
		st, idx, _ := strings.Cut(c.only, ":")
		if st != stage {
			return
		}
		fmt.Sscanf(idx, "%d", &onlyIdx)
		workers = 1
	}
	t0 := time.Now()
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		sl := &slot{}
		sl.stage.Store(stage)
		c.mu.Lock()
		c.watch = append(c.watch, sl)
		c.mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := &R{c: c, stage: stage, sl: sl, cats: map[string]int64{}, dist: map[uint64]struct{}{}}
			for {
				i := int(next.Add(1)) - 1
				if i >= n || atomic.LoadInt64(&c.nviol) >= 20 {
					break
				}
				if onlyIdx >= 0 && i != onlyIdx {
					continue
				}
				r.runCase(i, f)
			}
			c.mu.Lock()
			c.evals += r.evals
			c.bulk += r.bulk
			for k, v := range r.cats {
				c.cats[k] += v
			}
			for k := range r.dist {
				c.distinct[k] = struct{}{}
			}
			c.mu.Unlock()
		}()
	}
	wg.Wait()
	if os.Getenv("MON_TIMES") != "" {
		fmt.Fprintf(os.Stderr, "%s %s n=%d %.2fs\n", c.prop, stage, n, time.Since(t0).Seconds())
	}
}

// zones are local time zones in turn: none equals UTC, and clocks change in some.
var zones = func() (zs []*time.Location) {
	for _, n := range []string{"Europe/Berlin", "America/New_York", "", "Australia/Lord_Howe"} {
		z, err := time.LoadLocation(n)
		if n == "" || err != nil {
			z = time.FixedZone("MON", 5*3600+45*60)
		}
		zs = append(zs, z)
	}
	return
}()

// zone gives every stage another local time zone.
func (c *Ctx) zone() {
	if !strings.HasPrefix(c.prop, "C17") && c.prop != "C23" { // under the race detector, or watched
		time.Local = zones[c.nstage%len(zones)]
	}
	c.nstage++
}

func newRand(seed uint64) *rand.Rand { return rand.New(rand.NewPCG(seed, seed^0x9e3779b97f4a7c15)) }

func (r *R) runCase(i int, f func(r *R)) {
	r.i = i
	r.input = nil
	seed := hash64(r.c.seed, r.c.prop, r.stage, i)
	r.Rand = newRand(seed)
	r.sl.index.Store(int64(i))
	r.sl.cpu.Store(cpuNow())
	r.sl.start.Store(time.Now().UnixNano())
	defer func() {
		r.sl.start.Store(0)
		if e := recover(); e != nil {
			if t := fmt.Sprint(e); strings.HasPrefix(t, "harness: ") {
				fmt.Fprintln(os.Stderr, t)
				os.Exit(3)
			}
			st := string(debug.Stack())
			if len(st) > 6000 {
				st = st[:6000]
			}
			r.fail("panic: "+fmt.Sprint(e), st)
		}
	}()
	f(r)
}

// branch is a view of the same case with a generator of its own, for use in
// another goroutine. join takes over what it observed.
func (r *R) branch(k int) *R {
	return &R{Rand: newRand(hash64(r.c.seed, r.c.prop, r.stage, r.i, "child", k)), c: r.c, stage: r.stage, i: r.i, sl: r.sl, home: r.home,
		cats: map[string]int64{}, dist: map[uint64]struct{}{}, samp: 1}
}

func (r *R) join(k *R) {
	r.evals += k.evals
	r.bulk += k.bulk
	for c, n := range k.cats {
		r.cats[c] += n
	}
	for d := range k.dist {
		r.Distinct(d)
	}
}

// must stops the run if the harness itself is in trouble.
func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// Eval counts n executions judged by an oracle.
func (r *R) Eval(n int) { r.evals += int64(n) }

// Cat counts an observed category.
func (r *R) Cat(name string) { r.cats[name]++ }

// CatN counts n observations of a category.
func (r *R) CatN(name string, n int) { r.cats[name] += int64(n) }

// Distinct records the identity of a non-trivial case.
func (r *R) Distinct(h uint64) {
	if len(r.dist) < 400000 {
		r.dist[h] = struct{}{}
	}
}

// Bulk counts cases which are distinct by construction of an enumeration.
func (r *R) Bulk(n int) { r.bulk += int64(n) }

// Sample writes out a few actual cases per stage.
func (r *R) Sample(f func() any) {
	if r.samp >= 1 || r.i > 64 {
		return
	}
	r.samp++
	v := f()
	r.c.mu.Lock()
	if len(r.c.samples) < 24 {
		r.c.samples = append(r.c.samples, map[string]any{"stage": r.stage, "index": r.i, "case": v})
	}
	r.c.mu.Unlock()
}

// Input remembers the input of the current case for the replay file.
func (r *R) Input(b []byte) { r.input = b }

// Fail records a violation.
func (r *R) Fail(format string, args ...any) { r.fail(fmt.Sprintf(format, args...), "") }

func (r *R) fail(msg, detail string) {
	atomic.AddInt64(&r.c.nviol, 1)
	v := Violation{Stage: r.stage, Index: r.i, Msg: msg, Detail: detail}
	if len(r.input) > 0 && len(r.input) <= 1<<20 {
		v.Input = base64.StdEncoding.EncodeToString(r.input)
	}
	r.c.mu.Lock()
	if len(r.c.viol) < 20 {
		r.c.viol = append(r.c.viol, v)
	}
	r.c.mu.Unlock()
}

// watchdog reports a case that consumes processor time without end. Normal
// cases take milliseconds; the limit is 90 s of both wall and process CPU time,
// or 270 s without (a case that blocks).
func (c *Ctx) watchdog() {
	const limit = 90 * time.Second
	for {
		time.Sleep(2 * time.Second)
		now, cpu := time.Now().UnixNano(), cpuNow()
		c.mu.Lock()
		for _, s := range c.watch {
			st := s.start.Load()
			if st != 0 && (now-st > int64(limit) && cpu-s.cpu.Load() > int64(limit) || now-st > 3*int64(limit)) {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				c.viol = append(c.viol, Violation{Stage: s.stage.Load().(string), Index: int(s.index.Load()),
					Msg: "case does not terminate (no result after 90 s of processor time or 270 s of waiting)", Detail: string(buf)})
				c.mu.Unlock()
				c.finish()
				os.Exit(0)
			}
		}
		c.mu.Unlock()
	}
}

func sortedCats(m map[string]int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
