package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifharness/gen"
)

// Stream is one deterministic family of cases. Case i of a stream depends on
// the seed, the property, the stream name and i only.
type Stream struct {
	Name     string
	Quick    int  // number of cases at the quick tier
	Thorough int  // number of cases at the thorough tier (0: the quick number)
	Fixed    bool // the cases do not depend on the seed (an enumeration)
	Chunk    int  // cases handed to a worker at once (default 64)
	Serial   bool // run with one worker (the case itself uses all cores)
	Run      func(t *T)
}

// Prop is one property and its workload.
type Prop struct {
	ID      string
	Rule    string
	Assume  []string
	Streams []*Stream
	// Need names counters and the least value a run must have observed to be
	// conclusive.
	Need map[string]int64
	Race bool // the deciding build is the race-detector build
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Violation is one refutation of a property.
type Violation struct {
	Prop   string `json:"property"`
	Stream string `json:"stream"`
	Case   uint64 `json:"case"`
	Seed   uint64 `json:"seed"`
	Tier   string `json:"tier"`
	Kind   string `json:"kind"`
	Key    string `json:"key"` // identifies the failing input, for the known-findings file
	Msg    string `json:"msg"`
	Stack  string `json:"stack,omitempty"`
}

type worker struct {
	id       int
	counts   map[string]int64
	maxes    map[string]int64
	distinct []uint64
	samples  []string
	viol     []Violation
	ran      int
	givenUp  int
	slot     *slot
}

// T is one running case.
type T struct {
	R      *gen.Rng
	I      uint64
	W      *worker
	S      *Stream
	P      *Prop
	Tier   string
	Seed   uint64
	Solo   bool // isolated re-run: descriptions are printed before they are executed
	nfail  int
	desc   string
	descFn func() string
}

// Eval counts observed evaluations (an answer of the code compared with an oracle).
func (t *T) Eval(n int) { t.W.counts["evaluations"] += int64(n) }

func (t *T) Count(name string, n int64) { t.W.counts[name] += n }

func (t *T) Max(name string, n int64) {
	if t.W.maxes[name] < n {
		t.W.maxes[name] = n
	}
}

// Distinct records the hash of a non-trivial case.
func (t *T) Distinct(h uint64) {
	if len(t.W.distinct) < 3<<20 {
		t.W.distinct = append(t.W.distinct, h)
	} else {
		t.W.counts["distinct_not_recorded"]++
	}
}

// Sample keeps a few written-out cases for the evidence.
func (t *T) Sample(f func() string) {
	if len(t.W.samples) < 2 && t.R.P(1, 37) {
		t.W.samples = append(t.W.samples, t.S.Name+": "+f())
	}
}

// Desc says what the case is about to do; it is rendered only if something
// goes wrong (or when a suspect case is re-run alone).
func (t *T) Desc(f func() string) {
	t.descFn = f
	if t.Solo {
		fmt.Fprintf(os.Stderr, "DESC %s\n", f())
	}
}

func (t *T) describe() string {
	if t.descFn == nil {
		return ""
	}
	defer func() { recover() }()
	return t.descFn()
}

// Fail records a violation; key identifies the input.
func (t *T) Fail(kind, key, format string, args ...any) {
	t.nfail++
	if t.nfail > 3 {
		return
	}
	msg := fmt.Sprintf(format, args...)
	if len(msg) > 6000 {
		msg = msg[:6000] + "..."
	}
	v := Violation{Prop: t.P.ID, Stream: t.S.Name, Case: t.I, Seed: t.Seed, Tier: t.Tier, Kind: kind, Key: key, Msg: msg}
	t.W.viol = append(t.W.viol, v)
	keepViolation(&v)
}

var kept struct {
	sync.Mutex
	n int
}

// keepViolation writes a violation down at once: what was observed stays
// observed if a later case stalls or kills the process.
func keepViolation(v *Violation) {
	if *fRes == "" {
		return
	}
	kept.Lock()
	defer kept.Unlock()
	if kept.n++; kept.n > 40 {
		return
	}
	if b, err := json.Marshal(v); err == nil {
		if f, err := os.OpenFile(*fRes+".violations", os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644); err == nil {
			f.Write(append(b, '\n'))
			f.Close()
		}
	}
}

func keptViolations(result string) (out []Violation) {
	b, _ := os.ReadFile(result + ".violations")
	for _, l := range strings.Split(string(b), "\n") {
		var v Violation
		if l != "" && json.Unmarshal([]byte(l), &v) == nil {
			out = append(out, v)
		}
	}
	return
}

// Failed reports whether this case failed already.
func (t *T) Failed() bool { return t.nfail > 0 }

// Recover runs f and reports a panic of it as a value.
func Recover(f func()) (p any, stack string) {
	defer func() {
		if p = recover(); p != nil {
			stack = string(debug.Stack())
		}
	}()
	f()
	return
}

// panicOf runs f and returns what it panicked with, if it did.
func panicOf(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return
}

func runCase(t *T) {
	t.W.ran++
	p, stack := Recover(func() { t.S.Run(t) })
	if p == nil {
		return
	}
	if _, ok := p.(giveUp); ok {
		t.Count("cases_given_up", 1)
		if t.W.givenUp++; t.W.givenUp > maxGivenUp+t.W.ran/2000 {
			t.Fail("endless", t.describe(), "a tree reported more than %d times, again: %s", maxReports, t.describe())
		}
		return
	}
	msg := fmt.Sprintf("panic: %v; doing: %s", p, t.describe())
	if !strings.Contains(stack, "msaf1980/go-matcher") {
		// a defect of the harness itself, never a verdict on the code
		fmt.Fprintf(os.Stderr, "HARNESS PANIC %s %s#%d: %s\n%s\n", t.P.ID, t.S.Name, t.I, msg, stack)
		os.Exit(4)
	}
	t.Fail("panic", t.describe(), "%s", msg)
	if n := len(t.W.viol); n > 0 {
		if len(stack) > 4000 {
			stack = stack[:4000]
		}
		t.W.viol[n-1].Stack = stack
	}
}

func newT(p *Prop, s *Stream, i, seed uint64, tier string, w *worker) *T {
	sd := seed
	if s.Fixed {
		sd = 0
	}
	h := gen.Mix(gen.Mix(gen.Mix(sd, gen.Hash(p.ID)), gen.Hash(s.Name)), i)
	return &T{R: gen.New(h), I: i, W: w, S: s, P: p, Tier: tier, Seed: seed}
}

// skip names cases ("stream#case") that are not to be run.
var skip = map[string]bool{}

// boost multiplies the generated cases of the quick tier where the code under
// test is quick enough: each check then takes about half a minute on 8 cores.
var boost = map[string]int{"C01": 4, "C02": 4, "C03": 2, "C04": 2, "C08": 2, "C09": 4, "C11": 2, "C12": 4, "C13": 8, "C18": 2, "C19": 5, "C20": 3, "C21": 4, "C22": 10, "C24": 2}

func (s *Stream) count(tier, id string) int {
	n := s.Quick
	if k := boost[id]; k > 0 && !s.Fixed {
		n *= k
	}
	if tier == "thorough" && s.Thorough > 0 {
		n = s.Thorough
	}
	if *fScale != 1 && n > 1 {
		n = int(float64(n)**fScale) + 1
	}
	return n
}

// Result is what a child process reports.
type Result struct {
	Counts     map[string]int64 `json:"counts"`
	Maxes      map[string]int64 `json:"maxes"`
	Cases      map[string]int64 `json:"cases"`
	Distinct   int              `json:"distinct"`
	Samples    []string         `json:"samples"`
	Violations []Violation      `json:"violations"`
}

const maxViolations = 200

func newWorker(id int) *worker {
	return &worker{id: id, counts: map[string]int64{}, maxes: map[string]int64{}}
}

// runAll runs every case of a property.
func runAll(p *Prop, tier string, seed uint64, j *journal) *Result {
	nw := runtime.GOMAXPROCS(0)
	if nw > maxSlots {
		nw = maxSlots
	}
	ws := make([]*worker, nw)
	for i := range ws {
		ws[i] = newWorker(i)
		ws[i].slot = j.slot(i)
	}
	res := &Result{Counts: map[string]int64{}, Maxes: map[string]int64{}, Cases: map[string]int64{}}
	var viols atomic.Int64
	for si, s := range p.Streams {
		n := s.count(tier, p.ID)
		chunk := s.Chunk
		if chunk == 0 {
			chunk = 64
		}
		use := nw
		if s.Serial {
			use = 1
		}
		var next, done atomic.Int64
		var wg sync.WaitGroup
		for wi := 0; wi < use; wi++ {
			wg.Add(1)
			go func(w *worker) {
				defer wg.Done()
				for {
					lo := int(next.Add(int64(chunk))) - chunk
					if lo >= n || viols.Load() > maxViolations {
						return
					}
					hi := lo + chunk
					if hi > n {
						hi = n
					}
					for i := lo; i < hi; i++ {
						if len(skip) > 0 && skip[fmt.Sprintf("%s#%d", s.Name, i)] {
							continue
						}
						w.slot.enter(si, i)
						before := len(w.viol)
						runCase(newT(p, s, uint64(i), seed, tier, w))
						viols.Add(int64(len(w.viol) - before))
						w.slot.leave()
						done.Add(1)
						if viols.Load() > maxViolations {
							return
						}
					}
				}
			}(ws[wi])
		}
		wg.Wait()
		res.Cases[s.Name] = done.Load()
	}
	var all []uint64
	for _, w := range ws {
		for k, v := range w.counts {
			res.Counts[k] += v
		}
		for k, v := range w.maxes {
			if res.Maxes[k] < v {
				res.Maxes[k] = v
			}
		}
		all = append(all, w.distinct...)
		for _, s := range w.samples {
			if len(res.Samples) < 8 {
				res.Samples = append(res.Samples, s)
			}
		}
		res.Violations = append(res.Violations, w.viol...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	for i := range all {
		if i == 0 || all[i] != all[i-1] {
			res.Distinct++
		}
	}
	sort.Slice(res.Violations, func(i, j int) bool {
		a, b := &res.Violations[i], &res.Violations[j]
		if len(a.Msg) != len(b.Msg) {
			return len(a.Msg) < len(b.Msg)
		}
		return a.Msg < b.Msg
	})
	return res
}

// cpuTime is the CPU time of this process.
func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// guard ends the process when it holds too much memory or (limit > 0) has used
// too much CPU.
func guard(memLimit uint64, cpu time.Duration) {
	go func() {
		var ms runtime.MemStats
		for {
			time.Sleep(100 * time.Millisecond)
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > memLimit {
				fmt.Fprintf(os.Stderr, "GUARD memory: heap %d\n", ms.HeapAlloc)
				os.Exit(97)
			}
			if cpu > 0 && cpuTime() > cpu {
				fmt.Fprintf(os.Stderr, "GUARD cpu: %v\n", cpuTime())
				// what it is doing: a hang is one of the code under test
				// only if that code is seen running
				b := make([]byte, 1<<20)
				for i := 0; i < 40; i++ {
					st := string(b[:runtime.Stack(b, true)])
					if strings.Contains(st, "msaf1980/go-matcher") || i == 39 {
						fmt.Fprintln(os.Stderr, clip(st, 20000))
						break
					}
					time.Sleep(7 * time.Millisecond)
				}
				os.Exit(98)
			}
		}
	}()
}
