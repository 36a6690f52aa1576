// Command mon runs the workload and the monitor of one property and gives the
// verdict. A supervisor process starts the monitored run as a child of itself,
// so that crashes, endless loops and memory blow-ups of the code under test are
// observed from outside, attributed to one case and confirmed in isolation.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

const (
	repoMark   = "msaf1980/go-matcher"
	childMem   = 8 << 30
	soloMem    = 3 << 30
	soloCPU    = 25 * time.Second
	stallAfter = 40 * time.Second
	soloWall   = 300 * time.Second
	childWall  = 780 * time.Second // quick tier; the thorough tier has no total limit worth speaking of
)

var (
	fMode   = flag.String("mode", "run", "run, child, case, replay, list")
	fProp   = flag.String("prop", "", "property id")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fSeed   = flag.Uint64("seed", 1, "seed")
	fOut    = flag.String("out", "", "evidence directory")
	fKnown  = flag.String("known", "", "known-findings file")
	fJ      = flag.String("journal", "", "journal file (child)")
	fRes    = flag.String("result", "", "result file (child)")
	fStream = flag.String("stream", "", "stream (case)")
	fCase   = flag.Uint64("case", 0, "case number (case)")
	fFile   = flag.String("file", "", "replay file (replay)")
	fSkip   = flag.String("skip", "", "cases not to run again: stream#case,...")
	fScale  = flag.Float64("scale", 1, "multiplies the case counts (development)")
)

func main() {
	flag.Parse()
	if *fMode == "list" {
		ids := []string{}
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	if *fMode == "probe" {
		os.Exit(probeMode())
	}
	if *fMode == "replay" {
		os.Exit(replay())
	}
	p := props[*fProp]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *fProp)
		os.Exit(2)
	}
	switch *fMode {
	case "child":
		child(p)
	case "case":
		os.Exit(solo(p))
	default:
		os.Exit(supervise(p))
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "mon:", err)
	os.Exit(2)
}

func child(p *Prop) {
	for _, s := range strings.Split(*fSkip, ",") {
		if s != "" {
			skip[s] = true
		}
	}
	j, err := openJournal(*fJ)
	if err != nil {
		fatal(err)
	}
	guard(childMem, 0)
	res := runAll(p, *fTier, *fSeed, j)
	b, err := json.Marshal(res)
	if err == nil {
		err = os.WriteFile(*fRes, b, 0o644)
	}
	if err != nil {
		fatal(err)
	}
}

// solo runs one case alone.
func solo(p *Prop) int {
	for _, s := range p.Streams {
		if s.Name != *fStream {
			continue
		}
		guard(soloMem, soloCPU)
		w := newWorker(0)
		w.slot = new(slot)
		t := newT(p, s, *fCase, *fSeed, *fTier, w)
		t.Solo = true
		runCase(t)
		for i := range w.viol {
			v := &w.viol[i]
			fmt.Printf("VIOLATION property=%s %s %s#%d: %s\n", p.ID, v.Kind, v.Stream, v.Case, v.Msg)
			if v.Stack != "" {
				fmt.Println(v.Stack)
			}
		}
		if len(w.viol) > 0 {
			return 1
		}
		fmt.Printf("property %s held on %s#%d\n", p.ID, s.Name, *fCase)
		return 0
	}
	fmt.Fprintf(os.Stderr, "unknown stream %q\n", *fStream)
	return 2
}

func replay() int {
	b, err := os.ReadFile(*fFile)
	if err != nil {
		fatal(err)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fatal(err)
	}
	p := props[v.Prop]
	if p == nil {
		fatal(fmt.Errorf("unknown property %q", v.Prop))
	}
	fmt.Printf("recorded: %s %s#%d seed %d tier %s\n%s\n", v.Kind, v.Stream, v.Case, v.Seed, v.Tier, v.Msg)
	if v.Stream == "" {
		return 1
	}
	*fStream, *fCase, *fSeed, *fTier = v.Stream, v.Case, v.Seed, v.Tier
	return solo(p)
}

type attempt struct {
	res     *Result
	code    int
	stderr  string
	stalled bool
	timeout bool
	running [][2]int // stream, case
	races   []string
	canary  int64
}

// runChild runs the monitored process once and watches it.
func runChild(p *Prop, dir string, skipList []string, stallAfter time.Duration) *attempt {
	a := &attempt{}
	jp, rp := filepath.Join(dir, "journal"), filepath.Join(dir, "result")
	os.Remove(jp)
	os.Remove(rp)
	os.Remove(rp + ".violations")
	j, err := openJournal(jp)
	if err != nil {
		fatal(err)
	}
	exe, err := os.Executable()
	if err != nil {
		fatal(err)
	}
	cmd := exec.Command(exe, "-mode", "child", "-prop", p.ID, "-tier", *fTier, "-seed", strconv.FormatUint(*fSeed, 10),
		"-journal", jp, "-result", rp, "-skip", strings.Join(skipList, ","), "-scale", fmt.Sprint(*fScale))
	raceLog := filepath.Join(dir, "race")
	cmd.Env = append(os.Environ(), "GORACE=log_path="+raceLog+" halt_on_error=0 exitcode=0 history_size=3", "GOTRACEBACK=all")
	var errBuf tail
	cmd.Stderr = &errBuf
	cmd.Stdout = os.Stdout
	if err := cmd.Start(); err != nil {
		fatal(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	type seen struct {
		seq uint64
		at  time.Time
	}
	var last [maxSlots]seen
	start := time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	running := func(min time.Duration) (out [][2]int) {
		for i := range last {
			seq, s, c := j.slot(i).read()
			if seq%2 == 1 && (min == 0 || last[i].seq == seq && time.Since(last[i].at) > min) {
				out = append(out, [2]int{s, c})
			}
		}
		return
	}
	for {
		select {
		case <-done:
			a.code = cmd.ProcessState.ExitCode()
			a.running = running(0)
			a.stderr = errBuf.String()
			if b, err := os.ReadFile(rp); err == nil && a.code == 0 {
				a.res = &Result{}
				if json.Unmarshal(b, a.res) != nil {
					a.res = nil
				}
			}
			a.races, a.canary = raceReports(raceLog)
			return a
		case now := <-tick.C:
			for i := range last {
				seq, _, _ := j.slot(i).read()
				if seq != last[i].seq {
					last[i] = seen{seq, now}
				}
			}
			if r := running(stallAfter); len(r) > 0 {
				a.stalled, a.running = true, r
			} else if *fTier == "quick" && time.Since(start) > childWall {
				a.timeout, a.running = true, running(0)
			} else {
				continue
			}
			cmd.Process.Kill()
			<-done
			a.code = -1
			a.stderr = errBuf.String()
			a.races, a.canary = raceReports(raceLog)
			return a
		}
	}
}

// tail keeps the first and the last part of what is written to it.
type tail struct{ head, last []byte }

func (t *tail) Write(b []byte) (int, error) {
	n := len(b)
	if len(t.head) < 64<<10 {
		k := 64<<10 - len(t.head)
		if k > len(b) {
			k = len(b)
		}
		t.head = append(t.head, b[:k]...)
		b = b[k:]
	}
	t.last = append(t.last, b...)
	if len(t.last) > 128<<10 {
		t.last = append([]byte(nil), t.last[len(t.last)-64<<10:]...)
	}
	return n, nil
}
func (t *tail) String() string { return string(t.head) + string(t.last) }

var lineNo = regexp.MustCompile(`:\d+( \+0x[0-9a-f]+)?|0x[0-9a-f]+|goroutine \d+|Goroutine \d+`)

// raceReports collects the race detector's reports which involve the code under
// test, without repetitions.
func raceReports(prefix string) ([]string, int64) {
	var canary int64
	files, _ := filepath.Glob(prefix + ".*")
	seen := map[string]bool{}
	var out []string
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		os.Remove(f)
		for _, blk := range bytes.Split(b, []byte("==================")) {
			s := string(blk)
			if strings.Contains(s, "WARNING: DATA RACE") && strings.Contains(s, "raceCanary") {
				canary++
				continue
			}
			if !strings.Contains(s, "WARNING: DATA RACE") || !strings.Contains(s, repoMark) {
				continue
			}
			// deduplicate by the two access stacks without line numbers
			k := s
			if i := strings.Index(k, "Goroutine "); i > 0 {
				k = k[:i]
			}
			k = lineNo.ReplaceAllString(k, "")
			if !seen[k] {
				seen[k] = true
				out = append(out, strings.TrimSpace(s))
			}
		}
	}
	return out, canary
}

// confirm re-runs a suspect case alone.
func confirm(p *Prop, s *Stream, c int) *Violation {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "-mode", "case", "-prop", p.ID, "-tier", *fTier, "-seed", strconv.FormatUint(*fSeed, 10),
		"-stream", s.Name, "-case", strconv.Itoa(c))
	var errBuf tail
	var out bytes.Buffer
	cmd.Stderr, cmd.Stdout = &errBuf, &out
	if err := cmd.Start(); err != nil {
		return nil
	}
	tm := time.AfterFunc(soloWall, func() { cmd.Process.Kill() })
	cmd.Wait()
	if !tm.Stop() {
		return nil // no verdict on a starved machine
	}
	code := cmd.ProcessState.ExitCode()
	desc := ""
	for _, l := range strings.Split(errBuf.String(), "\n") {
		if strings.HasPrefix(l, "DESC ") {
			desc = l[5:]
		}
	}
	v := &Violation{Prop: p.ID, Stream: s.Name, Case: uint64(c), Seed: *fSeed, Tier: *fTier, Key: desc}
	switch {
	case code == 98:
		if !strings.Contains(errBuf.String(), repoMark) {
			fmt.Fprintf(os.Stderr, "HARNESS HANG %s %s#%d: %s\n", p.ID, s.Name, c, clip(errBuf.String(), 3000))
			return nil
		}
		v.Kind, v.Msg = "hang", fmt.Sprintf("no result after %v of CPU time; doing: %s", soloCPU, desc)
	case code == 97:
		v.Kind, v.Msg = "memory", fmt.Sprintf("more than %d MB of heap; doing: %s", soloMem>>20, desc)
	case code == 1:
		v.Kind, v.Msg = "violation", out.String()
	case code == 0 || code == 4 || code == -1:
		return nil
	default:
		if !strings.Contains(errBuf.String(), repoMark) {
			return nil
		}
		v.Kind, v.Msg = "crash", fmt.Sprintf("process died (exit %d) doing: %s\n%s", code, desc, clip(errBuf.String(), 4000))
	}
	return v
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func supervise(p *Prop) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "mon")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	var (
		res      *Result
		extra    []Violation
		skipList []string
		races    []string
		oddities []string
	)
	known := loadKnown(p.ID)
	for try := 0; try < 4 && res == nil; try++ {
		a := runChild(p, dir, skipList, stallAfter*time.Duration(1+4*try))
		races = append(races, a.races...)
		if a.res != nil {
			res = a.res
			if a.canary > 0 {
				res.Counts["race_canary_reports"] += a.canary
			}
			break
		}
		why := fmt.Sprintf("child exit %d stalled=%v timeout=%v", a.code, a.stalled, a.timeout)
		fmt.Fprintf(os.Stderr, "%s: %s; suspects %v\n%s\n", p.ID, why, a.running, clip(a.stderr, 3000))
		if a.code == 4 || a.code == 2 && !strings.Contains(a.stderr, "goroutine ") {
			fmt.Fprintln(os.Stderr, "the harness itself failed: no verdict")
			return 3
		}
		if strings.Contains(a.stderr, "fatal error: concurrent map") && strings.Contains(a.stderr, repoMark) {
			extra = append(extra, Violation{Prop: p.ID, Kind: "concurrent map access", Seed: *fSeed, Tier: *fTier, Key: "concurrent map", Msg: clip(a.stderr, 5000)})
			break
		}
		found := false
		for _, v := range keptViolations(filepath.Join(dir, "result")) {
			if !known[v.Key] {
				extra = append(extra, v)
				found = true
			}
		}
		n := 0
		for _, rc := range a.running {
			if rc[0] >= len(p.Streams) || n > 12 {
				continue
			}
			n++
			s := p.Streams[rc[0]]
			if v := confirm(p, s, rc[1]); v != nil {
				extra = append(extra, *v)
				skipList = append(skipList, fmt.Sprintf("%s#%d", s.Name, rc[1]))
				found = true
			}
		}
		if found {
			break // a violation is a verdict; what remains unexplored is not needed for it
		}
		oddities = append(oddities, why)
		if try == 1 {
			break
		}
	}
	for _, r := range races {
		extra = append(extra, Violation{Prop: p.ID, Kind: "data race", Seed: *fSeed, Tier: *fTier, Key: "race", Msg: clip(r, 6000)})
	}
	inconclusive := ""
	if res == nil {
		res = &Result{Counts: map[string]int64{}, Maxes: map[string]int64{}, Cases: map[string]int64{}}
		if len(extra) == 0 {
			inconclusive = "no complete run: " + strings.Join(oddities, "; ")
		}
	}
	viols := append(extra, res.Violations...)

	// known findings
	var fresh []Violation
	reported := map[string]bool{}
	for _, v := range viols {
		if known[v.Key] {
			if !reported[v.Key] {
				reported[v.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, v.Key)
			}
			continue
		}
		fresh = append(fresh, v)
	}
	if inconclusive == "" && len(fresh) == 0 {
		var miss []string
		for k, n := range p.Need {
			got := res.Counts[k]
			if *fScale < 1 {
				continue
			}
			if got < n {
				miss = append(miss, fmt.Sprintf("%s=%d (need %d)", k, got, n))
			}
		}
		sort.Strings(miss)
		if len(miss) > 0 {
			inconclusive = "too few observations: " + strings.Join(miss, ", ")
		}
	}

	writeEvidence(p, res, fresh, time.Since(start).Seconds(), inconclusive)

	if len(fresh) > 0 {
		path := writeReplay(p, fresh)
		for i, v := range fresh {
			if i >= 5 {
				fmt.Printf("... and %d more\n", len(fresh)-i)
				break
			}
			fmt.Printf("%s %s#%d: %s\n", v.Kind, v.Stream, v.Case, v.Msg)
			if v.Stack != "" && i == 0 {
				fmt.Println(v.Stack)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	if inconclusive != "" {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", p.ID, inconclusive)
		return 3
	}
	var total int64
	for _, n := range res.Cases {
		total += n
	}
	fmt.Printf("held property=%s tier=%s seed=%d cases=%d observations=%d distinct=%d wall=%.1fs\n",
		p.ID, *fTier, *fSeed, total, res.Counts["evaluations"], res.Distinct, time.Since(start).Seconds())
	return 0
}

func loadKnown(id string) map[string]bool {
	out := map[string]bool{}
	b, err := os.ReadFile(*fKnown)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+id+" key=")
		if !ok {
			continue
		}
		if k, err := strconv.QuotedPrefix(rest); err == nil {
			if u, err := strconv.Unquote(k); err == nil {
				out[u] = true
			}
		}
	}
	return out
}

func writeReplay(p *Prop, v []Violation) string {
	if *fOut == "" {
		return "-"
	}
	dir := filepath.Join(*fOut, "replay")
	os.MkdirAll(dir, 0o755)
	first := ""
	for i, x := range v {
		if i >= 10 {
			break
		}
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", p.ID, *fTier, i))
		b, _ := json.MarshalIndent(x, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		if first == "" {
			first = path
		}
	}
	return first
}

func writeEvidence(p *Prop, res *Result, fresh []Violation, wall float64, inconclusive string) {
	if *fOut == "" {
		return
	}
	os.MkdirAll(*fOut, 0o755)
	var cases int64
	for _, n := range res.Cases {
		cases += n
	}
	evals := res.Counts["evaluations"]
	if evals == 0 {
		evals = cases
	}
	samples := res.Samples
	if samples == nil {
		samples = []string{}
	}
	counters := map[string]int64{}
	for k, v := range res.Counts {
		if k != "evaluations" {
			counters[k] = v
		}
	}
	cov := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": res.Distinct,
		"rule":                p.Rule,
		"samples":             samples,
		"cases_per_stream":    res.Cases,
		"observed":            counters,
		"largest_observed":    res.Maxes,
		"workers":             runtime.GOMAXPROCS(0),
	}
	if inconclusive != "" {
		cov["inconclusive"] = inconclusive
	}
	ev := map[string]any{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration",
		"coverage": cov, "assumptions": p.Assume, "wall_s": wall, "violations": len(fresh),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(*fOut, p.ID+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fatal(err)
	}
}
