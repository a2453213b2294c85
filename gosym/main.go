package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type job struct {
	check int
	cas   int
}

type jobRes struct {
	job      job
	viol     []*Violation
	samples  []*PathSample
	stats    Stats
	covers   map[string]int
	notes    map[string]int
	dur      time.Duration
	approx   bool
	timedOut bool
	memOut   bool
	dives    int
}

type worker struct {
	m *M
}

func newMachine(p *Program, solverBin string, timeoutMS int, thorough bool) (*M, error) {
	s, err := NewSolver(solverBin, timeoutMS)
	if err != nil {
		return nil, err
	}
	m := &M{p: p, S: s, T: NewTerms(), called: map[*Func]int64{}, thorough: thorough}
	m.anyTI = p.anyTI
	m.resetJob()
	return m, nil
}

var rngSeed uint64

func (m *M) resetJob() {
	m.pc = nil
	m.incomplete = map[string]int{}
	m.viol = nil
	m.violKey = map[string]int{}
	m.covers = map[string]int{}
	m.samples = nil
	m.stats = Stats{}
	m.ufs = map[string]int{}
	m.rangeMemo = map[[2]any]Value{}
	m.natives = nil
	m.nativeIDs = nil
	m.approx = false
	m.freshN = 0
	m.steps = 0
	m.depth = 0
	m.protect = 0
	m.monBirth = 0
	m.mapOrder = false
	m.fr = nil
	m.memoStamp, m.memoVal = nil, nil
	m.modelN = 0
	m.pool = nil
	m.rng = 0x9e3779b97f4a7c15 ^ rngSeed*0x2545f4914f6cdd1d
	if m.rng == 0 {
		m.rng = 1
	}
	m.model = m.newModel(nil)
	m.stepLimit = 20_000_000
	m.obs = m.alloc(m.anyTI, 1<<20)
	m.obs.sync = true
}

// initPackage runs the initialisers of the harness package and its imports.
func (m *M) initPackage(l *Loaded) (err error) {
	m.initing = true
	m.deadline = time.Now().Add(2 * time.Minute)
	m.stepLimit = 1 << 40
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("package initialisation: %v in %s\n%s", r, m.where(), debug.Stack())
		}
	}()
	f := l.p.fn(l.main.Func("init"))
	r := m.call(f, nil, nil)
	if !r.inline || r.out.pan {
		msg := ""
		for k := range m.incomplete {
			msg += k + "; "
		}
		if r.inline && r.out.pan {
			msg += m.panicText(r.out.val)
		}
		return fmt.Errorf("package initialisation did not finish: %s", msg)
	}
	if len(m.incomplete) > 0 {
		return fmt.Errorf("package initialisation incomplete: %v", sortedKeys(m.incomplete))
	}
	m.initing = false
	m.trail = nil
	return nil
}

func (m *M) runJob(c *Check, cas int, deadline time.Time, maxSamples int) (res *jobRes) {
	m.resetJob()
	m.T = NewTerms()
	m.S.reset()
	m.deadline = deadline
	m.harness, m.caseNo = c.name, cas
	m.maxSamples = maxSamples
	m.sampleGap = 997
	if m.stepDefault > 0 {
		m.stepLimit = m.stepDefault
	}
	m.curMark = m.birth
	t0 := time.Now()
	res = &jobRes{}
	m.memStop.Store(false)
	m.progress.Store(0)
	m.active.Store(true)
	defer m.active.Store(false)
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case jobTimeout:
					m.note("time budget exhausted before every path was explored")
					res.timedOut = true
				case memLimit:
					m.note("memory budget exhausted before every path was explored")
					res.memOut = true
				case unsupported:
					m.note("unsupported: " + r.msg)
				case pathDead:
				default:
					m.note(fmt.Sprintf("internal error: %v", r))
					if m.debug {
						panic(r)
					}
					fmt.Fprintf(os.Stderr, "internal error in %s/%d: %v\n%s\n", c.name, cas, r, debug.Stack())
				}
			}
		}()
		f := c.fn
		m.p.compile(f)
		args := append([]Value{mkInt(cas)}, c.bind...)
		m.callTop(f, args)
	}()
	m.undo(0)
	res.viol = m.viol
	res.samples = m.samples
	res.stats = m.stats
	res.covers = m.covers
	res.notes = m.incomplete
	res.dur = time.Since(t0)
	res.approx = m.approx
	if m.memStop.Load() {
		m.resetJob() // let go of what the job held
		m.T = NewTerms()
		m.S.reset()
	}
	return res
}

// runDives follows single paths of a job whose exploration was too large: at
// each branch one feasible side, chosen at random, is taken, and the solver
// decides the assertions for all values along that path.
func (m *M) runDives(c *Check, cas int, limit time.Time, res *jobRes) {
	for k := 1; k <= 400 && len(res.viol) == 0 && time.Now().Before(limit); k++ {
		m.dive = k
		m.diveRng = (rngSeed+1)*0x9E3779B97F4A7C15 ^ uint64(k)*0xBF58476D1CE4E5B9 ^ uint64(cas)<<40 | 1
		r := m.runJob(c, cas, limit, 0)
		m.dive = 0
		res.viol = append(res.viol, r.viol...)
		res.stats.Asserts += r.stats.Asserts
		res.stats.AssertSym += r.stats.AssertSym
		res.stats.Steps += r.stats.Steps
		res.dives++
	}
	if res.dives > 0 {
		if res.notes == nil {
			res.notes = map[string]int{}
		}
		res.notes["single paths, chosen at random, followed where the exploration was too large"] += res.dives
	}
}

// callTop runs f as a top frame: its paths end the exploration one by one.
func (m *M) callTop(f *Func, args []Value) {
	fr := &frame{f: f, regs: make([]Value, f.nregs), top: true}
	copy(fr.regs, args)
	fr.code = f.blocks[0].code
	fr.entryTrail, fr.entryPC, fr.entryBirth = len(m.trail), len(m.pc), m.birth
	m.fr = fr
	m.curMark = m.birth
	m.depth = 1
	m.run(fr)
}

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Harness  string `json:"harness"`
	Case     int    `json:"case"`
	Msg      string `json:"msg"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func main() {
	prop := flag.String("prop", "", "property id")
	dir := flag.String("dir", "/verif/harness", "harness module")
	pkg := flag.String("pkg", "", "harness package pattern")
	outF := flag.String("evidence", "", "evidence file")
	replayDir := flag.String("replay", "/verif/out/replay", "directory of replay files")
	only := flag.String("only", "", "run only this harness")
	onlyCase := flag.Int("case", -1, "run only this case")
	nw := flag.Int("j", runtime.NumCPU(), "workers")
	budget := flag.Int("budget", 0, "seconds")
	verbose := flag.Bool("v", false, "verbose")
	noMerge := flag.Bool("nomerge", false, "do not merge paths")
	solver := flag.String("solver", "z3-new", "solver binary")
	qms := flag.Int("qms", 20000, "solver time limit per query, ms")
	known := flag.String("known", "/verif/known_findings.json", "known findings")
	dbg := flag.Bool("debug", false, "panic on internal errors")
	meta := flag.String("meta", "", "JSON file with assumptions for the evidence")
	flag.Parse()
	os.Exit(realMain(*prop, *dir, *pkg, *outF, *replayDir, *only, *onlyCase, *nw, *budget, *verbose, *noMerge, *solver, *qms, *known, *dbg, *meta))
}

func realMain(prop, dir, pkg, outF, replayDir, only string, onlyCase, nw, budget int, verbose, noMerge bool, solver string, qms int, known string, dbg bool, meta string) int {
	t0 := time.Now()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rngSeed = uint64(seed)
	if budget == 0 {
		budget = 200
		if tier == "thorough" {
			budget = 780
		}
	}
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)

	// native replay binary, built while the symbolic side loads
	bin := filepath.Join(tmp, "replay")
	buildErr := make(chan error, 1)
	go func() { buildErr <- goBuild(dir, pkg, bin, false) }()

	l, err := load(dir, pkg, "")
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 2
	}
	tLoad := time.Since(t0)

	deadline := t0.Add(time.Duration(budget) * time.Second)
	m0, err := newMachine(l.p, solver, qms, tier == "thorough")
	if err == nil {
		err = m0.initPackage(l)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	checks := m0.checks
	// the harnesses' cases in turn, so that a slow harness does not keep the
	// others from starting
	var jobs []job
	for k, more := 0, true; more; k++ {
		more = false
		for i, c := range checks {
			if k >= c.cases || only != "" && c.name != only {
				continue
			}
			more = true
			if onlyCase < 0 || k == onlyCase {
				jobs = append(jobs, job{i, k})
			}
		}
	}
	if len(jobs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness")
		return 2
	}
	if len(jobs) < nw {
		nw = len(jobs)
	}
	maxSamples := 12
	if len(jobs) > 20 {
		maxSamples = 6
	}
	if len(jobs) > 60 {
		maxSamples = 3
	}
	queue := make(chan job, len(jobs))
	for _, j := range jobs {
		queue <- j
	}
	close(queue)
	var mu sync.Mutex
	var results []*jobRes
	var wg sync.WaitGroup
	var machines []*M
	skipped := 0
	// A case gets a share of the budget at first; those that need more are
	// begun anew when all others are done.
	share := time.Duration(budget) * time.Second / 12
	var again []job
	first := map[job]*jobRes{}
	var pending sync.WaitGroup
	pending.Add(len(jobs))
	var failFast atomic.Int32 // development aid: stop after the first cases that fail
	stopWatch := make(chan bool)
	go watchMemory(&mu, &machines, stopWatch)
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			m := m0
			if w > 0 {
				var err error
				m, err = newMachine(l.p, solver, qms, tier == "thorough")
				if err == nil {
					err = m.initPackage(l)
				}
				if err != nil {
					fmt.Fprintln(os.Stderr, err)
					return
				}
			}
			m.debug = dbg
			m.noMerge = noMerge
			mu.Lock()
			machines = append(machines, m)
			mu.Unlock()
			m.called = map[*Func]int64{}
			run := func(j job, limit time.Time) *jobRes {
				if time.Now().After(deadline) || failFast.Load() >= 3 {
					return nil
				}
				r := m.runJob(m.checks[j.check], j.cas, limit, maxSamples)
				r.job = j
				if len(r.viol) > 0 && os.Getenv("SYM_FIRST") != "" {
					failFast.Add(1)
				}
				if (r.timedOut || r.memOut) && len(r.viol) == 0 {
					until := time.Now().Add(share / 2)
					if until.After(deadline) {
						until = deadline
					}
					m.runDives(m.checks[j.check], j.cas, until, r)
				}
				if verbose {
					c := checks[j.check]
					fmt.Fprintf(os.Stderr, "%-28s case %-4d %8.2fs paths=%d outcomes=%d groups=%d steps=%d asserts=%d dives=%d viol=%d notes=%v\n",
						c.name, j.cas, r.dur.Seconds(), r.stats.Paths, r.stats.Outcomes, r.stats.Groups, r.stats.Steps, r.stats.Asserts, r.dives, len(r.viol), r.notes)
				}
				return r
			}
			for j := range queue {
				limit := time.Now().Add(share)
				if time.Since(t0) > time.Duration(budget)*time.Second/2 {
					limit = time.Now().Add(share / 5)
				}
				if limit.After(deadline) {
					limit = deadline
				}
				r := run(j, limit)
				mu.Lock()
				switch {
				case r == nil:
					skipped++
				case r.timedOut && len(r.viol) == 0 && limit.Before(deadline):
					again = append(again, j)
					first[j] = r
				default:
					results = append(results, r)
				}
				mu.Unlock()
				pending.Done()
			}
			pending.Wait()
			for {
				mu.Lock()
				if len(again) == 0 {
					mu.Unlock()
					return
				}
				j := again[0]
				again = again[1:]
				mu.Unlock()
				r := run(j, deadline)
				mu.Lock()
				if r == nil {
					r = first[j]
				}
				results = append(results, r)
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	close(stopWatch)
	tSym := time.Since(t0)
	sort.Slice(results, func(i, j int) bool {
		a, b := results[i].job, results[j].job
		if a.check != b.check {
			return a.check < b.check
		}
		return a.cas < b.cas
	})

	// totals
	var st Stats
	notes := map[string]int{}
	covers := map[string]int{}
	var viols []*Violation
	var samples []*PathSample
	perCheck := map[int][2]int64{}
	for _, r := range results {
		st.Paths += r.stats.Paths
		st.Outcomes += r.stats.Outcomes
		st.Groups += r.stats.Groups
		st.Forks += r.stats.Forks
		st.Steps += r.stats.Steps
		st.Calls += r.stats.Calls
		st.Asserts += r.stats.Asserts
		st.AssertSym += r.stats.AssertSym
		for k, n := range r.notes {
			notes[k] += n
		}
		for k, n := range r.covers {
			covers[k] += n
		}
		viols = append(viols, r.viol...)
		for _, x := range r.samples {
			x.NoObs = r.approx
		}
		samples = append(samples, r.samples...)
		p := perCheck[r.job.check]
		p[0] += r.stats.Paths
		p[1] += r.stats.Asserts
		perCheck[r.job.check] = p
	}
	if skipped > 0 {
		notes["cases not started within the time budget"] += skipped
	}
	var q struct {
		Queries, Hits, Sat, Unsat, Unknown int64
		Time, Max                          time.Duration
	}
	called := map[string]int64{}
	for _, m := range machines {
		s := m.S
		q.Queries += s.Queries
		q.Hits += s.Hits
		q.Sat += s.Sat
		q.Unsat += s.Unsat
		q.Unknown += s.Unknown
		q.Time += s.Time
		q.Max = max(q.Max, s.MaxTime)
		for f, n := range m.called {
			called[f.name] += n
		}
		s.close()
	}

	if err := <-buildErr; err != nil {
		fmt.Fprintln(os.Stderr, "native build:", err)
		return 2
	}

	// violations: replay natively
	var kf []knownFinding
	if b, err := os.ReadFile(known); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Fprintln(os.Stderr, known, err)
			return 2
		}
	}
	os.MkdirAll(replayDir, 0o755)
	old, _ := filepath.Glob(filepath.Join(replayDir, prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	exit := 0
	confirmed, unconfirmed := 0, 0
	reported := map[string]bool{}
	knownSeen := map[string]bool{}
	replayed := 0
	tried := map[string]int{}
	raceBin := ""
	for _, v := range viols {
		key := v.Harness + "|" + v.Kind + "|" + v.Msg
		if reported[key] || replayed > 60 || tried[key] >= 12 {
			continue
		}
		tried[key]++
		replayed++
		path := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", prop, replayed))
		writeJSON(path, v)
		b := bin
		if v.Kind == "race" {
			if raceBin == "" {
				raceBin = filepath.Join(tmp, "replay-race")
				if err := goBuild(dir, pkg, raceBin, true); err != nil {
					fmt.Fprintln(os.Stderr, "race build:", err)
					raceBin = bin
				}
			}
			b = raceBin
		}
		ok, how := replayViolation(b, path, v)
		if !ok {
			unconfirmed++
			fmt.Fprintf(os.Stderr, "not confirmed by the native replay: %s case %d %s: %s (%s)\n", v.Harness, v.Case, v.Kind, v.Msg, how)
			os.Rename(path, filepath.Join(replayDir, fmt.Sprintf("%s-%d.unconfirmed.json", prop, replayed)))
			continue
		}
		reported[key] = true
		confirmed++
		isKnown := false
		for _, k := range kf {
			if k.Property == prop && k.Status == "known" && k.Harness == v.Harness && k.Msg == v.Msg && (k.Case < 0 || k.Case == v.Case) {
				isKnown = true
				if !knownSeen[k.What] {
					knownSeen[k.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
				}
			}
		}
		if isKnown {
			continue
		}
		exit = 1
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Printf("  %s case %d: %s: %s\n  model: %s\n  replay: %s\n", v.Harness, v.Case, v.Kind, v.Msg, modelText(v.Model), how)
	}

	// translation validation: the same paths natively
	validated, disagree := 0, 0
	var disagreements []string
	if len(samples) > 400 {
		step := len(samples)/400 + 1
		var s []*PathSample
		for i := 0; i < len(samples); i += step {
			s = append(s, samples[i])
		}
		samples = s
	}
	if len(samples) > 0 {
		file := filepath.Join(tmp, "samples.json")
		writeJSON(file, samples)
		rs := runBatch(bin, file, len(samples))
		for i, s := range samples {
			r, ok := rs[i]
			switch {
			case !ok:
				disagree++
				disagreements = append(disagreements, fmt.Sprintf("%s case %d: native replay gave no answer", s.Harness, s.Case))
			case r.Status == "ok" && (s.NoObs || eqStrs(r.Obs, s.Obs)):
				validated++
			case r.Status == "violation" || r.Status == "panic":
				// the real code breaks the property on this input
				key := s.Harness + "|sample|" + r.Msg
				if !reported[key] {
					reported[key] = true
					replayed++
					path := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", prop, replayed))
					v := &Violation{Harness: s.Harness, Case: s.Case, Kind: "assert", Msg: r.Msg, Model: s.Model, Where: "native replay of a path the executor took to satisfy the property"}
					writeJSON(path, v)
					ok, how := replayViolation(bin, path, v)
					if ok {
						confirmed++
						exit = 1
						fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
						fmt.Printf("  %s case %d: %s\n  model: %s\n  replay: %s\n", s.Harness, s.Case, r.Msg, modelText(s.Model), how)
					}
				}
				disagree++
				disagreements = append(disagreements, fmt.Sprintf("%s case %d: native %s %s", s.Harness, s.Case, r.Status, r.Msg))
			default:
				disagree++
				disagreements = append(disagreements, fmt.Sprintf("%s case %d model %s: native %s %v, symbolic %v", s.Harness, s.Case, modelText(s.Model), r.Status, r.Obs, s.Obs))
			}
		}
	}
	for i, d := range disagreements {
		if i < 5 {
			fmt.Fprintln(os.Stderr, "DISAGREEMENT:", d)
		}
	}

	// evidence
	var tk, std []string
	for f := range called {
		if strings.Contains(f, "shellyln/takenoco") {
			tk = append(tk, strings.ReplaceAll(f, "github.com/shellyln/takenoco/", ""))
		} else if !strings.Contains(f, "verif/harness") {
			std = append(std, f)
		}
	}
	sort.Strings(tk)
	sort.Strings(std)
	if len(tk) > 300 {
		tk = tk[:300]
	}
	var bounds []map[string]any
	var vacuous []string
	for i, c := range checks {
		if only != "" && c.name != only {
			continue
		}
		p := perCheck[i]
		bounds = append(bounds, map[string]any{"harness": c.name, "cases": c.cases, "bound": c.bound, "paths": p[0], "assertion_instances": p[1]})
		if p[1] == 0 {
			vacuous = append(vacuous, c.name)
		}
	}
	noteList := []string{}
	for _, k := range sortedKeys(notes) {
		noteList = append(noteList, fmt.Sprintf("%s (x%d)", k, notes[k]))
	}
	if len(noteList) > 30 {
		noteList = noteList[:30]
	}
	var sm []any
	for i := 0; i < len(samples) && len(sm) < 8; i += len(samples)/8 + 1 {
		s := samples[i]
		o := s.Obs
		if len(o) > 12 {
			o = o[:12]
		}
		sm = append(sm, map[string]any{"harness": s.Harness, "case": s.Case, "input": modelText(s.Model), "observed": o})
	}
	cov := map[string]any{
		"states":                              st.Paths + st.Outcomes,
		"transitions":                         st.Steps,
		"traces_validated_against_impl":       validated,
		"samples":                             sm,
		"exhaustive":                          len(notes) == 0,
		"rule":                                "states = feasible symbolic path outcomes explored (per call and per harness); transitions = SSA instructions executed symbolically; a trace is validated when the natively built harness, run on the solver's model of that path, makes the same observations",
		"harnesses":                           bounds,
		"functions_encoded":                   tk,
		"std_functions_executed":              len(std),
		"jobs":                                len(results),
		"paths":                               st.Paths,
		"call_outcomes":                       st.Outcomes,
		"merged_outcomes":                     st.Groups,
		"forks":                               st.Forks,
		"assertion_instances":                 st.Asserts,
		"assertions_decided_by_solver":        st.AssertSym,
		"solver":                              map[string]any{"binary": solver, "queries": q.Queries, "cache_hits": q.Hits, "sat": q.Sat, "unsat": q.Unsat, "unknown": q.Unknown, "time_s": round3(q.Time), "max_query_s": round3(q.Max)},
		"covers_reached":                      covers,
		"reduced_bounds":                      noteList,
		"harnesses_without_assertion_reached": vacuous,
		"candidates_not_confirmed_natively":   unconfirmed,
		"native_disagreements":                disagree,
		"time_load_s":                         round3(tLoad),
		"time_symbolic_s":                     round3(tSym - tLoad),
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "wall_s": round3(time.Since(t0)), "violations": confirmed,
		"assumptions": []string{},
	}
	if meta != "" {
		if b, err := os.ReadFile(meta); err == nil {
			var mm map[string][]string
			if json.Unmarshal(b, &mm) == nil {
				ev["assumptions"] = append(append([]string{}, mm["*"]...), mm[prop]...)
			}
		}
	}
	if outF != "" {
		os.MkdirAll(filepath.Dir(outF), 0o755)
		writeJSON(outF, ev)
	}
	fmt.Printf("%s: %d jobs, %d paths, %d call outcomes, %d instructions, %d assertions (%d by solver), %d queries (%.1fs), %d traces validated, %d disagreements, reduced bounds: %d, violations: %d, %.1fs\n",
		prop, len(results), st.Paths, st.Outcomes, st.Steps, st.Asserts, st.AssertSym, q.Queries, q.Time.Seconds(), validated, disagree, len(notes), confirmed, time.Since(t0).Seconds())
	if verbose || len(notes) > 0 {
		for _, n := range noteList {
			fmt.Println("  reduced bound:", n)
		}
	}
	if len(vacuous) > 0 {
		fmt.Println("  no assertion reached in:", vacuous)
	}
	return exit
}

func round3(d time.Duration) float64 { return float64(d.Milliseconds()) / 1000 }

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func modelText(m map[string]uint64) string {
	var sb strings.Builder
	for i, k := range sortedKeys(m) {
		if i > 0 {
			sb.WriteByte(' ')
		}
		if sb.Len() > 600 {
			sb.WriteString("...")
			break
		}
		fmt.Fprintf(&sb, "%s=%d", k, m[k])
	}
	return sb.String()
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	os.WriteFile(path, append(b, '\n'), 0o644)
}

func goBuild(dir, pkg, out string, race bool) error {
	args := []string{"build", "-o", out}
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOENV=off")
	if race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	args = append(args, pkg)
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = env
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	if err := c.Run(); err != nil {
		return fmt.Errorf("%v: %s", err, b.String())
	}
	return nil
}

type nativeRes struct {
	Index  int      `json:"index"`
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func runNative(bin, file string, timeout time.Duration, env ...string) (out string, exit int, timedOut bool) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	// a runaway replay must not take the machine's memory
	c := exec.CommandContext(ctx, "bash", "-c", "ulimit -v 8000000; exec \"$0\" \"$1\"", bin, file)
	for _, e := range env {
		if e == "SYM_RACE=1" { // the race detector maps terabytes
			c = exec.CommandContext(ctx, bin, file)
		}
	}
	c.Env = append(append(os.Environ(), "GOMEMLIMIT=2GiB"), env...)
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	if ctx.Err() != nil {
		return b.String(), -1, true
	}
	if err != nil {
		if e, ok := err.(*exec.ExitError); ok {
			return b.String(), e.ExitCode(), false
		}
		return b.String(), -2, false
	}
	return b.String(), 0, false
}

func replayViolation(bin, path string, v *Violation) (bool, string) {
	tries := 1
	var env []string
	if v.Kind == "race" {
		tries = 5
		env = append(env, "SYM_RACE=1", "GORACE=halt_on_error=1 exitcode=66")
	}
	for k := range v.Model {
		if strings.HasPrefix(k, "maporder#") {
			tries = 40
		}
	}
	if v.MapOrder {
		tries = 40
	}
	how := ""
	for i := 0; i < tries; i++ {
		out, exit, to := runNative(bin, path, 20*time.Second, env...)
		tail := strings.TrimSpace(out)
		if len(tail) > 300 {
			tail = tail[:300]
		}
		switch {
		case to:
			return true, "the natively built harness does not finish within 20 s on this input"
		case exit == 3:
			return true, "the natively built harness fails on this input: " + tail
		case exit == 66:
			return true, "data race reported by the race detector on the natively built harness"
		case exit == 2 && (strings.Contains(out, "stack overflow") || strings.Contains(out, "out of memory") || strings.Contains(out, "fatal error")):
			return true, "the natively built harness crashes on this input: " + tail
		}
		how = fmt.Sprintf("exit %d: %s", exit, tail)
	}
	return false, how
}

func runBatch(bin, file string, n int) map[int]nativeRes {
	out, _, _ := runNative(bin, file, 120*time.Second)
	rs := map[int]nativeRes{}
	for _, l := range strings.Split(out, "\n") {
		var r nativeRes
		if json.Unmarshal([]byte(l), &r) == nil && r.Status != "" {
			rs[r.Index] = r
		}
	}
	return rs
}

// memoryBudget is how much live heap the jobs may hold together. A job that
// pushes it over is given up (and reported as incomplete), so that a change to
// the code that makes a harness explode cannot take the whole check down.
const memoryBudget = 12 << 30

func watchMemory(mu *sync.Mutex, machines *[]*M, stop chan bool) {
	s := []metrics.Sample{{Name: "/gc/heap/live:bytes"}}
	t := time.NewTicker(100 * time.Millisecond)
	defer t.Stop()
	for {
		select {
		case <-stop:
			return
		case <-t.C:
		}
		metrics.Read(s)
		if s[0].Value.Uint64() < memoryBudget {
			continue
		}
		mu.Lock()
		var big *M
		for _, m := range *machines {
			if m.active.Load() && (big == nil || m.progress.Load() > big.progress.Load()) {
				big = m
			}
		}
		mu.Unlock()
		if big != nil {
			big.memStop.Store(true)
			for i := 0; i < 100 && big.active.Load() && big.memStop.Load(); i++ {
				time.Sleep(50 * time.Millisecond)
			}
		}
		runtime.GC()
	}
}
