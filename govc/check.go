package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// ---------------------------------------------------------------- worker processes

type workItem struct {
	Name string
	Long int // seconds per obligation
}

type failedObl struct {
	Label  string
	Kind   string
	Pos    string
	Status string
	Path   string
	Model  map[string]string
	Out    string
}

type workResult struct {
	Name    string
	Err     string
	Obls    int
	OK      int
	By      map[string]int // back end -> obligations
	Kinds   map[string]int
	Failed  []failedObl
	Skipped int
	Used    []string
	Trusted []string
	Paths   int
	Exits   int
	Mode    string
	ExecMs  int64
	SolveMs int64
	FeasN   int
	SlowMs  int64
	Slow    string
	Smoke   int // exits at which the assumptions were tested for contradictions
}

// specsOf restricts a contract item "name@case" to the one case.
func runItem(p *Program, db *SpecDB, it workItem, solvers int) (res *workResult) {
	res = &workResult{Name: it.Name, By: map[string]int{}, Kinds: map[string]int{}}
	defer func() {
		if r := recover(); r != nil {
			res.Err = fmt.Sprintf("internal error of the verifier: %v", r)
			buf := make([]byte, 4000)
			res.Failed = append(res.Failed, failedObl{Label: "verifier could not process the function", Kind: "internal", Out: string(buf[:runtime.Stack(buf, false)])})
		}
	}()
	var fr *FuncResult
	n0 := feas.n
	if strings.HasPrefix(it.Name, "lemma ") {
		l := db.Lemmas[it.Name[6:]]
		if l == nil {
			res.Err = "no such lemma"
			return
		}
		fr = verifyLemma(p, db, l)
	} else {
		name, cs, has := strings.Cut(it.Name, "@")
		con := db.Contracts[name]
		if con == nil {
			res.Err = "no contract"
			return
		}
		fn := p.fns[name]
		if fn == nil {
			res.Err = "the function is not in the current source"
			return
		}
		caseFilter = map[string]map[string]bool{}
		if has {
			caseFilter[name] = map[string]bool{cs: true}
		}
		fr = verifyFunc(p, db, con, fn, 150*time.Second)
	}
	res.Err = fr.Err
	res.Mode = fr.Mode
	res.Paths, res.Exits = fr.Paths, fr.Exits
	res.Used, res.Trusted = fr.Used, fr.Trusted
	res.ExecMs = fr.Dur.Milliseconds()
	res.FeasN = feas.n - n0
	st := time.Now()
	// a broken function does not spend the whole budget
	bad := discharge(fr.Obls, solveCfg{quick: 3 * time.Second, long: time.Duration(it.Long) * time.Second, enough: 4}, solvers)
	for _, o := range fr.Obls {
		if o.Status == "" && o.Kind != "ground" {
			res.Skipped++
		}
	}
	if keepExits && bad == 0 && fr.Err == "" {
		vac, n := smokeTest([]*FuncResult{fr}, 3*time.Second, false)
		res.Smoke = n
		if len(vac) > 0 {
			res.Err = "vacuous: what is assumed at every exit is contradictory"
		}
	}
	res.SolveMs = time.Since(st).Milliseconds()
	res.Obls = len(fr.Obls)
	for _, o := range fr.Obls {
		if o.Status == "" {
			continue
		}
		if o.Status == "unsat" {
			res.OK++
			s := o.Solver
			if s == "" {
				s = "simplifier"
			}
			res.By[s]++
			res.Kinds[o.Kind]++
			if ms := o.Dur.Milliseconds(); ms > res.SlowMs {
				res.SlowMs = ms
				res.Slow = o.Label
			}
			continue
		}
		fo := failedObl{Label: o.Label, Kind: o.Kind, Pos: o.Pos, Status: o.Status, Path: o.Path, Out: o.Out}
		if len(fo.Out) > 2000 {
			fo.Out = fo.Out[:2000]
		}
		if len(o.Model) > 0 {
			fo.Model = map[string]string{}
			for k, v := range o.Model {
				fo.Model[k] = v.String()
			}
		}
		res.Failed = append(res.Failed, fo)
	}
	return
}

// solver slots shared with the other worker processes
var tokR, tokW *os.File

func slot() func() {
	if tokR == nil {
		return func() {}
	}
	b := make([]byte, 1)
	if n, err := tokR.Read(b); n != 1 || err != nil {
		return func() {}
	}
	return func() { tokW.Write(b) }
}

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	specs := fs.String("specs", "", "")
	ground := fs.String("ground", "", "")
	solvers := fs.Int("solvers", 10, "")
	fs.BoolVar(&keepExits, "smoke", false, "")
	fs.Parse(args)
	tokR, tokW = os.NewFile(3, "tokens"), os.NewFile(4, "tokens")
	db := loadSpecs(*specs)
	p, err := loadProgram(*repo)
	if err == nil && *ground != "" {
		err = loadGroundFile(*ground)
	}
	in := bufio.NewReader(os.Stdin)
	out := json.NewEncoder(os.Stdout)
	for {
		l, e := in.ReadBytes('\n')
		if e != nil {
			return
		}
		var it workItem
		json.Unmarshal(l, &it)
		if err != nil {
			out.Encode(&workResult{Name: it.Name, Err: err.Error()})
			continue
		}
		out.Encode(runItem(p, db, it, *solvers))
	}
}

// ---------------------------------------------------------------- property checks

type Replay struct {
	Pkg     string   // package directory relative to the repository
	PkgName string   `json:",omitempty"`
	Files   []string // test files under /verif/replay
	Run     string   // -run regexp
}

type Property struct {
	Roots       []string // regexps over contract names
	Lemmas      []string
	Replay      []Replay
	Assumptions []string
	Bounded     []string // parts decided only by a bounded check
	MaxWall     int
}

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func (w *worker) run(it workItem) (*workResult, error) {
	b, _ := json.Marshal(it)
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		return nil, err
	}
	l, err := w.out.ReadBytes('\n')
	if err != nil {
		return nil, err
	}
	var r workResult
	if err := json.Unmarshal(l, &r); err != nil {
		return nil, err
	}
	return &r, nil
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "")
	seed := fs.String("seed", "1", "")
	nw := fs.Int("j", 8, "worker processes")
	noReplay := fs.Bool("noreplay", false, "")
	noProof := fs.Bool("noproof", false, "")
	save := fs.Bool("saveschedule", false, "record the closure and run times as scheduling hints")
	fs.Parse(args)
	start := time.Now()
	id := *prop
	var props map[string]*Property
	b, err := os.ReadFile(filepath.Join(*verif, "checks", "props.json"))
	if err == nil {
		err = json.Unmarshal(b, &props)
	}
	if err != nil || props[id] == nil {
		fmt.Println("check configuration:", err)
		return 2
	}
	pr := props[id]
	if pr.MaxWall == 0 {
		pr.MaxWall = 640
	}
	if *tier == "thorough" {
		pr.MaxWall = 3000
	}
	scratch, err := os.MkdirTemp("", "govc-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(scratch)
	specs := filepath.Join(*verif, "contracts")
	db := loadSpecs(specs)
	var items []string
	seen := map[string]bool{}
	add := func(n string) {
		if !seen[n] {
			seen[n] = true
			items = append(items, n)
		}
	}
	addCon := func(n string) {
		c := db.Contracts[n]
		if c == nil || c.Trusted {
			return
		}
		if len(c.Cases) == 0 {
			add(n)
			return
		}
		for _, cs := range c.Cases {
			add(n + "@" + caseKey(cs))
		}
	}
	for _, r := range pr.Roots {
		re := regexp.MustCompile("^(" + r + ")$")
		k := 0
		for _, n := range db.Order {
			if re.MatchString(n) {
				k++
				addCon(n)
			}
		}
		if k == 0 {
			fmt.Println("no contract matches", r)
			return 2
		}
	}
	for _, l := range pr.Lemmas {
		add("lemma " + l)
	}
	roots := len(items)

	var results []*workResult
	loadErr := ""
	var p *Program
	if !*noProof {
		p, err = loadProgram(*repo)
		if err != nil {
			loadErr = err.Error()
		} else if err := groundAt(*verif, p, *repo, scratch); err != nil {
			loadErr = err.Error()
		}
	}
	timedOut := false
	// the replay drivers run beside the proof as a cross-check of the contracts against
	// the real code; a concrete failing input ends the run early
	var rep replayOutcome
	cancel := make(chan struct{})
	repDone := make(chan struct{})
	budget := 8
	if *tier == "thorough" {
		budget = 60
	}
	go func() {
		defer close(repDone)
		if *noReplay {
			return
		}
		rep = runReplay(*repo, *verif, scratch, id, pr, nil, budget, *seed)
		if rep.fail != "" {
			close(cancel)
		}
	}()
	if loadErr == "" && !*noProof {
		gf := filepath.Join(scratch, "ground.json")
		saveGround(gf)
		sched := loadSchedule(*verif)
		wargs := []string{"-repo", *repo, "-specs", specs, "-ground", gf}
		if *tier == "thorough" {
			wargs = append(wargs, "-smoke")
		}
		results, timedOut = runItems(items, sched, id, seen, *nw, pr.MaxWall, wargs, start, db, cancel)
		if *save {
			sched.record(id, results, filepath.Join(*verif, "checks", "schedule.json"))
		}
	}
	// ---- collect
	obls, ok := 0, 0
	by := map[string]int{}
	kinds := map[string]int{}
	var failed []*workResult
	trusted := map[string]bool{}
	var execMs, solveMs int64
	feasN, paths := 0, 0
	funcs := []string{}
	lem, axioms := 0, []string{}
	exits, smoke := 0, 0
	slow, slowMs := "", int64(0)
	modes := map[string]int{}
	for _, r := range results {
		obls += r.Obls
		ok += r.OK
		for k, v := range r.By {
			by[k] += v
		}
		for k, v := range r.Kinds {
			kinds[k] += v
		}
		for _, t := range r.Trusted {
			trusted[t] = true
		}
		execMs += r.ExecMs
		solveMs += r.SolveMs
		feasN += r.FeasN
		paths += r.Paths
		exits += r.Exits
		smoke += r.Smoke
		if r.SlowMs > slowMs {
			slowMs, slow = r.SlowMs, r.Name+": "+r.Slow
		}
		if strings.HasPrefix(r.Name, "lemma ") {
			lem++
			if l := db.Lemmas[r.Name[6:]]; l != nil && l.Axiom && l.Ground == "" {
				axioms = append(axioms, l.Name)
			}
		} else {
			funcs = append(funcs, r.Name)
			modes[r.Mode]++
		}
		if r.Err != "" || len(r.Failed) > 0 || r.Skipped > 0 || r.Obls == 0 && !strings.HasPrefix(r.Name, "lemma ") {
			failed = append(failed, r)
		}
	}
	sort.Strings(funcs)
	sort.Strings(axioms)
	proofOK := loadErr == "" && len(failed) == 0 && !timedOut && (obls > 0 || *noProof)
	// ---- replay on the real code
	hints := map[string]bool{}
	for _, r := range failed {
		for _, f := range r.Failed {
			for _, v := range f.Model {
				hints[v] = true
			}
		}
	}
	<-repDone
	if !*noReplay && rep.fail == "" && !proofOK {
		hintBudget := 45
		if *tier == "thorough" {
			hintBudget = 300
		}
		n := rep.execs
		rep = runReplay(*repo, *verif, scratch, id, pr, hints, hintBudget, *seed+"1")
		rep.execs += n
	}
	wall := time.Since(start).Seconds()
	// ---- evidence
	violations := []string{}
	if !proofOK {
		violations = append(violations, "undischarged obligations")
	}
	if rep.fail != "" {
		violations = append(violations, rep.fail)
	}
	tb := []string{"govc: the verification-condition generator in /verif/govc (Go SSA of the current source -> SMT)", "z3, cvc5", "golang.org/x/tools/go/ssa v0.52.0"}
	for _, a := range axioms {
		tb = append(tb, "axiom "+a+" (of the theory of 2^x, stated in contracts/lemmas.gvc)")
	}
	as := append([]string{}, pr.Assumptions...)
	for t := range trusted {
		as = append(as, t)
	}
	sort.Strings(as[len(pr.Assumptions):])
	as = append(as, "the Go compiler and runtime implement the language specification; every executable integer operation is modelled at its machine width (no machine arithmetic treated as mathematical)")
	ev := map[string]any{
		"property": id, "tier": *tier, "seed": atoiDef(*seed, 1), "level": "proof",
		"coverage": map[string]any{
			"obligations": obls, "discharged": ok,
			"checker_cmd":                    fmt.Sprintf("/verif/bin/govc check -prop %s -tier %s", id, *tier),
			"trusted_base":                   tb,
			"functions_under_contract":       len(funcs),
			"functions":                      funcs,
			"roots":                          roots,
			"lemmas":                         lem,
			"obligations_by_back_end":        by,
			"obligations_by_kind":            kinds,
			"modes":                          modes,
			"paths":                          paths,
			"exits_reached":                  exits,
			"exits_tested_for_contradiction": smoke,
			"feasibility_queries":            feasN,
			"solver_seconds":                 float64(solveMs) / 1000,
			"vc_generation_seconds":          float64(execMs) / 1000,
			"slowest_obligation":             slow,
			"slowest_obligation_ms":          slowMs,
			"replay_cross_check_executions":  rep.execs,
			"bounded_parts":                  pr.Bounded,
		},
		"assumptions": as, "wall_s": wall, "violations": len(violations),
	}
	if len(violations) > 0 {
		ev["coverage"].(map[string]any)["violation_list"] = violations
	}
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(*verif, "evidence", id+".json"), append(eb, '\n'), 0o644)
	fmt.Printf("%s: %d/%d obligations discharged over %d functions/cases and %d lemmas, %d replay executions, %.1f s\n", id, ok, obls, len(funcs), lem, rep.execs, wall)
	if rep.err != "" {
		fmt.Println("replay driver:", rep.err)
	}
	if proofOK && rep.fail == "" {
		return 0
	}
	// ---- report
	rd := filepath.Join(*verif, "evidence", "replay")
	os.MkdirAll(rd, 0o755)
	rf := filepath.Join(rd, id+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n\n", id)
	if rep.fail != "" {
		fmt.Fprintf(&sb, "FAILING INPUT on the real code (go test -overlay of the replay driver, see rerun below):\n%s\nrerun: %s\n\n", rep.fail, rep.rerun)
	}
	if loadErr != "" {
		fmt.Fprintf(&sb, "the current source could not be loaded: %s\n", loadErr)
	}
	if timedOut {
		fmt.Fprintf(&sb, "the time budget of %d s ran out before every obligation was decided\n", pr.MaxWall)
	}
	for _, r := range failed {
		fmt.Fprintf(&sb, "FAILED %s: %s\n", r.Name, r.Err)
		fmt.Printf("  failed: %s %s\n", r.Name, r.Err)
		for i, f := range r.Failed {
			if i < 3 {
				fmt.Printf("    [%s] %s %s: %s\n", f.Status, f.Pos, f.Kind, f.Label)
			}
			fmt.Fprintf(&sb, "  [%s] %s %s: %s\n      path %s\n", f.Status, f.Pos, f.Kind, f.Label, f.Path)
			var ks []string
			for k := range f.Model {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Fprintf(&sb, "      %s = %s\n", k, f.Model[k])
			}
			if f.Out != "" {
				fmt.Fprintf(&sb, "      verifier output: %s\n", f.Out)
			}
		}
		if r.Skipped > 0 {
			fmt.Fprintf(&sb, "  %d further obligations not attempted\n", r.Skipped)
		}
	}
	if rep.err != "" {
		fmt.Fprintf(&sb, "replay driver: %s\n", rep.err)
	}
	os.WriteFile(rf, []byte(sb.String()), 0o644)
	if rep.fail != "" {
		fmt.Println(rep.fail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rf)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, rf)
	}
	return 1
}

func atoiDef(s string, d int) int {
	var n int
	if _, err := fmt.Sscanf(s, "%d", &n); err != nil {
		return d
	}
	return n
}

// schedule holds scheduling hints only: which items an earlier run of a
// property needed and how long they took. Every item is verified from the
// current source; items that the current source does not need are dropped.
type schedule struct {
	Ms      map[string]int64
	Closure map[string][]string
}

func loadSchedule(verif string) *schedule {
	s := &schedule{Ms: map[string]int64{}, Closure: map[string][]string{}}
	if b, err := os.ReadFile(filepath.Join(verif, "checks", "schedule.json")); err == nil {
		json.Unmarshal(b, s)
	}
	return s
}

func (s *schedule) record(id string, rs []*workResult, f string) {
	var c []string
	for _, r := range rs {
		s.Ms[r.Name] = (r.ExecMs + r.SolveMs + 99) / 100 * 100
		c = append(c, r.Name)
	}
	sort.Strings(c)
	s.Closure[id] = c
	b, _ := json.MarshalIndent(s, "", " ")
	os.WriteFile(f, append(b, '\n'), 0o644)
}

func runItems(roots []string, sched *schedule, id string, seen map[string]bool, nw, maxWall int, wargs []string, start time.Time, db *SpecDB, cancel <-chan struct{}) ([]*workResult, bool) {
	exe, _ := os.Executable()
	type job struct {
		it    workItem
		retry bool
		// the item had undecided obligations in its first attempt
		failedBefore bool
		res          *workResult
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	var queue []job
	items := append([]string{}, roots...)
	for _, n := range sched.Closure[id] {
		if !seen[n] {
			name := strings.SplitN(n, "@", 2)[0]
			if strings.HasPrefix(n, "lemma ") && db.Lemmas[n[6:]] == nil || !strings.HasPrefix(n, "lemma ") && db.Contracts[name] == nil {
				continue
			}
			seen[n] = true
			items = append(items, n)
		}
	}
	// the functions of the property first, then expensive items first
	isRoot := map[string]bool{}
	for _, n := range roots {
		isRoot[n] = true
	}
	sort.SliceStable(items, func(i, j int) bool {
		if a, b := isRoot[items[i]], isRoot[items[j]]; a != b {
			return a
		}
		return sched.Ms[items[i]] > sched.Ms[items[j]]
	})
	for _, n := range items {
		queue = append(queue, job{it: workItem{n, 10}})
	}
	inflight := 0
	var results []*workResult
	var retryQ []job
	stop := false
	bad := 0
	deadline := start.Add(time.Duration(maxWall) * time.Second)
	var procs []*exec.Cmd
	// the workers share a fixed number of solver slots
	tokR, tokW, perr := os.Pipe()
	if perr != nil {
		panic(perr)
	}
	tokW.Write(make([]byte, nw+4))
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			defer func() {
				if w != nil {
					w.in.Close()
					w.cmd.Process.Kill()
					w.cmd.Wait()
				}
			}()
			for {
				mu.Lock()
				for len(queue) == 0 && inflight > 0 && !stop {
					cond.Wait()
				}
				if len(queue) == 0 && inflight == 0 && len(retryQ) > 0 && !stop {
					queue, retryQ = retryQ, nil
				}
				if stop || len(queue) == 0 {
					cond.Broadcast()
					mu.Unlock()
					return
				}
				j := queue[0]
				queue = queue[1:]
				inflight++
				mu.Unlock()
				var r *workResult
				var err error
				for try := 0; try < 2; try++ {
					if w == nil {
						cmd := exec.Command(exe, append([]string{"worker"}, wargs...)...)
						in, _ := cmd.StdinPipe()
						out, _ := cmd.StdoutPipe()
						cmd.Stderr = nil
						cmd.ExtraFiles = []*os.File{tokR, tokW}
						if err = cmd.Start(); err != nil {
							continue
						}
						w = &worker{cmd, in, bufio.NewReaderSize(out, 1<<20)}
						mu.Lock()
						procs = append(procs, cmd)
						mu.Unlock()
					}
					r, err = w.run(j.it)
					if err == nil {
						break
					}
					w.cmd.Process.Kill()
					w.cmd.Wait()
					w = nil
					tokW.Write(make([]byte, 4)) // what it may have held
					mu.Lock()
					s := stop
					mu.Unlock()
					if s {
						break
					}
				}
				if err != nil {
					r = &workResult{Name: j.it.Name, Err: "worker process died: " + err.Error()}
				}
				mu.Lock()
				inflight--
				for _, u := range r.Used {
					if strings.HasPrefix(u, "lemma ") {
						if l := db.Lemmas[u[6:]]; l == nil {
							continue
						}
					} else {
						c := db.Contracts[strings.SplitN(u, "@", 2)[0]]
						if c == nil || c.Trusted {
							continue
						}
					}
					if !seen[u] {
						seen[u] = true
						queue = append(queue, job{it: workItem{u, 10}})
					}
				}
				timeouts := len(r.Failed) > 0
				for _, f := range r.Failed {
					if f.Status == "sat" || f.Kind == "internal" {
						timeouts = false
					}
				}
				if !j.retry && r.Err == "" && (timeouts || r.Skipped > 0 && timeouts) && len(retryQ) < 6 {
					retryQ = append(retryQ, job{workItem{j.it.Name, 40}, true, true, r})
				} else {
					results = append(results, r)
					if r.Err != "" || len(r.Failed) > 0 {
						bad++
						if bad >= 12 {
							stop = true
						}
					}
				}
				if os.Getenv("GOVC_PROGRESS") != "" {
					fmt.Printf("%7.1f %-50s %5d/%5d exec %6d ms solve %6d ms slow %d %s %s\n", time.Since(start).Seconds(), r.Name, r.OK, r.Obls, r.ExecMs, r.SolveMs, r.SlowMs, r.Slow, r.Err)
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	timedOut := false
	halt := func(late bool) {
		mu.Lock()
		timedOut = late
		stop = true
		for _, c := range procs {
			c.Process.Kill()
		}
		cond.Broadcast()
		mu.Unlock()
		<-done
	}
	select {
	case <-done:
	case <-cancel:
		// a failing input is known: go on only until the verifier names an obligation
		grace := time.After(75 * time.Second)
	wait:
		for {
			mu.Lock()
			n := bad
			for _, q := range retryQ {
				if q.failedBefore {
					n++
				}
			}
			mu.Unlock()
			select {
			case <-done:
				break wait
			case <-grace:
				break wait
			case <-time.After(200 * time.Millisecond):
				if n > 0 {
					break wait
				}
			}
		}
		halt(false)
	case <-time.After(time.Until(deadline)):
		halt(true)
	}
	for _, q := range retryQ { // never retried: keep the first attempt
		if q.res != nil {
			results = append(results, q.res)
		}
	}
	// keep what the roots need on the current source
	byName := map[string]*workResult{}
	for _, r := range results {
		byName[r.Name] = r
	}
	var res []*workResult
	mark := map[string]bool{}
	var visit func(n string)
	visit = func(n string) {
		if mark[n] {
			return
		}
		mark[n] = true
		if r := byName[n]; r != nil {
			res = append(res, r)
			for _, u := range r.Used {
				visit(u)
			}
		}
	}
	for _, n := range roots {
		visit(n)
	}
	if stop {
		timedOut = timedOut || len(res) < len(roots)
	}
	return res, timedOut
}

// ---------------------------------------------------------------- replay drivers

type replayOutcome struct {
	fail, rerun, err string
	execs            int64
}

func runReplay(repo, verif, scratch, id string, pr *Property, hints map[string]bool, budget int, seed string) (o replayOutcome) {
	hf := filepath.Join(scratch, "hints.txt")
	var hs []string
	for h := range hints {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	os.WriteFile(hf, []byte(strings.Join(hs, "\n")+"\n"), 0o644)
	for _, r := range pr.Replay {
		over := map[string]string{}
		pkg := r.PkgName
		if pkg == "" {
			pkg = filepath.Base(r.Pkg)
		}
		for _, f := range append([]string{"vr.go.txt"}, r.Files...) {
			src := filepath.Join(verif, "replay", f)
			base := strings.TrimSuffix(filepath.Base(f), ".go.txt")
			if b, err := os.ReadFile(src); err == nil && strings.Contains(string(b), "package PKG") {
				src = filepath.Join(verif, "evidence", "replay", base+"_"+sanitize(r.Pkg)+".go.txt")
				os.MkdirAll(filepath.Dir(src), 0o755)
				os.WriteFile(src, []byte(strings.Replace(string(b), "package PKG", "package "+pkg, 1)), 0o644)
			}
			over[filepath.Join(repo, r.Pkg, "zz_verif_"+base+"_test.go")] = src
		}
		ov, _ := json.MarshalIndent(map[string]any{"Replace": over}, "", " ")
		ovf := filepath.Join(scratch, "overlay-"+sanitize(r.Pkg)+".json")
		os.WriteFile(ovf, ov, 0o644)
		args := []string{"test", "-overlay", ovf, "-vet=off", "-count=1", "-timeout", fmt.Sprintf("%ds", budget*3+60), "-run", "^(" + r.Run + ")$", "-v", "./" + r.Pkg}
		cmd := exec.Command("go", args...)
		cmd.Dir = repo
		cmd.Env = append(goEnv(), "VERIF_HINTS="+hf, fmt.Sprintf("VERIF_BUDGET=%d", budget), "VERIF_SEED="+seed, "VERIF_SCRATCH="+scratch)
		out, err := cmd.CombinedOutput()
		txt := string(out)
		fails := ""
		for _, l := range strings.Split(txt, "\n") {
			if i := strings.Index(l, "REPLAY-FAIL "); i >= 0 && fails == "" {
				fails = l[i:]
			}
			if i := strings.Index(l, "REPLAY-EXECS "); i >= 0 {
				var n int64
				fmt.Sscanf(l[i:], "REPLAY-EXECS %d", &n)
				o.execs += n
			}
		}
		if fails == "" && err != nil {
			// a crash inside the code under test is a failing input too when the driver announced it
			tail := txt
			if len(tail) > 1500 {
				tail = tail[:1500]
			}
			if strings.Contains(txt, "panic:") && strings.Contains(txt, "REPLAY-INPUT ") {
				i := strings.LastIndex(txt, "REPLAY-INPUT ")
				fails = "REPLAY-FAIL panic in the code under test: " + strings.ReplaceAll(tail[:min(len(tail), 300)], "\n", " | ") + " input " + strings.SplitN(txt[i:], "\n", 2)[0]
			} else {
				o.err += fmt.Sprintf("%s: %v: %s\n", r.Pkg, err, tail)
			}
		}
		if fails != "" && o.fail == "" {
			o.fail = fails
			keep := filepath.Join(verif, "evidence", "replay", id+"-overlay.json")
			os.MkdirAll(filepath.Dir(keep), 0o755)
			os.WriteFile(keep, ov, 0o644)
			o.rerun = fmt.Sprintf("cd %s && VERIF_SEED=%s VERIF_BUDGET=%d go test -overlay %s -vet=off -count=1 -run '^(%s)$' -v ./%s", repo, seed, budget, keep, r.Run, r.Pkg)
		}
	}
	return
}
