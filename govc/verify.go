package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FuncResult struct {
	ExitPcs [][]*Term
	Name    string
	Obls    []*Obligation
	Err     string
	Paths   int
	Exits   int
	Trusted []string
	Used    []string
	Dur     time.Duration
	Mode    string
}

// partitions of pointer parameters that may alias (same pointee type).
func aliasPartitions(n int) [][]int {
	var res [][]int
	var rec func(cur []int, maxc int)
	rec = func(cur []int, maxc int) {
		if len(cur) == n {
			res = append(res, append([]int(nil), cur...))
			return
		}
		for c := 0; c <= maxc; c++ {
			m := maxc
			if c == maxc {
				m++
			}
			rec(append(cur, c), m)
		}
	}
	rec(nil, 0)
	return res
}

// caseKey names one argument-length case of a contract
func caseKey(cs map[string]int) string {
	var ks []string
	for k := range cs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		ks[i] = fmt.Sprintf("%s=%d", k, cs[k])
	}
	return strings.Join(ks, ",")
}

// caseFilter restricts the cases of a contract that are verified in this run
var caseFilter = map[string]map[string]bool{}

// leaf signedness bookkeeping lives on Exec
func (x *Exec) initRun() {
	x.info = nil
	x.cutSeen = map[string]*LoopRun{}
	x.globs = map[*ssa.Global]int{}
	x.gcells = map[int]Val{}
	x.work, x.parks = nil, nil
	x.paths, x.exits, x.steps, x.cutRuns = 0, 0, 0, 0
	x.exitPcs = nil
	x.seen = map[string]bool{}
	x.leafSigned = map[string]bool{}
	x.genCells = map[string]int{}
}

func verifyFunc(p *Program, db *SpecDB, con *Contract, fn *ssa.Function, limit time.Duration) (res *FuncResult) {
	res = &FuncResult{Name: con.Name, Mode: con.Mode + "/" + con.Mem}
	st := time.Now()
	trusted := map[string]bool{}
	used := map[string]bool{}
	defer func() {
		for k := range trusted {
			res.Trusted = append(res.Trusted, k)
		}
		for k := range used {
			res.Used = append(res.Used, k)
		}
		sort.Strings(res.Trusted)
		sort.Strings(res.Used)
		res.Dur = time.Since(st)
	}()
	if con.Ground != "" {
		res.Mode = "ground"
		res.Obls = groundObl(con.Ground, con.Name)
		return
	}
	if con.Trusted {
		res.Mode = "trusted"
		return
	}
	if len(con.Params) != len(fn.Params) {
		res.Err = fmt.Sprintf("contract has %d parameters, function has %d", len(con.Params), len(fn.Params))
		return
	}
	cases := con.Cases
	if len(cases) == 0 {
		cases = []map[string]int{{}}
	}
	// alias classes among pointer parameters
	var ptrs []int
	if con.Mem == "word" && con.Opts["noalias"] == "" {
		for i, pr := range fn.Params {
			if isUIntPtr(pr.Type()) {
				ptrs = append(ptrs, i)
			}
		}
	}
	parts := aliasPartitions(len(ptrs))
	if con.Opts["alias"] == "pure" {
		// the function never writes through its parameters (checked by its frame):
		// sharing cannot be observed except by pointer comparison, which is rejected
		parts = parts[len(parts)-1:]
	}
	for _, cs := range cases {
		if f := caseFilter[con.Name]; f != nil && !f[caseKey(cs)] {
			continue
		}
		for _, part := range parts {
			x := &Exec{prog: p, db: db, fn: fn, con: con, name: con.Name, bv: con.Mode == "bv", heap: con.Mem == "heap",
				havoc: map[loopKey]map[string]bool{}, trusted: trusted, used: used}
			x.deadline = time.Now().Add(limit)
			x.ord = loopOrdinals(fn, x.inlinable)
			x.caseS = caseKey(cs)
			x.partition = ""
			if len(part) > 1 {
				x.partition = fmt.Sprintf("alias%v", part)
			}
			var err string
			for try := 0; ; try++ {
				again := false
				x.obls = nil
				x.initRun()
				func() {
					defer func() {
						if r := recover(); r != nil {
							switch e := r.(type) {
							case restart:
								again = true
							case untranslatable:
								where := ""
								if x.curTop != nil && len(x.curTop.frames) > 0 {
									f := x.curTop.top()
									if f.idx > 0 && f.idx <= len(f.block.Instrs) {
										where = " at " + x.posStr(f.block.Instrs[f.idx-1].Pos())
									}
								}
								err = e.msg + where
							default:
								panic(r)
							}
						}
					}()
					x.start(cs, ptrs, part)
				}()
				if !again || err != "" {
					break
				}
				if try > 40 {
					err = "loop havoc sets do not stabilise"
					break
				}
			}
			res.Obls = append(res.Obls, x.obls...)
			res.Paths += x.paths
			res.Exits += x.exits
			res.ExitPcs = append(res.ExitPcs, x.exitPcs...)
			if err != "" {
				res.Err = err
				return
			}
		}
	}
	if res.Exits == 0 && con.Opts["noreturn"] == "" {
		res.Err = "no path reaches a return: the contract is vacuous"
	}
	return
}

func (x *Exec) start(cs map[string]int, ptrs []int, part []int) {
	st := &State{cells: map[int]Val{}, heap: map[string]*Term{}, lets: map[string]Val{}, calls: map[string]int{}}
	x.hinit(st)
	f := &Frame{fn: x.fn, regs: map[ssa.Value]Val{}, locals: map[*ssa.Alloc]int{}, block: x.fn.Blocks[0], loops: map[*ssa.BasicBlock]*LoopRun{}}
	st.frames = []*Frame{f}
	x.args = map[string]Val{}
	class := map[int]Val{}
	for i, p := range x.fn.Params {
		n := x.con.Params[i]
		var v Val
		pi := -1
		for k, j := range ptrs {
			if j == i {
				pi = k
			}
		}
		t := p.Type()
		switch {
		case pi >= 0:
			c := part[pi]
			if w, ok := class[c]; ok {
				v = w
			} else {
				id := x.newCell(st, "param:"+n, n, t.Underlying().(*types.Pointer).Elem(), x.freshInt256(n))
				v = &PtrV{Cell: id}
				class[c] = v
			}
		default:
			v = x.paramVal(st, n, t, cs)
		}
		f.regs[p] = v
		x.args[n] = v
	}
	x.entry = x.snapshot(st)
	e := x.env(st)
	e.frame = nil
	for _, r := range x.con.Requires {
		x.assume(st, e.boolE(r.E))
	}
	if len(st.pc) > 0 && !x.heap {
		if infeasible(st.pc, 2*time.Second) {
			bail("the preconditions of %s contradict each other", x.name)
		}
	}
	x.entry = x.snapshot(st)
	x.hints(st, e, x.con.Entry, "entry")
	x.work = append(x.work, st)
	x.runAll()
}

func (x *Exec) paramVal(st *State, n string, t types.Type, cs map[string]int) Val {
	if k, ok := cs[n]; ok {
		if _, isInt, ok2 := intInfo(t); ok2 {
			_ = isInt
			return x.intConst(bi(int64(k)), t)
		}
		if isBoolT(t) {
			return Bool(k != 0)
		}
		if s, ok := t.Underlying().(*types.Slice); ok {
			a := &ArrayV{El: s.Elem()}
			for i := 0; i < k; i++ {
				a.E = append(a.E, x.freshOf(s.Elem(), fmt.Sprintf("%s.%d", n, i), st))
			}
			id := x.newCell(st, "param:"+n, n, types.NewArray(s.Elem(), int64(k)), a)
			return &SliceV{P: &PtrV{Cell: id}, Len: k, Cap: k, El: s.Elem()}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if !x.heap {
			id := x.newCell(st, "param:"+n, n, u.Elem(), x.freshOf(u.Elem(), n, st))
			return &PtrV{Cell: id}
		}
	case *types.Slice:
		if !x.heap {
			bail("slice parameter %s needs a length case", n)
		}
	}
	return x.freshOf(t, n, st)
}

// ---------------------------------------------------------------- lemmas

func verifyLemma(p *Program, db *SpecDB, l *Lemma) (res *FuncResult) {
	res = &FuncResult{Name: "lemma " + l.Name, Mode: "lemma"}
	if l.Ground != "" {
		res.Mode = "ground"
		res.Obls = groundObl(l.Ground, l.Name)
		return
	}
	if l.Axiom {
		res.Mode = "axiom"
		return
	}
	trusted := map[string]bool{}
	used := map[string]bool{}
	x := &Exec{prog: p, db: db, con: &Contract{Name: l.Name, Opts: map[string]string{}}, name: "lemma " + l.Name, trusted: trusted, used: used, seen: map[string]bool{}}
	x.initRun()
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(untranslatable); ok {
				res.Err = u.msg
				return
			}
			panic(r)
		}
	}()
	st := &State{cells: map[int]Val{}, heap: map[string]*Term{}, lets: map[string]Val{}, calls: map[string]int{}}
	vars := map[string]Val{}
	for _, n := range l.Params {
		vars[n] = Fresh(l.Name+"."+n, SInt)
	}
	e := &Env{x: x, st: st, cells: st.cells, heap: st.heap, vars: vars, names: map[string]Val{}}
	for _, r := range l.Requires {
		x.assume(st, e.boolE(r.E))
	}
	if infeasible(st.pc, 2*time.Second) {
		res.Err = "lemma has contradictory premises"
		return
	}
	x.hints(st, e, l.Proof, "proof")
	for _, c := range l.Ensures {
		g := e.boolE(c.E)
		if len(c.Hints) > 0 {
			s2 := st.clone()
			e2 := *e
			e2.st = s2
			e2.names = map[string]Val{}
			for k, v := range e.names {
				e2.names[k] = v
			}
			x.hints(s2, &e2, c.Hints, clauseName(c))
			x.oblige(s2, "lemma", clauseName(c), 0, e2.boolE(c.E), c.Opts)
		} else {
			x.oblige(st, "lemma", clauseName(c), 0, g, c.Opts)
		}
		x.assume(st, g)
	}
	res.Obls = x.obls
	res.Exits = 1
	for k := range trusted {
		res.Trusted = append(res.Trusted, k)
	}
	for k := range used {
		res.Used = append(res.Used, k)
	}
	return
}

// ---------------------------------------------------------------- discharge

var emitMu sync.Mutex

type solveCfg struct {
	enough int
	quick  time.Duration
	long   time.Duration
	dump   string
}

// discharge decides the obligations; it stops early when cfg.enough of them
// have failed, and answers how many have.
func discharge(obls []*Obligation, cfg solveCfg, workers int) int {
	ch := make(chan *Obligation)
	var wg sync.WaitGroup
	var bad int32
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for o := range ch {
				solveOne(o, cfg)
				if o.Status != "unsat" {
					atomic.AddInt32(&bad, 1)
				}
			}
		}()
	}
	for _, o := range obls {
		if cfg.enough > 0 && int(atomic.LoadInt32(&bad)) >= cfg.enough {
			break
		}
		if o.Status == "" {
			ch <- o
		}
	}
	close(ch)
	wg.Wait()
	n := 0
	for _, o := range obls {
		if o.Status != "" && o.Status != "unsat" {
			n++
		}
	}
	return n
}

func hasBVSort(scr string) bool { return strings.Contains(scr, "BitVec") }

func solveOne(o *Obligation, cfg solveCfg) {
	if o.Kind == "ground" {
		return
	}
	emitMu.Lock()
	opc, ogoal := simplifyUnder(o.Pc, o.Goal)
	lin, e := script(opc, ogoal, true, false)
	emitMu.Unlock()
	defer slot()()
	st := time.Now()
	done := func(r SolveRes, s string) {
		o.Status = s
		o.Solver = r.Solver
		o.Dur = time.Since(st)
		o.Out = r.Out
	}
	long := cfg.long
	if t, ok := o.Opts["timeout"]; ok {
		var n int
		fmt.Sscanf(t, "%d", &n)
		if d := time.Duration(n) * time.Second; d > long {
			long = d
		}
	}
	isBV := hasBVSort(lin)
	if isBV {
		r := runServer(lin, 1500*time.Millisecond)
		if r.Status != "unsat" && r.Status != "sat" {
			r = portfolio([]string{"z3-new", "cvc5", "z3"}, lin, long)
		}
		done(r, r.Status)
		if r.Status == "sat" {
			o.Model = getModel(lin, r.Solver, long)
		}
		return
	}
	quick := cfg.quick
	if strings.Contains(lin, "(forall ") && quick > 700*time.Millisecond {
		quick = 700 * time.Millisecond
	}
	r := runServer(lin, quick)
	if r.Status == "unsat" {
		done(r, "unsat")
		return
	}
	if !e.nl && r.Status == "sat" {
		done(r, "sat")
		o.Model = getModel(lin, r.Solver, cfg.quick)
		return
	}
	if !e.nl {
		r = portfolio([]string{"z3-new", "cvc5", "z3", "z3-new-nl2"}, lin, long)
		done(r, r.Status)
		if r.Status == "sat" {
			o.Model = getModel(lin, r.Solver, long)
		}
		return
	}
	emitMu.Lock()
	full, _ := script(opc, ogoal, false, false)
	emitMu.Unlock()
	r = portfolio([]string{"z3-new", "cvc5", "z3", "z3-new-nl2"}, full, long)
	done(r, r.Status)
	if r.Status == "sat" {
		o.Model = getModel(full, r.Solver, long)
	}
}

func getModel(scr, solver string, tmo time.Duration) map[string]*bigInt {
	r := runSolverCtx(solver, scr+"(get-model)\n", tmo)
	if r.Status != "sat" {
		return nil
	}
	return parseModel(r.Out)
}

// ---------------------------------------------------------------- vacuity

var keepExits bool // record the assumptions in force at every exit

// smokeTest asks the solvers to refute what is assumed when a function
// returns. A function all of whose exits are refuted is verified vacuously:
// its contract, a lemma or an axiom is contradictory.
func smokeTest(rs []*FuncResult, tmo time.Duration, verbose bool) (vacuous []string, tried int) {
	for _, r := range rs {
		if len(r.ExitPcs) == 0 {
			continue
		}
		var mu sync.Mutex
		refuted := 0
		var wg sync.WaitGroup
		sem := make(chan bool, 8)
		pcs := r.ExitPcs
		if len(pcs) > 24 {
			pcs = pcs[:24]
		}
		for _, pc := range pcs {
			pc := pc
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				emitMu.Lock()
				full, _ := script(pc, False, false, false)
				emitMu.Unlock()
				defer slot()()
				if portfolio([]string{"z3-new", "cvc5", "z3"}, full, tmo).Status == "unsat" {
					mu.Lock()
					refuted++
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		tried += len(pcs)
		if verbose && refuted > 0 {
			fmt.Printf("%s: %d of %d exits refuted\n", r.Name, refuted, len(pcs))
		}
		if refuted == len(pcs) {
			vacuous = append(vacuous, r.Name)
		}
	}
	return
}
