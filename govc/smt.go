package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// ---------------------------------------------------------------- emission

type emitter struct {
	lin   bool
	done  map[*Term]string
	decls strings.Builder
	defs  strings.Builder
	funs  map[string]bool
	queue []*Term // axioms to add
	seenA map[*Term]bool
	monoN map[string]string
	nl    bool // nonlinear abstracted
	vars  []*Term
}

func smtNum(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

func (e *emitter) bound(name string, lo, hi *big.Int) {
	if lo != nil {
		fmt.Fprintf(&e.defs, "(assert (<= %s %s))\n", smtNum(lo), name)
	}
	if hi != nil {
		fmt.Fprintf(&e.defs, "(assert (<= %s %s))\n", name, smtNum(hi))
	}
}

func (e *emitter) addAx(t *Term) {
	if e.seenA[t] {
		return
	}
	e.seenA[t] = true
	if t.lazyAx != nil && !t.axDone {
		t.axDone = true
		t.axioms = append(t.axioms, t.lazyAx()...)
	}
	e.queue = append(e.queue, t.axioms...)
}

func (e *emitter) mono(vs []*Term) string {
	if len(vs) == 1 {
		return e.term(vs[0])
	}
	anyB := false
	for _, v := range vs {
		if v.hasB {
			anyB = true
		}
	}
	if !e.lin || anyB {
		var s []string
		for _, v := range vs {
			s = append(s, e.term(v))
		}
		return "(* " + strings.Join(s, " ") + ")"
	}
	k := vsKey(vs)
	if n, ok := e.monoN[k]; ok {
		return n
	}
	e.nl = true
	for _, v := range vs {
		e.term(v) // make axioms of factors available
	}
	n := "m!" + strings.ReplaceAll(strings.TrimSuffix(k, "."), ".", "_")
	e.monoN[k] = n
	fmt.Fprintf(&e.decls, "(declare-const %s Int)\n", n)
	lo, hi := monoVarBounds(vs)
	e.bound(n, lo, hi)
	return n
}

func (e *emitter) poly(ms []Mono) string {
	var s []string
	for _, m := range ms {
		if len(m.Vs) == 0 {
			s = append(s, smtNum(m.C))
			continue
		}
		x := e.mono(m.Vs)
		if m.C.Cmp(bigOne) == 0 {
			s = append(s, x)
		} else {
			s = append(s, "(* "+smtNum(m.C)+" "+x+")")
		}
	}
	if len(s) == 0 {
		return "0"
	}
	if len(s) == 1 {
		return s[0]
	}
	return "(+ " + strings.Join(s, " ") + ")"
}

func (e *emitter) args(t *Term) string {
	var s []string
	for _, a := range t.Args {
		s = append(s, e.term(a))
	}
	return strings.Join(s, " ")
}

func (e *emitter) term(t *Term) string {
	if s, ok := e.done[t]; ok {
		return s
	}
	def := func(body string) string {
		if t.hasB {
			return body
		}
		n := fmt.Sprintf("t%d", t.Id)
		fmt.Fprintf(&e.defs, "(define-fun %s () %s %s)\n", n, t.Sort.SMT(), body)
		e.done[t] = n
		return n
	}
	switch t.Op {
	case OConst:
		return smtNum(t.K)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OBoundVar:
		return t.Name
	case OVar:
		n := "|" + t.Name + "|"
		e.done[t] = n
		fmt.Fprintf(&e.decls, "(declare-const %s %s)\n", n, t.Sort.SMT())
		if t.Sort == SInt {
			e.bound(n, t.lo, t.hi)
		}
		e.vars = append(e.vars, t)
		e.addAx(t)
		return n
	case OPoly:
		return def(e.poly(t.P))
	case ONot:
		return def("(not " + e.args(t) + ")")
	case OAnd:
		return def("(and " + e.args(t) + ")")
	case OOr:
		return def("(or " + e.args(t) + ")")
	case OLe, OEq:
		// move negative monomials to the right for readability and speed
		var l, r []Mono
		for _, m := range monos(t.Args[0]) {
			if m.C.Sign() < 0 {
				r = append(r, Mono{C: new(big.Int).Neg(m.C), Vs: m.Vs})
			} else {
				l = append(l, m)
			}
		}
		op := "<="
		if t.Op == OEq {
			op = "="
		}
		return def("(" + op + " " + e.poly(l) + " " + e.poly(r) + ")")
	case OGEq:
		return def("(= " + e.args(t) + ")")
	case OIte:
		s := def("(ite " + e.args(t) + ")")
		return s
	case OSel:
		s := def("(select " + e.args(t) + ")")
		if t.Sort == SInt && !t.hasB {
			e.bound(s, t.lo, t.hi)
		}
		if !t.hasB {
			e.addAx(t)
		}
		return s
	case OSto:
		return def("(store " + e.args(t) + ")")
	case OApp:
		if !e.funs[t.Name] {
			e.funs[t.Name] = true
			var s []string
			for _, a := range t.Args {
				s = append(s, a.Sort.SMT())
			}
			fmt.Fprintf(&e.decls, "(declare-fun %s (%s) %s)\n", t.Name, strings.Join(s, " "), t.Sort.SMT())
		}
		var s string
		if len(t.Args) == 0 {
			s = t.Name
			e.done[t] = s
		} else {
			s = def("(" + t.Name + " " + e.args(t) + ")")
		}
		if !t.hasB {
			if t.Sort == SInt {
				e.bound(s, t.lo, t.hi)
			}
			e.addAx(t)
		}
		return s
	case OPow2:
		if !e.funs["pow2"] {
			e.funs["pow2"] = true
			e.decls.WriteString("(declare-fun pow2 (Int) Int)\n")
		}
		s := def("(pow2 " + e.args(t) + ")")
		if !t.hasB {
			e.bound(s, t.lo, t.hi)
			e.addAx(t)
		}
		return s
	case ODivC:
		if t.hasB {
			return "(div " + e.args(t) + " " + t.K.String() + ")"
		}
		n := fmt.Sprintf("d!%d", t.Id)
		e.done[t] = n
		fmt.Fprintf(&e.decls, "(declare-const %s Int)\n", n)
		e.bound(n, t.lo, t.hi)
		e.addAx(t)
		return n
	case ODivS:
		if t.hasB {
			return "(div " + e.args(t) + ")"
		}
		n := fmt.Sprintf("d!%d", t.Id)
		e.done[t] = n
		fmt.Fprintf(&e.decls, "(declare-const %s Int)\n", n)
		e.bound(n, t.lo, t.hi)
		e.addAx(t)
		return n
	case OForall:
		var bs []string
		for _, b := range t.Bound {
			bs = append(bs, "("+b.Name+" Int)")
		}
		body := e.term(t.Args[0])
		tr := ""
		for _, g := range t.Trig {
			tr += " :pattern ("
			for _, x := range g {
				tr += e.term(x) + " "
			}
			tr += ")"
		}
		if tr != "" {
			body = "(! " + body + tr + ")"
		}
		return def("(forall (" + strings.Join(bs, " ") + ") " + body + ")")
	case OBV:
		if t.Name == "c" {
			return fmt.Sprintf("(_ bv%s %d)", t.K.String(), t.Sort.W)
		}
		return def("(" + t.Name + " " + e.args(t) + ")")
	}
	panic("emit " + t.String())
}

// script builds the query  asserts /\ not goal.
func script(asserts []*Term, goal *Term, lin bool, models bool) (string, *emitter) {
	e := &emitter{lin: lin, done: map[*Term]string{}, funs: map[string]bool{}, seenA: map[*Term]bool{}, monoN: map[string]string{}}
	var body strings.Builder
	as := map[*Term]bool{}
	emit := func(t *Term) {
		if t == True || as[t] {
			return
		}
		as[t] = true
		s := e.term(t)
		fmt.Fprintf(&body, "(assert %s)\n", s)
	}
	for _, a := range asserts {
		emit(a)
	}
	if goal != nil {
		emit(Not(goal))
	}
	for len(e.queue) > 0 {
		q := e.queue
		e.queue = nil
		for _, t := range q {
			emit(t)
		}
	}
	hdr := "(set-option :produce-models true)\n(set-logic ALL)\n"
	tail := "(check-sat)\n"
	return hdr + e.decls.String() + e.defs.String() + body.String() + tail, e
}

// ---------------------------------------------------------------- solvers

type SolveRes struct {
	Status string // unsat sat unknown timeout
	Solver string
	Dur    time.Duration
	Model  map[string]*big.Int
	Out    string
}

var solverSem = make(chan struct{}, 8)

func runSolver(ctx context.Context, name, scr string, tmo time.Duration) SolveRes {
	var cmd *exec.Cmd
	c2, cancel := context.WithTimeout(ctx, tmo+3*time.Second)
	defer cancel()
	ms := int(tmo / time.Millisecond)
	switch name {
	case "z3-new", "z3":
		cmd = exec.CommandContext(c2, name, "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000")
	case "z3-new-nl2": // alternative arithmetic
		cmd = exec.CommandContext(c2, "z3-new", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000", "smt.arith.solver=2")
	case "z3-new-seed":
		cmd = exec.CommandContext(c2, "z3-new", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000", "smt.random_seed=7", "sat.random_seed=7")
	case "cvc5":
		cmd = exec.CommandContext(c2, "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-")
	case "cvc5-bv":
		cmd = exec.CommandContext(c2, "cvc5", "--lang=smt2", "--bitblast=eager", fmt.Sprintf("--tlimit=%d", ms), "-")
		scr = strings.Replace(scr, "(set-logic ALL)", "(set-logic QF_BV)", 1)
	}
	cmd.Stdin = strings.NewReader(scr)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	st := time.Now()
	err := cmd.Run()
	r := SolveRes{Solver: name, Dur: time.Since(st), Out: out.String()}
	s := strings.TrimSpace(r.Out)
	switch {
	case strings.HasPrefix(s, "unsat"):
		r.Status = "unsat"
	case strings.HasPrefix(s, "sat"):
		r.Status = "sat"
	case strings.HasPrefix(s, "unknown"):
		r.Status = "unknown"
	case strings.HasPrefix(s, "(error"):
		r.Status = "error"
	default:
		r.Status = "timeout"
		_ = err
	}
	return r
}

// portfolio runs several solvers concurrently; the first unsat (or sat) wins.
func portfolio(names []string, scr string, tmo time.Duration) SolveRes {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan SolveRes, len(names))
	for _, n := range names {
		go func(n string) {
			solverSem <- struct{}{}
			defer func() { <-solverSem }()
			if ctx.Err() != nil {
				ch <- SolveRes{Status: "cancelled", Solver: n}
				return
			}
			ch <- runSolver(ctx, n, scr, tmo)
		}(n)
	}
	var last SolveRes
	for range names {
		r := <-ch
		if r.Status == "unsat" || r.Status == "sat" {
			return r
		}
		if last.Status == "" || r.Status == "error" {
			last = r
		}
	}
	return last
}

func parseModel(out string) map[string]*big.Int {
	m := map[string]*big.Int{}
	// sequences  (define-fun |x| () Int\n    5) or (- 5) or #x..
	parts := strings.Split(out, "(define-fun ")
	for _, p := range parts[1:] {
		i := strings.Index(p, " () ")
		if i < 0 {
			continue
		}
		name := strings.Trim(p[:i], "|")
		rest := p[i+4:]
		if strings.HasPrefix(rest, "Int") {
			rest = rest[3:]
		} else if strings.HasPrefix(rest, "(_ BitVec") {
			rest = rest[strings.Index(rest, ")")+1:]
		} else {
			continue
		}
		rest = strings.TrimSpace(rest)
		neg := false
		if strings.HasPrefix(rest, "(-") {
			neg = true
			rest = strings.TrimSpace(rest[2:])
		}
		j := strings.IndexAny(rest, ") \n")
		if j < 0 {
			j = len(rest)
		}
		v := rest[:j]
		k := new(big.Int)
		var ok bool
		if strings.HasPrefix(v, "#x") {
			k, ok = k.SetString(v[2:], 16)
		} else if strings.HasPrefix(v, "#b") {
			k, ok = k.SetString(v[2:], 2)
		} else {
			k, ok = k.SetString(v, 10)
		}
		if !ok {
			continue
		}
		if neg {
			k.Neg(k)
		}
		m[name] = k
	}
	return m
}

// ---------------------------------------------------------------- persistent solver processes

type server struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

var servers = make(chan *server, 64)

func newServer() *server {
	cmd := exec.Command("z3-new", "-in", "-memory:3000")
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	return &server{cmd: cmd, in: in, out: bufio.NewReader(out)}
}

func (s *server) kill() {
	s.cmd.Process.Kill()
	s.in.Close()
	s.cmd.Wait()
}

// runServer sends one script to a long-lived solver process.
func runServer(scr string, tmo time.Duration) SolveRes {
	var s *server
	select {
	case s = <-servers:
	default:
		s = newServer()
	}
	st := time.Now()
	type ans struct {
		l  string
		ok bool
	}
	ch := make(chan ans, 1)
	go func() {
		_, err := io.WriteString(s.in, fmt.Sprintf("(set-option :timeout %d)\n", tmo/time.Millisecond)+scr+"(echo \"@@\")\n(reset)\n")
		if err != nil {
			ch <- ans{"", false}
			return
		}
		res := ""
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				ch <- ans{res, false}
				return
			}
			l = strings.TrimSpace(l)
			if l == "@@" {
				ch <- ans{res, true}
				return
			}
			if res == "" {
				res = l
			}
		}
	}()
	r := SolveRes{Solver: "z3-new", Status: "timeout"}
	select {
	case a := <-ch:
		r.Dur = time.Since(st)
		if !a.ok {
			s.kill()
			return r
		}
		switch a.l {
		case "unsat", "sat", "unknown":
			r.Status = a.l
		default:
			r.Status = "error"
			r.Out = a.l
		}
		s.n++
		if s.n > 400 {
			s.kill()
		} else {
			select {
			case servers <- s:
			default:
				s.kill()
			}
		}
	case <-time.After(tmo + 2*time.Second):
		s.kill()
		r.Dur = time.Since(st)
	}
	return r
}

type feasProc struct {
	mu    sync.Mutex
	cmd   *exec.Cmd
	cache map[string]bool
	n     int
	dur   time.Duration
}

var feas = &feasProc{cache: map[string]bool{}}

// infeasible: quick check whether the assumptions are contradictory.
func infeasible(pc []*Term, tmo time.Duration) bool {
	pc = groundOnly(pc)
	var sb strings.Builder
	for _, p := range pc {
		if p == False {
			return true
		}
		fmt.Fprintf(&sb, "%d,", p.Id)
	}
	k := sb.String()
	if r, ok := feas.cache[k]; ok {
		return r
	}
	scr, _ := script(pc, nil, true, false)
	st := time.Now()
	r := runServer(scr, tmo)
	feas.n++
	feas.dur += time.Since(st)
	if d := os.Getenv("FEASDUMP"); d != "" && time.Since(st) > 150*time.Millisecond {
		os.WriteFile(fmt.Sprintf("%s/%d-%v.smt2", d, feas.n, time.Since(st)), []byte(scr), 0644)
	}
	feas.cache[k] = r.Status == "unsat"
	return r.Status == "unsat"
}

// feasiblePair decides the two sides of a branch at the same time. When one
// side is contradictory the other one is taken without waiting for it.
func feasiblePair(a, b []*Term, tmo time.Duration) (bool, bool) {
	a, b = groundOnly(a), groundOnly(b)
	key := func(pc []*Term) (string, bool) {
		var sb strings.Builder
		for _, p := range pc {
			if p == False {
				return "", true
			}
			fmt.Fprintf(&sb, "%d,", p.Id)
		}
		return sb.String(), false
	}
	ka, fa := key(a)
	kb, fb := key(b)
	if fa || fb {
		return !fa, !fb
	}
	ra, oka := feas.cache[ka]
	rb, okb := feas.cache[kb]
	if oka && okb {
		return !ra, !rb
	}
	if oka && ra {
		return false, true
	}
	if okb && rb {
		return true, false
	}
	sa, _ := script(a, nil, true, false)
	sb, _ := script(b, nil, true, false)
	st := time.Now()
	type ans struct {
		side int
		bad  bool
	}
	ch := make(chan ans, 2)
	for i, s := range []string{sa, sb} {
		go func(i int, s string) { ch <- ans{i, runServer(s, tmo).Status == "unsat"} }(i, s)
	}
	feas.n += 2
	defer func() {
		feas.dur += time.Since(st)
		if d := os.Getenv("FEASDUMP"); d != "" && time.Since(st) > 150*time.Millisecond {
			os.WriteFile(fmt.Sprintf("%s/%d-pair-%v.smt2", d, feas.n, time.Since(st)), []byte(sa), 0644)
		}
	}()
	for n := 0; n < 2; n++ {
		r := <-ch
		k := ka
		if r.side == 1 {
			k = kb
		}
		feas.cache[k] = r.bad
		if r.bad {
			return r.side != 0, r.side != 1
		}
	}
	return true, true
}

type bigInt = big.Int

func runSolverCtx(name, scr string, tmo time.Duration) SolveRes {
	return runSolver(context.Background(), name, scr, tmo)
}
