package main

// Contract language: lexer, parser, AST.

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type Expr struct {
	Kind string // num, id, call, bin, un, field, index, forall, ite, old, deref, str, bool
	Op   string
	Num  *big.Int
	Args []*Expr
	Vars []string
	Trig [][]*Expr
	Pos  string
}

func (e *Expr) String() string {
	switch e.Kind {
	case "num":
		return prettyNum(e.Num)
	case "id":
		return e.Op
	case "str":
		return fmt.Sprintf("%q", e.Op)
	case "bin":
		return "(" + e.Args[0].String() + " " + e.Op + " " + e.Args[1].String() + ")"
	case "un":
		return e.Op + e.Args[0].String()
	case "field":
		return e.Args[0].String() + "." + e.Op
	case "index":
		return e.Args[0].String() + "[" + e.Args[1].String() + "]"
	case "forall", "exists":
		return "(" + e.Kind + " " + strings.Join(e.Vars, ", ") + " :: " + e.Args[0].String() + ")"
	}
	var s []string
	for _, a := range e.Args {
		s = append(s, a.String())
	}
	return e.Op + "(" + strings.Join(s, ", ") + ")"
}

type Clause struct {
	Label string
	E     *Expr
	Text  string
	Hints []*Hint // "by" steps
	Opts  map[string]string
}

// Hint is a proof step: assert E (proved, then assumed) or use Lemma(args).
type Hint struct {
	Kind  string // assert, use, cases
	E     *Expr
	Label string
	Name  string
	Args  []*Expr
	By    []*Hint
	Opts  map[string]string
}

type LoopSpec struct {
	Ord      int
	Cut      *Expr
	Inv      []*Clause
	Decr     []*Expr
	Ghost    []*GhostVar
	Modifies []*Expr
	Hints    []*Hint // applied at back edge before checking the invariant
	Unroll   bool
	Havoc    []*Expr
	Frees    []string
}

type GhostVar struct {
	Name       string
	Init, Next *Expr
}

type Contract struct {
	Name     string
	Params   []string
	Results  []string
	Mode     string // "int" or "bv"
	Mem      string // "word" or "heap"
	Requires []*Clause
	Ensures  []*Clause
	Modifies []*Expr
	Fresh    []*Expr
	Shared   []*Expr  // pointer results that may be shared: callers may not write to them
	SharedOf []string // the arguments they may be the same object as (none: any)
	Panics   *Clause  // panics_if
	Loops    map[int]*LoopSpec
	Cases    []map[string]int
	Hints    []*Hint // at exit, before ensures
	Entry    []*Hint // at entry, after requires
	Points   map[string][]*Hint
	Opts     map[string]string
	Trusted  bool
	Ground   string // decided by exhaustive evaluation of the real code
	Assigns  []Assign
	Assumes  map[string]bool // CONTRACT.label: preconditions of callees that are assumed at the calls, not proved
	Decr     []*Expr
	File     string
}

type Assign struct{ L, R *Expr }

type Define struct {
	Name   string
	Params []string
	Body   *Expr
}

type FunDecl struct {
	Name string
	Args int
	Ret  string // int, bool
	Lo   *Expr
	Hi   *Expr
}

type LemmaVar struct {
	Name   string
	Lo, Hi *Expr
}

type Lemma struct {
	Name     string
	Params   []string
	Requires []*Clause
	Ensures  []*Clause
	Proof    []*Hint
	Axiom    bool
	Ground   string
	Trig     [][]*Expr
	File     string
	Opts     map[string]string
}

type SpecDB struct {
	Contracts map[string]*Contract
	Defines   map[string]*Define
	Funs      map[string]*FunDecl
	Lemmas    map[string]*Lemma
	Order     []string
}

type tok struct {
	k, s string
	line int
}

type parser struct {
	toks []tok
	p    int
	file string
}

func lex(src, file string) []tok {
	var ts []tok
	line := 1
	i := 0
	isId := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= '0' && c <= '9' || c == '$'
	}
	ops := []string{"<==>", "==>", ":=", "::", "==", "!=", "<=", ">=", "&&", "||", "=>"}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			for src[j] != '"' {
				j++
			}
			ts = append(ts, tok{"str", src[i+1 : j], line})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (isId(src[j])) {
				j++
			}
			ts = append(ts, tok{"num", strings.ReplaceAll(src[i:j], "_", ""), line})
			i = j
		case isId(c):
			j := i
			for j < len(src) && isId(src[j]) {
				j++
			}
			ts = append(ts, tok{"id", src[i:j], line})
			i = j
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					ts = append(ts, tok{"op", o, line})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				ts = append(ts, tok{"op", string(c), line})
				i++
			}
		}
	}
	ts = append(ts, tok{"eof", "", line})
	return ts
}

func (p *parser) peek() tok { return p.toks[p.p] }
func (p *parser) next() tok { t := p.toks[p.p]; p.p++; return t }
func (p *parser) fail(msg string) {
	panic(fmt.Sprintf("%s:%d: %s (at %q)", p.file, p.peek().line, msg, p.peek().s))
}
func (p *parser) isOp(s string) bool { t := p.peek(); return t.k == "op" && t.s == s }
func (p *parser) isId(s string) bool { t := p.peek(); return t.k == "id" && t.s == s }
func (p *parser) accept(s string) bool {
	t := p.peek()
	if (t.k == "op" || t.k == "id") && t.s == s {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected " + s)
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.k != "id" {
		p.p--
		p.fail("identifier expected")
	}
	return t.s
}

func bin(op string, a, b *Expr) *Expr { return &Expr{Kind: "bin", Op: op, Args: []*Expr{a, b}} }

func (p *parser) expr() *Expr { return p.iff() }
func (p *parser) iff() *Expr {
	a := p.impl()
	for p.accept("<==>") {
		a = bin("<==>", a, p.impl())
	}
	return a
}
func (p *parser) impl() *Expr {
	a := p.or()
	if p.accept("==>") {
		return bin("==>", a, p.impl())
	}
	return a
}
func (p *parser) or() *Expr {
	a := p.and()
	for p.accept("||") {
		a = bin("||", a, p.and())
	}
	return a
}
func (p *parser) and() *Expr {
	a := p.not()
	for p.accept("&&") {
		a = bin("&&", a, p.not())
	}
	return a
}
func (p *parser) not() *Expr {
	if p.accept("!") {
		return &Expr{Kind: "un", Op: "!", Args: []*Expr{p.not()}}
	}
	return p.cmp()
}
func (p *parser) cmp() *Expr {
	a := p.add()
	var res *Expr
	for {
		t := p.peek()
		if t.k == "op" && (t.s == "==" || t.s == "!=" || t.s == "<" || t.s == "<=" || t.s == ">" || t.s == ">=") {
			p.next()
			b := p.add()
			c := bin(t.s, a, b)
			if res == nil {
				res = c
			} else {
				res = bin("&&", res, c)
			}
			a = b
			continue
		}
		break
	}
	if res != nil {
		return res
	}
	return a
}
func (p *parser) add() *Expr {
	a := p.mul()
	for {
		if p.accept("+") {
			a = bin("+", a, p.mul())
		} else if p.accept("-") {
			a = bin("-", a, p.mul())
		} else {
			return a
		}
	}
}
func (p *parser) mul() *Expr {
	a := p.unary()
	for {
		if p.accept("*") {
			a = bin("*", a, p.unary())
		} else if p.accept("/") {
			a = bin("/", a, p.unary())
		} else if p.accept("%") {
			a = bin("%", a, p.unary())
		} else {
			return a
		}
	}
}
func (p *parser) unary() *Expr {
	if p.accept("-") {
		return &Expr{Kind: "un", Op: "-", Args: []*Expr{p.unary()}}
	}
	if p.accept("#") {
		return &Expr{Kind: "un", Op: "#", Args: []*Expr{p.unary()}}
	}
	if p.accept("!") {
		return &Expr{Kind: "un", Op: "!", Args: []*Expr{p.unary()}}
	}
	a := p.postfix()
	if p.accept("^") {
		return bin("^", a, p.unary())
	}
	return a
}
func (p *parser) postfix() *Expr {
	a := p.primary()
	for {
		if p.isOp(".") {
			p.next()
			a = &Expr{Kind: "field", Op: p.ident(), Args: []*Expr{a}}
		} else if p.isOp("[") {
			p.next()
			i := p.expr()
			p.expect("]")
			a = &Expr{Kind: "index", Args: []*Expr{a, i}}
		} else {
			return a
		}
	}
}
func (p *parser) primary() *Expr {
	t := p.next()
	switch t.k {
	case "num":
		k, ok := new(big.Int).SetString(t.s, 0)
		if !ok {
			p.fail("bad number " + t.s)
		}
		return &Expr{Kind: "num", Num: k}
	case "str":
		return &Expr{Kind: "str", Op: t.s}
	case "id":
		if t.s == "forall" || t.s == "exists" {
			e := &Expr{Kind: t.s}
			for {
				e.Vars = append(e.Vars, p.ident())
				if !p.accept(",") {
					break
				}
			}
			for p.isOp("{") {
				p.next()
				var tr []*Expr
				for {
					tr = append(tr, p.expr())
					if !p.accept(",") {
						break
					}
				}
				p.expect("}")
				e.Trig = append(e.Trig, tr)
			}
			p.expect("::")
			e.Args = []*Expr{p.expr()}
			return e
		}
		if t.s == "true" || t.s == "false" {
			return &Expr{Kind: "bool", Op: t.s}
		}
		if p.isOp("(") {
			p.next()
			e := &Expr{Kind: "call", Op: t.s, Pos: fmt.Sprintf("%s:%d", p.file, t.line)}
			if !p.isOp(")") {
				for {
					e.Args = append(e.Args, p.expr())
					if !p.accept(",") {
						break
					}
				}
			}
			p.expect(")")
			return e
		}
		return &Expr{Kind: "id", Op: t.s, Pos: fmt.Sprintf("%s:%d", p.file, t.line)}
	case "op":
		if t.s == "(" {
			e := p.expr()
			p.expect(")")
			return e
		}
	}
	p.p--
	p.fail("expression expected")
	return nil
}

func (p *parser) clause() *Clause {
	c := &Clause{Opts: map[string]string{}}
	if p.isOp("[") {
		p.next()
		c.Label = p.label()
		p.expect("]")
	}
	st := p.p
	c.E = p.expr()
	c.Text = p.text(st, p.p)
	c.Hints = p.by(c.Opts)
	return c
}
func (p *parser) label() string {
	s := ""
	for !p.isOp("]") {
		s += p.next().s
	}
	return s
}
func (p *parser) text(a, b int) string {
	var s []string
	for _, t := range p.toks[a:b] {
		s = append(s, t.s)
	}
	return strings.Join(s, " ")
}

// by { steps }  with options like  with timeout=20 nia
func (p *parser) by(opts map[string]string) []*Hint {
	for p.accept("with") {
		for p.peek().k == "id" && !p.isClauseKw() {
			k := p.ident()
			v := "1"
			if p.accept("=") {
				v = p.next().s
			}
			opts[k] = v
			if !p.accept(",") {
				break
			}
		}
	}
	if p.accept("by") {
		p.expect("{")
		h := p.hints()
		p.expect("}")
		return h
	}
	return nil
}

func (p *parser) hints() []*Hint {
	var hs []*Hint
	for !p.isOp("}") {
		h := &Hint{Opts: map[string]string{}}
		switch {
		case p.accept("assert"):
			h.Kind = "assert"
			if p.isOp("[") {
				p.next()
				h.Label = p.label()
				p.expect("]")
			}
			h.E = p.expr()
			h.By = p.by(h.Opts)
		case p.accept("use"):
			h.Kind = "use"
			h.Name = p.ident()
			p.expect("(")
			if !p.isOp(")") {
				for {
					h.Args = append(h.Args, p.expr())
					if !p.accept(",") {
						break
					}
				}
			}
			p.expect(")")
		case p.accept("let"):
			h.Kind = "let"
			h.Name = p.ident()
			p.expect("=")
			h.E = p.expr()
		case p.accept("name"): // introduce a fresh variable equal to the expression
			h.Kind = "name"
			h.Name = p.ident()
			p.expect("=")
			h.E = p.expr()
		case p.accept("cases"):
			h.Kind = "cases"
			for {
				h.Args = append(h.Args, p.expr())
				if !p.accept(",") {
					break
				}
			}
		case p.accept("set"): // ghost assignment: set obj.field[k] = E, or set obj.field = E
			h.Kind = "set"
			lv := p.postfix()
			if lv.Kind == "index" {
				h.Name = lv.Args[1].Op
				lv = lv.Args[0]
			}
			h.Args = []*Expr{lv}
			p.expect("=")
			h.E = p.expr()
		case p.accept("drop"):
			h.Kind = "drop"
			h.E = p.expr()
		case p.accept("when"):
			h.Kind = "when"
			h.E = p.expr()
			p.expect("{")
			h.By = p.hints()
			p.expect("}")
		default:
			p.fail("proof step expected")
		}
		p.accept(";")
		hs = append(hs, h)
	}
	return hs
}

var clauseKw = map[string]bool{"func": true, "interface": true, "table": true, "ground": true, "define": true, "lemma": true, "axiom": true, "fun": true, "requires": true, "ensures": true,
	"modifies": true, "fresh": true, "shared": true, "panics_if": true, "loop": true, "invariant": true, "decreases": true, "mode": true, "mem": true, "cases": true, "at": true, "exit": true, "entry": true, "trusted": true, "opt": true, "assigns": true, "proof": true, "ghost": true, "cut": true, "back": true, "before": true, "unroll": true, "assumes": true, "havoc": true, "body": true}

func (p *parser) isClauseKw() bool { t := p.peek(); return t.k == "id" && clauseKw[t.s] }

func (p *parser) idlist() []string {
	var r []string
	p.expect("(")
	for !p.isOp(")") {
		r = append(r, p.ident())
		p.accept(",")
	}
	p.expect(")")
	return r
}

// expandEach repeats the lines between "foreach X in A B C" and "end foreach"
// once per name, with @X@ replaced by the name. Lines are joined so that line
// numbers outside the block do not matter for anything but messages.
func expandEach(s, file string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		f := strings.Fields(lines[i])
		if len(f) < 4 || f[0] != "foreach" || f[2] != "in" {
			out = append(out, lines[i])
			continue
		}
		j := i + 1
		for ; j < len(lines) && strings.TrimSpace(lines[j]) != "end foreach"; j++ {
		}
		if j == len(lines) {
			panic(file + ": foreach without end")
		}
		for _, n := range f[3:] {
			for _, l := range lines[i+1 : j] {
				out = append(out, strings.ReplaceAll(l, "@"+f[1]+"@", n))
			}
		}
		i = j
	}
	return strings.Join(out, "\n")
}

func (db *SpecDB) parseFile(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	b = []byte(expandEach(string(b), filepath.Base(file)))
	base := filepath.Base(file)
	p := &parser{toks: lex(string(b), base), file: base}
	for p.peek().k != "eof" {
		t := p.next()
		switch t.s {
		case "ghost":
			n := p.ident()
			p.expect(".")
			n += "." + p.ident()
			for p.accept("field") {
				g := GhostField{Name: p.ident()}
				p.expect(":")
				g.Kind = p.ident()
				ghostFields[n] = append(ghostFields[n], g)
			}
		case "interface": // interface pkg.Type field name: pkg.Type ...
			n := p.ident()
			p.expect(".")
			n += "." + p.ident()
			ifaceFields[n] = []IfaceField{}
			for p.accept("field") {
				f := IfaceField{Name: p.ident()}
				p.expect(":")
				f.Pkg = p.ident()
				p.expect(".")
				f.Typ = p.ident()
				ifaceFields[n] = append(ifaceFields[n], f)
			}
		case "table": // table pkg.Type FUN OFFSET: its large array of *uint256.Int is constant
			n := p.ident()
			p.expect(".")
			n += "." + p.ident()
			tb := &TableDecl{Fun: p.ident()}
			neg := p.accept("-")
			v, err := strconv.Atoi(p.next().s)
			if err != nil {
				panic("table offset")
			}
			if neg {
				v = -v
			}
			tb.Off = v
			tableDecls[n] = tb
		case "define":
			d := &Define{Name: p.ident()}
			if p.isOp("(") {
				d.Params = p.idlist()
			}
			p.expect("=")
			d.Body = p.expr()
			db.Defines[d.Name] = d
		case "fun":
			f := &FunDecl{Name: p.ident()}
			f.Args = len(p.idlist())
			p.expect(":")
			f.Ret = p.ident()
			if p.accept("in") {
				p.expect("[")
				f.Lo = p.expr()
				p.expect(",")
				f.Hi = p.expr()
				p.expect("]")
			}
			db.Funs[f.Name] = f
		case "lemma", "axiom":
			l := &Lemma{Name: p.ident(), Axiom: t.s == "axiom", File: base, Opts: map[string]string{}}
			l.Params = p.idlist()
			for {
				if p.accept("requires") {
					l.Requires = append(l.Requires, p.clause())
				} else if p.accept("ensures") {
					l.Ensures = append(l.Ensures, p.clause())
				} else if p.accept("proof") {
					p.by(l.Opts)
					p.expect("{")
					l.Proof = p.hints()
					p.expect("}")
				} else if p.accept("ground") {
					l.Ground = p.groundKey()
				} else if p.accept("opt") {
					k := p.ident()
					v := "1"
					if p.accept("=") {
						v = p.next().s
					}
					l.Opts[k] = v
				} else {
					break
				}
			}
			if db.Lemmas[l.Name] != nil {
				panic("duplicate lemma " + l.Name)
			}
			db.Lemmas[l.Name] = l
		case "func":
			c := &Contract{Mode: "int", Mem: "word", Loops: map[int]*LoopSpec{}, Points: map[string][]*Hint{}, Opts: map[string]string{}, File: base}
			name := p.ident()
			for p.accept(".") {
				name += "." + p.ident()
			}
			c.Name = name
			c.Params = p.idlist()
			if p.isOp("(") {
				c.Results = p.idlist()
			}
			p.contractBody(c)
			if db.Contracts[name] != nil {
				panic("duplicate contract " + name)
			}
			db.Contracts[name] = c
			db.Order = append(db.Order, name)
		default:
			p.p--
			p.fail("declaration expected")
		}
	}
}

func (p *parser) exprList() []*Expr {
	var r []*Expr
	for {
		r = append(r, p.expr())
		if !p.accept(",") {
			return r
		}
	}
}

func (p *parser) groundKey() string {
	k := p.ident()
	p.expect(".")
	return k + "." + p.ident()
}

func (p *parser) contractBody(c *Contract) {
	var loop *LoopSpec
	for {
		switch {
		case p.accept("mode"):
			c.Mode = p.ident()
		case p.accept("mem"):
			c.Mem = p.ident()
		case p.accept("ground"):
			c.Ground = p.groundKey()
		case p.accept("trusted"):
			c.Trusted = true
		case p.accept("opt"):
			k := p.ident()
			v := "1"
			if p.accept("=") {
				v = p.next().s
			}
			c.Opts[k] = v
		case p.accept("assumes"):
			if c.Assumes == nil {
				c.Assumes = map[string]bool{}
			}
			for {
				n := p.ident()
				for p.accept(".") {
					n += "." + p.ident()
				}
				c.Assumes[n] = true
				if !p.accept(",") {
					break
				}
			}
		case p.accept("requires"):
			c.Requires = append(c.Requires, p.clause())
		case p.accept("ensures"):
			c.Ensures = append(c.Ensures, p.clause())
		case p.accept("modifies"):
			c.Modifies = append(c.Modifies, p.exprList()...)
		case p.accept("fresh"):
			c.Fresh = append(c.Fresh, p.exprList()...)
		case p.accept("shared"):
			c.Shared = append(c.Shared, p.exprList()...)
			if p.accept("of") {
				p.expect("(")
				for {
					c.SharedOf = append(c.SharedOf, p.ident())
					if !p.accept(",") {
						break
					}
				}
				p.expect(")")
			}
		case p.accept("assigns"):
			l := p.expr()
			p.expect(":=")
			r := p.expr()
			c.Assigns = append(c.Assigns, Assign{l, r})
		case p.accept("panics_if"):
			c.Panics = p.clause()
		case p.accept("cases"):
			m := map[string]int{}
			for {
				k := p.ident()
				p.expect("=")
				k2 := p.next().s
				v, _ := new(big.Int).SetString(k2, 0)
				m[k] = int(v.Int64())
				if !p.accept(",") {
					break
				}
			}
			c.Cases = append(c.Cases, m)
		case p.accept("entry"):
			p.expect("{")
			c.Entry = append(c.Entry, p.hints()...)
			p.expect("}")
		case p.accept("exit"):
			p.expect("{")
			c.Hints = append(c.Hints, p.hints()...)
			p.expect("}")
		case p.isId("at") || p.isId("before"):
			pre := ""
			if p.next().s == "before" {
				pre = "before:"
			}
			name := pre + p.ident()
			for p.accept(".") {
				name += "." + p.ident()
			}
			if p.accept("@") {
				name += "@" + p.next().s
			}
			p.expect("{")
			c.Points[name] = append(c.Points[name], p.hints()...)
			p.expect("}")
		case p.accept("loop"):
			n, _ := new(big.Int).SetString(p.next().s, 10)
			loop = &LoopSpec{Ord: int(n.Int64())}
			c.Loops[loop.Ord] = loop
		case p.accept("invariant"):
			loop.Inv = append(loop.Inv, p.clause())
		case p.accept("cut"):
			loop.Cut = p.expr()
		case p.accept("unroll"):
			loop.Unroll = true
		case p.accept("back"):
			p.expect("{")
			loop.Hints = append(loop.Hints, p.hints()...)
			p.expect("}")
		case p.accept("havoc"):
			loop.Havoc = append(loop.Havoc, p.exprList()...)
		case p.accept("ghost"):
			g := &GhostVar{Name: p.ident()}
			p.expect("=")
			g.Init = p.expr()
			p.expect("=>")
			g.Next = p.expr()
			loop.Ghost = append(loop.Ghost, g)
		case p.accept("decreases"):
			if loop != nil {
				loop.Decr = p.exprList()
			} else {
				c.Decr = p.exprList()
			}
		default:
			return
		}
	}
}

func loadSpecs(dir string) *SpecDB {
	db := &SpecDB{Contracts: map[string]*Contract{}, Defines: map[string]*Define{}, Funs: map[string]*FunDecl{}, Lemmas: map[string]*Lemma{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(fs)
	for _, f := range fs {
		db.parseFile(f)
	}
	return db
}
