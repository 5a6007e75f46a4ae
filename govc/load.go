package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the repository's current source, in SSA form.
type Program struct {
	prog    *ssa.Program
	pkgs    []*ssa.Package
	fns     map[string]*ssa.Function // by contract key
	fset    *token.FileSet
	mutGlob map[*ssa.Global]bool // stored to outside init
	errs    []string
	dirs    map[string]string // directory of each package
}

func loadProgram(dir string) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule | packages.NeedFiles, Dir: dir, Fset: fset, Env: goEnv()}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{fns: map[string]*ssa.Function{}, fset: fset, mutGlob: map[*ssa.Global]bool{}, dirs: map[string]string{}}
	for _, q := range ps {
		if len(q.GoFiles) > 0 {
			p.dirs[q.PkgPath] = filepath.Dir(q.GoFiles[0])
		}
		for _, e := range q.Errors {
			p.errs = append(p.errs, e.Error())
		}
	}
	if len(p.errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(p.errs, "; "))
	}
	prog, spkgs := ssautil.Packages(ps, ssa.NaiveForm)
	prog.Build()
	p.prog = prog
	for _, sp := range spkgs {
		if sp != nil {
			p.pkgs = append(p.pkgs, sp)
		}
	}
	all := ssautil.AllFunctions(prog)
	var fl []*ssa.Function
	for f := range all {
		fl = append(fl, f)
	}
	sort.Slice(fl, func(i, j int) bool { return fl[i].String() < fl[j].String() })
	for _, f := range fl {
		if f.Pkg == nil || f.Synthetic != "" && !strings.HasPrefix(f.Synthetic, "package init") {
			if f.Pkg == nil {
				continue
			}
		}
		k := fnKey(f)
		if _, ok := p.fns[k]; !ok || len(f.Blocks) > 0 && f.Synthetic == "" {
			p.fns[k] = f
		}
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g := rootGlobal(st.Addr); g != nil {
						p.mutGlob[g] = true
					}
				}
			}
		}
	}
	return p, nil
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

// fnKey: package.Type.Method or package.Func (package name only).
func fnKey(f *ssa.Function) string {
	pk := ""
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Name()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pk = f.Object().Pkg().Name()
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return pk + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	return pk + "." + f.Name()
}

func isUIntNamed(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Int" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "uint256")
}

func isUIntPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isUIntNamed(p.Elem())
}

// ---------------------------------------------------------------- loops

type LoopInfo struct {
	Header *ssa.BasicBlock
	Body   map[*ssa.BasicBlock]bool
	Pos    token.Pos
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*LoopInfo{}

func loopsOf(f *ssa.Function) map[*ssa.BasicBlock]*LoopInfo {
	if l, ok := loopCache[f]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*LoopInfo{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				li := res[s]
				if li == nil {
					li = &LoopInfo{Header: s, Body: map[*ssa.BasicBlock]bool{s: true}}
					res[s] = li
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if li.Body[x] {
						continue
					}
					li.Body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	for _, li := range res {
		for b := range li.Body {
			for _, in := range b.Instrs {
				p := in.Pos()
				if p.IsValid() && (!li.Pos.IsValid() || p < li.Pos) {
					li.Pos = p
				}
			}
		}
	}
	loopCache[f] = res
	return res
}

type loopKey struct {
	path   string // call stack of inlined calls
	header *ssa.BasicBlock
}

// loopOrdinals numbers the loops of fn in source order, expanding calls that
// will be inlined at the place they stand, so that extracting a loop into a
// helper does not renumber it.
func loopOrdinals(fn *ssa.Function, inlined func(*ssa.Function) bool) map[loopKey]int {
	res := map[loopKey]int{}
	n := 0
	var rec func(f *ssa.Function, path string, depth int)
	rec = func(f *ssa.Function, path string, depth int) {
		type item struct {
			pos  token.Pos
			loop *LoopInfo
			call ssa.CallInstruction
			fn   *ssa.Function
		}
		var items []item
		for _, li := range loopsOf(f) {
			items = append(items, item{pos: li.Pos, loop: li})
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && len(g.Blocks) > 0 && inlined(g) {
						items = append(items, item{pos: c.Pos(), call: c, fn: g})
					}
				}
			}
		}
		sort.SliceStable(items, func(i, j int) bool { return items[i].pos < items[j].pos })
		for _, it := range items {
			if it.loop != nil {
				n++
				res[loopKey{path, it.loop.Header}] = n
			} else if depth < 6 {
				rec(it.fn, path+callID(it.call), depth+1)
			}
		}
	}
	rec(fn, "", 0)
	return res
}

func callID(c ssa.CallInstruction) string {
	return fmt.Sprintf("/%p", c)
}
