package main

import (
	"go/types"
	"path/filepath"
)

// TableDecl: the large array of *uint256.Int of a struct type is filled by the
// package initialiser and constant afterwards; element i is FUN(i + OFFSET).
// Facts about FUN are ground lemmas: the check runs the initialiser of the
// current source and evaluates them for every element.
type TableDecl struct {
	Fun string
	Off int
}

var tableDecls = map[string]*TableDecl{}

type TableV struct {
	D   *TableDecl
	Len int
}

// TPtr is the address of a table element.
type TPtr struct {
	Tab *TableV
	Idx *Term
}

func tableOf(t types.Type, ft types.Type) *TableV {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	d := tableDecls[n.Obj().Pkg().Name()+"."+n.Obj().Name()]
	if d == nil {
		return nil
	}
	a, ok := ft.Underlying().(*types.Array)
	if !ok || a.Len() <= 64 || !isUIntPtr(a.Elem()) {
		return nil
	}
	return &TableV{D: d, Len: int(a.Len())}
}

// tload yields the pointer stored in a table element: the address of a constant.
func (x *Exec) tload(st *State, q *TPtr) Val {
	fd := x.db.Funs[q.Tab.D.Fun]
	if fd == nil {
		bail("no function %s", q.Tab.D.Fun)
	}
	if x.tcells == nil {
		x.tcells = map[*Term]int{}
	}
	v := App(q.Tab.D.Fun, SInt, Add(q.Idx, NumI(int64(q.Tab.D.Off))))
	id, ok := x.tcells[v]
	if !ok {
		e := &Env{x: x, st: st}
		if fd.Lo != nil && !v.hasB {
			tighten(v, e.term(fd.Lo).K, e.term(fd.Hi).K)
		}
		x.info = append(x.info, &CellInfo{key: "table:" + v.String(), name: q.Tab.D.Fun, T: x.uintType(), konst: true})
		id = len(x.info) - 1
		x.tcells[v] = id
		x.gcells[id] = &IntV{U: v}
	}
	return &PtrV{Cell: id}
}

// groundFacts: outcome of the exhaustive evaluations; "" when the fact holds.
var groundFacts = map[string]string{}

func groundObl(key, name string) []*Obligation {
	o := &Obligation{Func: name, Kind: "ground", Label: "exhaustive evaluation " + key, Goal: True, Status: "unsat", Solver: "evaluation"}
	if m, ok := groundFacts[key]; !ok || m != "" {
		if !ok {
			m = "the evaluation could not be run"
		}
		o.Status, o.Goal, o.Out, o.Solver = "sat", False, m, "evaluation"
		o.Label += ": " + m
	}
	return []*Obligation{o}
}

func groundAt(verif string, p *Program, repo, scratch string) error {
	factDir = filepath.Join(verif, "checks", "ground")
	return computeGround(p, repo, scratch)
}
