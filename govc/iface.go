package main

import (
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// An interface value is an object of unknown dynamic type. Contracts see it as a
// struct with the fields an "interface pkg.Type" declaration gives it (pointers to
// structs of the program) and with ghost fields; its methods have contracts of
// their own, which every implementation is assumed to meet.

type IfaceField struct {
	Name     string
	Pkg, Typ string // the field is a *Pkg.Typ
}

var (
	ifaceMu     sync.Mutex
	ifaceFields = map[string][]IfaceField{}
	ifaceModels = map[string]types.Type{}
)

func (x *Exec) namedType(pkg, name string) types.Type {
	for _, p := range x.prog.prog.AllPackages() {
		if p.Pkg.Name() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	bail("no type %s.%s", pkg, name)
	return nil
}

// ifaceModel: the struct that stands for a value of interface type t, or nil.
func (x *Exec) ifaceModel(t types.Type) types.Type {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	if _, ok := n.Underlying().(*types.Interface); !ok {
		return nil
	}
	k := n.Obj().Pkg().Name() + "." + n.Obj().Name()
	fs, ok := ifaceFields[k]
	if !ok {
		return nil
	}
	ifaceMu.Lock()
	defer ifaceMu.Unlock()
	if m, ok := ifaceModels[k]; ok {
		return m
	}
	var vs []*types.Var
	for _, f := range fs {
		vs = append(vs, types.NewField(token.NoPos, n.Obj().Pkg(), f.Name, types.NewPointer(x.namedType(f.Pkg, f.Typ)), false))
	}
	m := types.NewNamed(types.NewTypeName(token.NoPos, n.Obj().Pkg(), n.Obj().Name(), nil), types.NewStruct(vs, nil), nil)
	ifaceModels[k] = m
	return m
}

func (x *Exec) invoke(st *State, f *Frame, ci ssa.CallInstruction) bool {
	c := ci.Common()
	n, ok := c.Value.Type().(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		bail("interface call")
	}
	k := n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + c.Method.Name()
	con := x.db.Contracts[k]
	if con == nil {
		bail("interface call %s without contract", k)
	}
	if !con.Trusted {
		bail("the contract of the interface method %s must be trusted", k)
	}
	args := []Val{x.val(st, f, c.Value)}
	if _, ok := args[0].(*PtrV); !ok {
		bail("interface call on %T", args[0])
	}
	for _, a := range c.Args {
		args = append(args, x.val(st, f, a))
	}
	st.calls[k]++
	x.point(st, "before:", k, args, nil)
	r := x.callContractSig(st, f, con, nil, c.Method.Type().(*types.Signature), args, ci.Pos())
	x.setResult(f, ci, r)
	x.point(st, "", k, args, r)
	return true
}
