package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Maps from strings to structs of 256-bit values (map[string]*position.Info).
//
// A map is a cell with the set of its keys and, per field of the struct, one
// array of 256-bit values: the structs and the values of a map are owned by it
// and nothing else refers to them. Storing an object that is not referred to
// elsewhere moves it into the map; storing anything that is kept elsewhere is
// a violated obligation. Versions detect pointers to objects that a later
// store has replaced.

type MapV struct {
	Cell int
	T    *types.Map
	G    *ssa.Global
}

type MapBlk struct {
	T      *types.Map
	Has    *Term
	F      []*Term
	Ver    []int
	HasVer int
}

type MObj struct { // pointer to the struct of a key
	Cell int
	Key  *Term
	Ver  int
}
type MFld struct { // address of a field of it
	Cell  int
	Key   *Term
	Field int
	Ver   int
}
type MInt struct { // pointer to the 256-bit value a field refers to
	Cell  int
	Key   *Term
	Field int
	Ver   int
	Path  []int
}

// FwdM: the 256-bit value / struct of this cell lives in a map now.
type FwdM struct{ P *MInt }
type FwdMO struct{ P *MObj }

// IterP is a map iterator; its cell holds the set of keys already visited.
type IterP struct {
	Cell int
	Map  *MapV
	Has  *Term
}

func mapElem(t *types.Map) (*types.Struct, types.Type) {
	p, ok := t.Elem().Underlying().(*types.Pointer)
	if !ok || !isStrT(t.Key()) {
		bail("map of type %s", typeStr(t))
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		bail("map of type %s", typeStr(t))
	}
	for i := 0; i < s.NumFields(); i++ {
		if !isUIntPtr(s.Field(i).Type()) {
			bail("map of type %s", typeStr(t))
		}
	}
	return s, p.Elem()
}

func (x *Exec) nextVer() int { x.verc++; return x.verc }

func (x *Exec) newMap(st *State, name string, u *types.Map, empty bool) *MapV {
	s, _ := mapElem(u)
	b := &MapBlk{T: u, Has: Fresh(name+".has", sortIB), HasVer: x.nextVer()}
	if empty {
		k := BoundVar("k")
		h := Select(b.Has, k)
		x.assume(st, Forall([]*Term{k}, Not(h), [][]*Term{{h}}))
	}
	for i := 0; i < s.NumFields(); i++ {
		b.F = append(b.F, x.wordsArray(st, name+"."+s.Field(i).Name()))
		b.Ver = append(b.Ver, x.nextVer())
	}
	id := x.newCell(st, "map:"+name, name, u, b)
	return &MapV{Cell: id, T: u}
}

func (x *Exec) freshMap(st *State, name string, u *types.Map) Val {
	return x.newMap(st, name, u, false)
}

func (x *Exec) makeMap(st *State, f *Frame, i *ssa.MakeMap) Val {
	if !x.heap {
		bail("map in word memory")
	}
	m := x.newMap(st, f.path+i.Name(), i.Type().Underlying().(*types.Map), true)
	x.info[m.Cell].key = f.path + fmt.Sprintf("|%p", i)
	return m
}

func mapBlk(cells map[int]Val, id int) *MapBlk {
	b, ok := cells[id].(*MapBlk)
	if !ok {
		bail("the map is not available in this state (%T)", cells[id])
	}
	return b
}

func (b *MapBlk) copy() *MapBlk {
	return &MapBlk{T: b.T, Has: b.Has, F: append([]*Term(nil), b.F...), Ver: append([]int(nil), b.Ver...), HasVer: b.HasVer}
}

func (x *Exec) mint(cells map[int]Val, q *MInt) *MapBlk {
	b := mapBlk(cells, q.Cell)
	if b.Ver[q.Field] != q.Ver {
		bail("pointer to a value that the map no longer refers to")
	}
	return b
}

func (x *Exec) mload(cells map[int]Val, q *MInt) Val {
	s := Select(x.mint(cells, q).F[q.Field], q.Key)
	if !s.hasB {
		tighten(s, bigZero, bvMask(256))
	}
	v := &IntV{U: s}
	if len(q.Path) > 0 {
		return v.w(q.Path[0])
	}
	return v
}

func (x *Exec) mstore(st *State, q *MInt, v Val) {
	b := x.mint(st.cells, q).copy()
	var n *Term
	if len(q.Path) == 0 {
		n = x.toIntV(v).u()
	} else {
		old := x.mload(st.cells, &MInt{Cell: q.Cell, Key: q.Key, Field: q.Field, Ver: q.Ver}).(*IntV)
		iv := &IntV{}
		for i := range iv.W {
			iv.W[i] = old.w(i)
		}
		iv.W[q.Path[0]] = v.(*Term)
		n = iv.u()
	}
	b.F[q.Field] = Store(b.F[q.Field], q.Key, n)
	st.cells[q.Cell] = b
}

func (x *Exec) mobjOK(cells map[int]Val, c, ver int) *MapBlk {
	b := mapBlk(cells, c)
	if b.HasVer != ver {
		bail("pointer to a map entry used after another entry was stored")
	}
	return b
}

// mfield: the pointer held in a field of a map entry.
func (x *Exec) mfield(cells map[int]Val, c int, key *Term, field, ver int) *MInt {
	b := x.mobjOK(cells, c, ver)
	return &MInt{Cell: c, Key: key, Field: field, Ver: b.Ver[field]}
}

// take moves the 256-bit value behind a pointer out of its own cell; to is
// where it lives from now on.
func (x *Exec) take(st *State, v Val, what string, pos token.Pos, to *MInt) *Term {
	bad := func(why string) {
		x.oblige(st, "frame", what+": "+why, pos, False, nil)
		panic(pathEnd{})
	}
	q, ok := v.(*PtrV)
	if !ok {
		if _, isNil := v.(NilV); isNil {
			bad("nil value kept")
		}
		bad("a value that is kept elsewhere is kept in two places")
	}
	if x.isKonst(st, q.Cell) {
		bad("constant " + x.info[q.Cell].name + " is kept")
	}
	c := x.cellVal(st, q.Cell)
	iv, ok := c.(*IntV)
	if !ok || len(q.Path) > 0 {
		bad("a value that is kept elsewhere is kept in two places")
	}
	st.cells[q.Cell] = &FwdM{P: to}
	return iv.u()
}

// mstoreField: entry.field = v
func (x *Exec) mstoreField(st *State, q *MFld, v Val, pos token.Pos) {
	b := x.mobjOK(st.cells, q.Cell, q.Ver)
	v = x.fwd(st.cells, v)
	if m, ok := v.(*MInt); ok && m.Cell == q.Cell && m.Key == q.Key && m.Field == q.Field && len(m.Path) == 0 {
		x.mint(st.cells, m)
		return
	}
	n := b.copy()
	n.Ver[q.Field] = x.nextVer()
	s, _ := mapElem(b.T)
	t := x.take(st, v, "field "+s.Field(q.Field).Name()+" of a map entry", pos, &MInt{Cell: q.Cell, Key: q.Key, Field: q.Field, Ver: n.Ver[q.Field]})
	n.F[q.Field] = Store(n.F[q.Field], q.Key, t)
	st.cells[q.Cell] = n
}

func (x *Exec) keyTerm(st *State, f *Frame, v ssa.Value) *Term {
	k := x.val(st, f, v)
	s, ok := k.(*StrV)
	if !ok {
		bail("map key %T", k)
	}
	return x.strTerm(s)
}

func (x *Exec) hlookup(st *State, f *Frame, m *MapV, i *ssa.Lookup) (Val, bool) {
	key := x.keyTerm(st, f, i.Index)
	b := mapBlk(st.cells, m.Cell)
	mapElem(b.T)
	has := Select(b.Has, key)
	res := func(v Val, ok *Term) Val {
		if i.CommaOk {
			return &TupleV{E: []Val{v, ok}}
		}
		return v
	}
	o := st.clone()
	x.assume(o, Not(has))
	o.trace = append(o.trace, "absent")
	if x.feasible(o) {
		o.top().regs[i] = res(NilV{}, False)
		x.work = append(x.work, o)
	}
	x.assume(st, has)
	st.trace = append(st.trace, "present")
	if !x.feasible(st) {
		return nil, false
	}
	return res(&MObj{Cell: m.Cell, Key: key, Ver: b.HasVer}, True), true
}

func (x *Exec) mapUpdate(st *State, f *Frame, i *ssa.MapUpdate) {
	m, ok := x.val(st, f, i.Map).(*MapV)
	if !ok {
		if _, isNil := x.val(st, f, i.Map).(NilV); isNil {
			x.oblige(st, "nil", "assignment to entry of nil map", i.Pos(), False, nil)
			panic(pathEnd{})
		}
		bail("assignment to entry of %T", x.val(st, f, i.Map))
	}
	if m.G != nil {
		bail("assignment to a package map")
	}
	key := x.keyTerm(st, f, i.Key)
	v := x.fwd(st.cells, x.val(st, f, i.Value))
	b := mapBlk(st.cells, m.Cell)
	bad := func(why string) {
		x.oblige(st, "frame", "map entry: "+why, i.Pos(), False, nil)
		panic(pathEnd{})
	}
	switch q := v.(type) {
	case *MObj:
		if q.Cell == m.Cell && q.Key == key {
			x.mobjOK(st.cells, q.Cell, q.Ver)
			return
		}
		bad("an object that is kept elsewhere is kept in two places")
	case *PtrV:
		sv, ok := x.cellVal(st, q.Cell).(*StructV)
		if !ok || len(q.Path) > 0 || x.isKonst(st, q.Cell) {
			bad("an object that is kept elsewhere is kept in two places")
		}
		n := b.copy()
		n.HasVer = x.nextVer()
		s, _ := mapElem(b.T)
		for j := range n.F {
			n.Ver[j] = x.nextVer()
			t := x.take(st, x.fwd(st.cells, sv.F[j]), "field "+s.Field(j).Name()+" of a map entry", i.Pos(), &MInt{Cell: m.Cell, Key: key, Field: j, Ver: n.Ver[j]})
			n.F[j] = Store(n.F[j], key, t)
		}
		n.Has = Store(n.Has, key, True)
		st.cells[m.Cell] = n
		st.cells[q.Cell] = &FwdMO{P: &MObj{Cell: m.Cell, Key: key, Ver: n.HasVer}}
	default:
		bail("map entry %T", v)
	}
}

// fwd follows the forwarding of objects that moved out of their cell.
func (x *Exec) fwd(cells map[int]Val, v Val) Val {
	q, ok := v.(*PtrV)
	if !ok || q.Win {
		return v
	}
	switch c := cells[q.Cell].(type) {
	case *FwdM:
		return &MInt{Cell: c.P.Cell, Key: c.P.Key, Field: c.P.Field, Ver: c.P.Ver, Path: q.Path}
	case *FwdMO:
		if len(q.Path) == 1 {
			return &MFld{Cell: c.P.Cell, Key: c.P.Key, Field: q.Path[0], Ver: c.P.Ver}
		}
		if len(q.Path) == 0 {
			return c.P
		}
	case *FwdV:
		return &HPtr{A: c.P.A, T: c.P.T, Path: q.Path, Reg: c.P.Reg}
	}
	return v
}

func isFwd(v Val) bool {
	switch v.(type) {
	case *FwdM, *FwdMO, *FwdV:
		return true
	}
	return false
}

// ---------------------------------------------------------------- iteration

func (x *Exec) rangeMap(st *State, f *Frame, i *ssa.Range) Val {
	m, ok := x.val(st, f, i.X).(*MapV)
	if !ok || m.G != nil || !x.heap {
		bail("range over %s", typeStr(i.X.Type()))
	}
	d := Fresh("visited", sortIB)
	k := BoundVar("k")
	s := Select(d, k)
	x.assume(st, Forall([]*Term{k}, Not(s), [][]*Term{{s}}))
	id := x.newCell(st, f.path+fmt.Sprintf("|%p", i), "visited", nil, d)
	return &IterP{Cell: id, Map: m, Has: mapBlk(st.cells, m.Cell).Has}
}

func (x *Exec) nextMap(st *State, f *Frame, i *ssa.Next) bool {
	it, ok := x.val(st, f, i.Iter).(*IterP)
	if !ok || i.IsString {
		bail("range over a string")
	}
	b := mapBlk(st.cells, it.Map.Cell)
	if b.Has != it.Has {
		bail("map changed while it is ranged over")
	}
	d := st.cells[it.Cell].(*Term)
	o := st.clone()
	k := BoundVar("k")
	h, v := Select(b.Has, k), Select(d, k)
	x.assume(o, Forall([]*Term{k}, Implies(h, v), [][]*Term{{h}, {v}}))
	o.trace = append(o.trace, "range-done")
	if x.feasible(o) {
		o.top().regs[i] = &TupleV{E: []Val{False, &OpaqueV{Name: "key"}, NilV{}}}
		x.work = append(x.work, o)
	}
	key := Fresh("key", SInt)
	x.assume(st, Select(b.Has, key))
	x.assume(st, Not(Select(d, key)))
	st.trace = append(st.trace, "range-next")
	if !x.feasible(st) {
		return false
	}
	st.cells[it.Cell] = Store(d, key, True)
	f.regs[i] = &TupleV{E: []Val{True, &StrV{Parts: []StrPart{{Kind: "opaque", T: key}}}, &MObj{Cell: it.Map.Cell, Key: key, Ver: b.HasVer}}}
	return true
}
