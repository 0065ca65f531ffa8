package main

// Abstract states: memory, path facts and the ordered effects of a path.

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- persistent memory ----

type Mem struct {
	parent *Mem
	addr   *T
	val    *T // nil: deleted
	base   map[*T]*T
	depth  int
}

func (m *Mem) get(a *T) (*T, bool) {
	for n := m; n != nil; n = n.parent {
		if n.base != nil {
			v, ok := n.base[a]
			return v, ok && v != nil
		}
		if n.addr == a {
			return n.val, n.val != nil
		}
	}
	return nil, false
}

func (m *Mem) flat() map[*T]*T {
	out := map[*T]*T{}
	del := map[*T]bool{}
	for n := m; n != nil; n = n.parent {
		if n.base != nil {
			for k, v := range n.base {
				if _, ok := out[k]; !ok && !del[k] {
					out[k] = v
				}
			}
			break
		}
		if _, ok := out[n.addr]; ok || del[n.addr] {
			continue
		}
		if n.val == nil {
			del[n.addr] = true
		} else {
			out[n.addr] = n.val
		}
	}
	return out
}

func (m *Mem) set(a, v *T) *Mem {
	if m != nil && m.depth >= 48 {
		b := m.flat()
		if v == nil {
			delete(b, a)
		} else {
			b[a] = v
		}
		return &Mem{base: b}
	}
	d := 0
	if m != nil {
		d = m.depth
	}
	return &Mem{parent: m, addr: a, val: v, depth: d + 1}
}

// ---- events ----

type Event struct {
	kind  string // call go store send recv close select lock unlock loop mapset mapdel mapget panic defer alloc
	name  string
	args  []*T
	res   []*T
	pos   token.Pos
	fn    *ssa.Function
	mem   *Mem // memory before the event
	st    *State
	loop  *LoopInfo
	typ   types.Type
	aux   string
	block bool // blocking select
	idx   int  // chosen select case
}

type LoopInfo struct {
	id    string
	fn    *ssa.Function
	pos   token.Pos
	vars  []*LoopVar
	iters []*Path // one per back edge; Events are those of one iteration
}

type LoopVar struct {
	sym   *T
	addr  *T // nil for a phi
	phi   *ssa.Phi
	init  *T
	nexts []*T
}

type EvList struct {
	parent *EvList
	e      *Event
	n      int
}

func (l *EvList) push(e *Event) *EvList {
	n := 0
	if l != nil {
		n = l.n
	}
	return &EvList{l, e, n + 1}
}

func (l *EvList) slice(stop *EvList) []*Event {
	var out []*Event
	for ; l != nil && l != stop; l = l.parent {
		out = append(out, l.e)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---- facts ----

type Facts struct {
	parent *Facts
	t      *T
	n      int
}

func (f *Facts) push(t *T) *Facts {
	for g := f; g != nil; g = g.parent {
		if g.t == t {
			return f
		}
	}
	n := 0
	if f != nil {
		n = f.n
	}
	return &Facts{f, t, n + 1}
}

func (f *Facts) all() []*T {
	var out []*T
	for ; f != nil; f = f.parent {
		out = append(out, f.t)
	}
	return out
}

func (f *Facts) has(t *T) bool {
	for ; f != nil; f = f.parent {
		if f.t == t {
			return true
		}
	}
	return false
}

type State struct {
	mem   *Mem
	facts *Facts
	ev    *EvList
}

func (s *State) clone() *State { c := *s; return &c }

// ---- types ----

// atomic cells: struct types the analysis does not look into
func atomicType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil {
		return false
	}
	if s, ok := n.Underlying().(*types.Struct); ok {
		p := n.Obj().Pkg().Path()
		if p == "math/big" || strings.HasPrefix(p, "sync") || p == "bytes" || p == "time" || p == "hash" {
			return true
		}
		// seth.Int is defined as big.Int
		if s.NumFields() == 2 && s.Field(0).Name() == "neg" && s.Field(1).Name() == "abs" {
			return true
		}
	}
	return false
}

func structOf(t types.Type) *types.Struct {
	if t == nil || atomicType(t) {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func isBig(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 2 && s.Field(0).Name() == "neg" && s.Field(1).Name() == "abs"
}

func arrayOf(t types.Type) *types.Array {
	if t == nil {
		return nil
	}
	a, _ := t.Underlying().(*types.Array)
	return a
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func zeroOf(t types.Type) *T {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsNumeric != 0:
			return mkInt(0)
		}
		return mkNil()
	case *types.Struct:
		if isBig(t) {
			return mk("bigc", "0", nil)
		}
		if atomicType(t) {
			return mk("zero", types.TypeString(t, nil), t)
		}
		var f []*T
		for i := 0; i < u.NumFields(); i++ {
			f = append(f, zeroOf(u.Field(i).Type()))
		}
		return mk("struct", typeKey(t), t, f...)
	case *types.Array:
		return cZeros(mkInt(u.Len()), zeroOf(u.Elem()))
	case *types.Tuple:
		return mk("zero", "", t)
	}
	return mkNil()
}

// typeKey identifies a struct type up to conversion between named types
func typeKey(t types.Type) string {
	return types.TypeString(t.Underlying(), nil)
}

// ---- addresses ----

func fkey(st types.Type, i int) string {
	s := st.Underlying().(*types.Struct)
	n := types.TypeString(st, func(p *types.Package) string { return p.Path() })
	return n + "." + strconv.Itoa(i) + ":" + s.Field(i).Name()
}

func faddr(base *T, st types.Type, i int) *T {
	s := st.Underlying().(*types.Struct)
	t := mk("faddr", "f"+strconv.Itoa(i)+":"+s.Field(i).Name(), types.NewPointer(s.Field(i).Type()), base)
	if t.obj == nil {
		t.obj = fieldRef{st, i}
	}
	return t
}

type fieldRef struct {
	st types.Type
	i  int
}

func iaddr(base, idx *T, et types.Type) *T {
	return mk("iaddr", "", types.NewPointer(et), base, idx)
}

// inArray reports whether the address lies inside an array element
func inArray(a *T) bool {
	for {
		switch a.op {
		case "iaddr":
			return true
		case "faddr":
			a = a.args[0]
		default:
			return false
		}
	}
}

func structField(v *T, st types.Type, i int) *T {
	if v.op == "struct" {
		return v.args[i]
	}
	s := st.Underlying().(*types.Struct)
	if v.op == "mem" || v.op == "ld" {
		// the field of a lazily loaded struct is the lazily loaded field
		a := v.args[0]
		return mk(v.op, v.aux, s.Field(i).Type(), faddr(a, st, i))
	}
	if v.op == "zero" {
		return zeroOf(s.Field(i).Type())
	}
	return mk("field", "f"+strconv.Itoa(i)+":"+s.Field(i).Name(), s.Field(i).Type(), v)
}

func withField(v *T, st types.Type, i int, x *T) *T {
	s := st.Underlying().(*types.Struct)
	f := make([]*T, s.NumFields())
	for j := range f {
		if j == i {
			f[j] = x
		} else {
			f[j] = structField(v, st, j)
		}
	}
	return mk("struct", typeKey(st), st, f...)
}

func fmtPos(p *ssa.Program, pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	f := q.Filename
	f = strings.TrimPrefix(f, repoRoot+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

var repoRoot = "/repo"
