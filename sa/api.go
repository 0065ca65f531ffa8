package main

// Queries the rules use.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// opaqueNames keeps the named functions as call events
func opaqueNames(names ...string) func(fn *ssa.Function) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(fn *ssa.Function) bool { return m[fnName(fn)] }
}

func (p *Path) holds(c *T) bool { return holds(p.St.facts, c) || p.refutes(mkNot(c)) }

// refutes: do the facts of the path rule out that all the conditions hold?
func (p *Path) refutes(cs ...*T) bool { return refuted(p.St.facts, cs...) }

// isNonNil: on this path t is not nil
func (p *Path) isNonNil(t *T) bool {
	if nonNil(t) {
		return true
	}
	if t.isNil() {
		return false
	}
	return p.holds(mkNot(mkEq(t, mkNil(), nil)))
}

func (p *Path) isNil(t *T) bool {
	if t.isNil() {
		return true
	}
	if nonNil(t) {
		return false
	}
	return p.holds(mkEq(t, mkNil(), nil))
}

// calls: the call events with one of the names, in order (loops included
// when deep)
func (p *Path) calls(names ...string) (out []*Event) {
	for _, e := range p.Events {
		if e.kind == "call" && oneOf(e.name, names) {
			out = append(out, e)
		}
	}
	return
}

func oneOf(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// walk visits the events of the path, and those of loop iterations
func walkEvents(evs []*Event, f func(e *Event, it *Path)) {
	var rec func(evs []*Event, it *Path)
	rec = func(evs []*Event, it *Path) {
		for _, e := range evs {
			f(e, it)
			if e.kind == "loop" {
				for _, i := range e.loop.iters {
					rec(i.Events, i)
				}
			}
		}
	}
	rec(evs, nil)
}

var errorT = types.Universe.Lookup("error").Type()

func isErrT(t types.Type) bool { return t != nil && types.Identical(t, errorT) }

// errIdx is the index of the error result of fn, or -1
func errIdx(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErrT(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// fieldOf: the address of the named field of the struct at base
func fieldAddrOf(base *T, st types.Type, name string) *T {
	s, ok := st.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return faddr(base, st, i)
		}
	}
	return nil
}

func fieldIndex(st types.Type, pred func(v *types.Var) bool) int {
	s, ok := st.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	r := -1
	for i := 0; i < s.NumFields(); i++ {
		if pred(s.Field(i)) {
			if r >= 0 {
				return -1
			}
			r = i
		}
	}
	return r
}

// fieldVal: field of the struct value or pointer in state st
func (x *Exec) fieldVal(st *State, ptr *T, typ types.Type, name string) *T {
	a := fieldAddrOf(ptr, typ, name)
	if a == nil {
		return nil
	}
	return x.load(st, a, deref(a.typ))
}

// isField: is t the address of field name of type tn ("seth.RPCTransport")?
func isFieldAddr(t *T, tn, name string) bool {
	fr, ok := t.obj.(fieldRef)
	if !ok || t.op != "faddr" {
		return false
	}
	if short(types.TypeString(fr.st, nil)) != tn {
		return false
	}
	return fr.st.Underlying().(*types.Struct).Field(fr.i).Name() == name
}

func typeName(t types.Type) string { return short(types.TypeString(t, nil)) }

func containsStr(l []string, s string) bool { return oneOf(s, l) }

func trimStar(s string) string { return strings.TrimPrefix(s, "*") }
