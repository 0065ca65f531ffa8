package main

import (
	"fmt"
	"go/types"
	"strconv"
)

// version tracks how often a cell may have been changed by code the
// analysis does not see (other goroutines, opaque callees)
func (x *Exec) version(st *State, addr *T) string {
	root := rootOf(addr)
	v := ""
	if t, ok := st.mem.get(mk("ver", "root", nil, root)); ok {
		v += "r" + t.aux
	}
	if fr, ok := addr.obj.(fieldRef); ok && addr.op == "faddr" && !isAlloc(root) {
		if t, ok := st.mem.get(mk("ver", fkey(fr.st, fr.i), nil)); ok {
			v += "f" + t.aux
		}
	}
	if x.shared(st, root) && !x.immutableAddr(addr) {
		if t, ok := st.mem.get(mk("ver", "shared", nil)); ok {
			v += "s" + t.aux
		}
	}
	if v == "" {
		return "0"
	}
	return v
}

func isAlloc(r *T) bool { return r.op == "alloc" }

// shared: may other goroutines reach memory under this root?
func (x *Exec) shared(st *State, root *T) bool {
	if root.op == "alloc" {
		_, esc := st.mem.get(mk("esc", "", nil, root))
		return esc
	}
	return true
}

func (x *Exec) immutableAddr(a *T) bool {
	for a.op == "faddr" || a.op == "iaddr" {
		if a.op == "faddr" {
			if fr, ok := a.obj.(fieldRef); ok && x.immutable[fkey(fr.st, fr.i)] {
				return true
			}
		}
		a = a.args[0]
	}
	if a.op == "global" {
		return x.immGlobal[a]
	}
	return false
}

func (x *Exec) fresh(name string, typ types.Type) *T {
	x.nsym++
	return mk("sym", name+"#"+strconv.Itoa(x.nsym), typ)
}

func (x *Exec) newAlloc(name string, typ types.Type) *T {
	x.nsym++
	return mk("alloc", name+"@"+strconv.Itoa(x.nsym), types.NewPointer(typ))
}

// load reads a value of type typ
func (x *Exec) load(st *State, addr *T, typ types.Type) *T {
	if addr.op == "iaddr" {
		return cSel(x.load(st, addr.args[0], nil), addr.args[1], typ)
	}
	if addr.op == "faddr" && inArray(addr) {
		if fr, ok := addr.obj.(fieldRef); ok {
			return structField(x.load(st, addr.args[0], fr.st), fr.st, fr.i)
		}
	}
	if addr.op == "ite" {
		return mkIte(addr.args[0], x.load(st, addr.args[1], typ), x.load(st, addr.args[2], typ))
	}
	if v := x.loadCast(st, addr, typ); v != nil {
		return v
	}
	if s := structOf(typ); s != nil {
		f := make([]*T, s.NumFields())
		for i := range f {
			f[i] = x.load(st, faddr(addr, typ, i), s.Field(i).Type())
		}
		return mk("struct", typeKey(typ), typ, f...)
	}
	if v, ok := st.mem.get(addr); ok {
		if x.words != nil && isBig(typ) {
			x.words.loaded(x, addr, v)
		}
		return v
	}
	if typ == nil && addr.typ != nil {
		if d := deref(addr.typ); d != nil && arrayOf(d) != nil {
			typ = d
		}
	}
	root := rootOf(addr)
	ver := x.version(st, addr)
	if root.op == "global" && x.immGlobal[root] {
		if v, ok := x.globalInit.get(addr); ok {
			return v
		}
		if x.w.zeroGlobal[root] && typ != nil {
			return zeroOf(typ)
		}
	}
	if (root.op == "alloc" || root.op == "global" && x.inInit) && ver == "0" && typ != nil {
		return zeroOf(typ)
	}
	return mk("mem", ver, typ, addr)
}

// loadCast reads through a converted pointer
func (x *Exec) loadCast(st *State, addr *T, typ types.Type) *T {
	if addr.op == "faddr" && addr.args[0].op == "conv" && addr.args[0].aux == "ptr" {
		fr, ok := addr.obj.(fieldRef)
		b := stripPtr(addr.args[0])
		if ok && b != addr.args[0] && b.typ != nil && deref(b.typ) != nil {
			bt := deref(b.typ)
			switch nm := types.TypeString(fr.st, nil); {
			case nm == "reflect.StringHeader" && isStringT(bt):
				s := x.load(st, b, bt)
				if fr.i == 0 {
					return mk("fn", "strdata", typ, s)
				}
				return strLen(s)
			case types.Identical(bt.Underlying(), fr.st.Underlying()):
				return x.load(st, faddr(b, bt, fr.i), typ)
			}
		}
		return x.fresh("cast", typ)
	}
	if addr.op != "conv" || addr.aux != "ptr" {
		return nil
	}
	b := stripPtr(addr)
	if v := x.loadWords(st, addr, b, typ); v != nil {
		return v
	}
	if b.typ == nil || deref(b.typ) == nil || typ == nil {
		return x.fresh("cast", typ)
	}
	bt := deref(b.typ)
	if types.Identical(bt.Underlying(), typ.Underlying()) {
		return x.load(st, b, typ)
	}
	if _, ok := typ.Underlying().(*types.Slice); ok && types.TypeString(bt, nil) == "reflect.SliceHeader" {
		d, n, k := x.load(st, faddr(b, bt, 0), nil), x.load(st, faddr(b, bt, 1), nil), x.load(st, faddr(b, bt, 2), nil)
		if d.op == "fn" && d.aux == "strdata" && n == strLen(d.args[0]) && n == k {
			return x.newBytes(st, strContent(d.args[0]), typ)
		}
	}
	return x.fresh("cast", typ)
}

func stripPtr(t *T) *T {
	for t.op == "conv" && t.aux == "ptr" {
		t = t.args[0]
	}
	return t
}

// store writes v of type typ at addr
func (x *Exec) store(st *State, addr, v *T, typ types.Type) {
	if b := stripPtr(addr); b != addr {
		if b.typ == nil || deref(b.typ) == nil || typ == nil || !types.Identical(deref(b.typ).Underlying(), typ.Underlying()) {
			x.fail("store through a converted pointer")
			return
		}
		addr = b
	}
	if addr.op == "iaddr" {
		c := x.load(st, addr.args[0], nil)
		x.store(st, addr.args[0], cUpd(c, addr.args[1], v), nil)
		return
	}
	if addr.op == "faddr" && inArray(addr) {
		if fr, ok := addr.obj.(fieldRef); ok {
			sv := x.load(st, addr.args[0], fr.st)
			x.store(st, addr.args[0], withField(sv, fr.st, fr.i, v), fr.st)
			return
		}
	}
	if addr.op == "ite" {
		a, b := addr.args[1], addr.args[2]
		x.store(st, a, mkIte(addr.args[0], v, x.load(st, a, typ)), typ)
		x.store(st, b, mkIte(addr.args[0], x.load(st, b, typ), v), typ)
		return
	}
	if s := structOf(typ); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			x.store(st, faddr(addr, typ, i), structField(v, typ, i), s.Field(i).Type())
		}
		return
	}
	if x.words != nil && isBig(typ) {
		x.words.stored(x, st, addr, v)
	}
	root := rootOf(addr)
	if root.op != "alloc" && addr.op == "faddr" {
		if fr, ok := addr.obj.(fieldRef); ok {
			x.killAliases(st, addr, fkey(fr.st, fr.i))
		}
	}
	st.mem = st.mem.set(addr, v)
	if x.shared(st, root) {
		x.escape(st, v)
	}
}

// killAliases forgets the same field of other objects the store may reach
func (x *Exec) killAliases(st *State, addr *T, key string) {
	changed := false
	for a := range st.mem.flat() {
		if a == addr || a.op != "faddr" {
			continue
		}
		fr, ok := a.obj.(fieldRef)
		if !ok || fkey(fr.st, fr.i) != key {
			continue
		}
		if r := rootOf(a); r.op == "alloc" && !x.shared(st, r) {
			continue
		}
		if x.distinct(a, addr) {
			continue
		}
		st.mem = st.mem.set(a, nil)
		changed = true
	}
	_ = changed
	x.bump(st, mk("ver", key, nil))
}

// distinct addresses of the same field: both inside one object, at
// different paths
func (x *Exec) distinct(a, b *T) bool {
	ra, rb := rootOf(a), rootOf(b)
	if ra.op == "alloc" && rb.op == "alloc" {
		return ra != rb
	}
	return ra == rb && a.op == "faddr" && b.op == "faddr" && a.args[0] != b.args[0]
}

func (x *Exec) bump(st *State, key *T) {
	x.nver++
	st.mem = st.mem.set(key, mk("v", strconv.Itoa(x.nver), nil))
}

// escape marks the allocations reachable from v as visible to others
func (x *Exec) escape(st *State, v *T) {
	if x.single {
		return
	}
	for r := range x.reach(st, v) {
		if r.op == "alloc" {
			k := mk("esc", "", nil, r)
			if _, ok := st.mem.get(k); !ok {
				st.mem = st.mem.set(k, mkBool(true))
			}
		}
	}
}

// reach: the roots of the memory reachable from the terms
func (x *Exec) reach(st *State, ts ...*T) map[*T]bool {
	out := map[*T]bool{}
	seen := map[*T]bool{}
	var byRoot map[*T][]*T
	var walk func(t *T)
	walk = func(t *T) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "alloc", "global", "sbase":
			x.addRoot(st, t, out, &byRoot, walk)
		case "sym", "mem", "fn", "sel", "field", "assert":
			if pointerLike(t.typ) {
				x.addRoot(st, t, out, &byRoot, walk)
				if _, ok := t.typ.Underlying().(*types.Slice); ok {
					walk(sbase(t))
				}
			}
			if t.op == "mem" {
				return // the address it was loaded from is not reachable
			}
			if t.op == "sym" {
				return
			}
		case "faddr", "iaddr", "slice":
			walk(rootOf(t))
			return
		case "eq", "le0", "not", "lin", "len", "clen", "const", "err", "string":
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return out
}

func (x *Exec) addRoot(st *State, t *T, out map[*T]bool, byRoot *map[*T][]*T, walk func(*T)) {
	if out[t] {
		return
	}
	out[t] = true
	if *byRoot == nil {
		*byRoot = map[*T][]*T{}
		for a, v := range st.mem.flat() {
			if a.op == "ver" || a.op == "esc" {
				continue
			}
			(*byRoot)[rootOf(a)] = append((*byRoot)[rootOf(a)], v)
		}
	}
	for _, v := range (*byRoot)[t] {
		walk(v)
	}
}

func pointerLike(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Interface, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// havoc forgets everything reachable from the terms (an opaque callee got them)
func (x *Exec) havoc(st *State, ts ...*T) { x.havocEsc(st, true, ts...) }

// fill: like havoc, for a callee known not to keep the pointers
func (x *Exec) fill(st *State, ts ...*T) { x.havocEsc(st, false, ts...) }

func (x *Exec) havocEsc(st *State, esc bool, ts ...*T) {
	roots := x.reach(st, ts...)
	if len(roots) == 0 {
		return
	}
	any := false
	for r := range roots {
		if x.immGlobal[r] {
			continue
		}
		any = true
		x.bump(st, mk("ver", "root", nil, r))
	}
	if !any {
		return
	}
	for a := range st.mem.flat() {
		if a.op == "ver" || a.op == "esc" || !roots[rootOf(a)] || x.immGlobal[rootOf(a)] {
			continue
		}
		if x.immutableAddr(a) {
			continue
		}
		x.forget(st, a)
	}
	for r := range roots {
		if esc && r.op == "alloc" && !x.immGlobal[r] {
			st.mem = st.mem.set(mk("esc", "", nil, r), mkBool(true))
		}
	}
}

// havocShared: another goroutine may have run
func (x *Exec) havocShared(st *State) {
	if x.single {
		return
	}
	x.bump(st, mk("ver", "shared", nil))
	for a := range st.mem.flat() {
		if a.op == "ver" || a.op == "esc" {
			continue
		}
		r := rootOf(a)
		if x.immutableAddr(a) || !x.shared(st, r) {
			continue
		}
		if x.immGlobal[r] {
			continue
		}
		x.forget(st, a)
	}
}

// forget the value of a cell; sequences keep their length
func (x *Exec) forget(st *State, a *T) {
	v, ok := st.mem.get(a)
	if ok && isContent(v) {
		x.nver++
		st.mem = st.mem.set(a, mk("cunk", strconv.Itoa(x.nver), v.typ, a, cLen(v)))
		return
	}
	st.mem = st.mem.set(a, nil)
}

func isContent(v *T) bool {
	switch v.op {
	case "vec", "zeros", "sub", "seq", "upd", "cunk":
		return true
	}
	return false
}

// ---- slices ----

func sbase(s *T) *T {
	return mk("sbase", "", nil, s)
}

type sliceParts struct{ base, off, len, cap *T }

func (x *Exec) parts(s *T) sliceParts {
	switch s.op {
	case "slice":
		return sliceParts{s.args[0], s.args[1], s.args[2], s.args[3]}
	case "nil":
		return sliceParts{mkNil(), mkInt(0), mkInt(0), mkInt(0)}
	}
	return sliceParts{sbase(s), mkInt(0), mk("len", "", intT, s), mk("cap", "", intT, s)}
}

func mkSlice(base, off, ln, cp *T, typ types.Type) *T {
	return mk("slice", "", typ, base, off, ln, cp)
}

func (x *Exec) sliceLen(s *T) *T {
	if s.op == "ite" {
		return mkIte(s.args[0], x.sliceLen(s.args[1]), x.sliceLen(s.args[2]))
	}
	return x.parts(s).len
}

// content is the current content of a slice value
func (x *Exec) content(st *State, s *T) *T {
	if s.isNil() {
		return cVec()
	}
	if s.op == "ite" {
		return mkIte(s.args[0], x.content(st, s.args[1]), x.content(st, s.args[2]))
	}
	p := x.parts(s)
	return cSub(x.load(st, p.base, nil), p.off, p.len)
}

// newBytes allocates a slice with the given content
func (x *Exec) newBytes(st *State, c *T, typ types.Type) *T {
	x.nsym++
	a := mk("alloc", fmt.Sprintf("bytes@%d", x.nsym), nil)
	st.mem = st.mem.set(a, c)
	n := cLen(c)
	return mkSlice(a, mkInt(0), n, n, typ)
}
