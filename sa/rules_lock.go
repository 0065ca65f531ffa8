package main

// C25: the test chain may be used from several goroutines.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C25"] = &CheckDef{
		title:     "Every operation of a test chain is one atomic step",
		technique: "interprocedural lock-set typestate analysis over SSA, with the pending deferred unlocks of every frame",
		explanation: "From every exported method of the chain, all paths through the methods it calls are followed with the state of the chain's lock: every access to the chain's fields, and to what hangs off them, needs the lock; " +
			"the lock is taken at most once, never while it is held, is free on return, and a deferred unlock is pending wherever a panic can occur while it is held.",
		assumptions: []string{"callers do not access the exported fields of a chain while others use it", "nil dereferences of the chain itself are not considered"},
		min:         60,
		run:         runLock,
	}
}

type lockState struct {
	held, read bool
	acquired   int
	defers     string // the deferred calls of the frame, by number
	covered    bool   // an unlock is pending in a calling frame
}

type lockRun struct {
	c       *Check
	chain   *types.Named
	pkg     *ssa.Package
	exempt  map[int]bool // fields that are no state: locks and hooks
	mutable map[*types.TypeName]bool
	memo    map[string][]lockState
	busy    map[string]bool
	sites   map[token.Pos]bool
	said    map[string]bool
	entry   string
	fns     map[*ssa.Function]bool
	n       int
	retMemo map[string]bool
}

func runLock(c *Check) {
	pkg := c.w.pkgs["tevm"]
	if pkg == nil {
		c.bad("analysis", "tevm", token.NoPos, "the package was not found")
		return
	}
	tn, ok := pkg.Pkg.Scope().Lookup("Chain").(*types.TypeName)
	if !ok {
		c.bad("analysis", "tevm", token.NoPos, "the type of the test chain was not found")
		return
	}
	r := &lockRun{c: c, pkg: pkg, chain: tn.Type().(*types.Named), exempt: map[int]bool{}, memo: map[string][]lockState{}, busy: map[string]bool{},
		sites: map[token.Pos]bool{}, said: map[string]bool{}, fns: map[*ssa.Function]bool{}, mutable: map[*types.TypeName]bool{}, retMemo: map[string]bool{}}
	s := r.chain.Underlying().(*types.Struct)
	locks := 0
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		if _, fn := t.Underlying().(*types.Signature); fn {
			r.exempt[i] = true
		}
		if hasLock(deref1(t)) {
			r.exempt[i] = true
			locks++
		} else {
			r.findMutable(t)
		}
	}
	c.ob("lock", "tevm.Chain", tn.Pos(), locks == 1, "the chain has %d locks", locks)
	if locks != 1 {
		return
	}
	ms := types.NewMethodSet(types.NewPointer(r.chain))
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i).Obj().(*types.Func)
		if !m.Exported() {
			continue
		}
		fn := c.w.prog.MethodValue(ms.At(i))
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		r.entry = fnName(fn)
		out := r.analyze(fn, []lockArg{{kind: 1}}, nil, lockState{})
		for _, o := range out {
			if o.held {
				r.say("released", fn, fn.Pos(), "the lock of the chain is still held when the method returns")
			}
		}
		r.n++
	}
	for f := range r.fns {
		c.w.used[f] = true
		c.fns[fnName(f)] = true
	}
	c.obl += r.n + len(r.sites)
	c.done += r.n + len(r.sites) - len(r.said)
}

func deref1(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isLock(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "sync.Mutex" || s == "sync.RWMutex"
}

// hasLock: a lock, or a struct of locks
func hasLock(t types.Type) bool {
	if isLock(t) {
		return true
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || s.NumFields() == 0 {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if !hasLock(deref1(s.Field(i).Type())) {
			return false
		}
	}
	return true
}

// findMutable collects the struct types of the package that hang off the chain
func (r *lockRun) findMutable(t types.Type) {
	switch u := t.(type) {
	case *types.Named:
		if u.Obj().Pkg() != r.pkg.Pkg {
			return
		}
		if _, ok := u.Underlying().(*types.Struct); ok && u != r.chain {
			if r.mutable[u.Obj()] {
				return
			}
			r.mutable[u.Obj()] = true
		}
		r.findMutable(u.Underlying())
	case *types.Pointer:
		r.findMutable(u.Elem())
	case *types.Slice:
		r.findMutable(u.Elem())
	case *types.Array:
		r.findMutable(u.Elem())
	case *types.Map:
		r.findMutable(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			r.findMutable(u.Field(i).Type())
		}
	}
}

// carries: can a value of the type lead to the state of a chain?
func (r *lockRun) carries(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.(type) {
	case *types.Named:
		if r.mutable[u.Obj()] {
			return true
		}
		// other names of the same struct
		for m := range r.mutable {
			if types.Identical(m.Type().Underlying(), u.Underlying()) {
				return true
			}
		}
		return r.carries(u.Underlying(), seen)
	case *types.Pointer:
		return r.carries(u.Elem(), seen)
	case *types.Slice:
		return r.carries(u.Elem(), seen)
	case *types.Map:
		return r.carries(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if r.carries(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if r.carries(u.At(i).Type(), seen) {
				return true
			}
		}
	case *types.Interface:
		if u.NumMethods() == 0 {
			return false
		}
		for _, m := range r.pkg.Members {
			if tn, ok := m.(*ssa.Type); ok {
				n, ok := tn.Type().(*types.Named)
				if ok && types.Implements(types.NewPointer(n), u) && u.NumMethods() > 1 {
					for m := range r.mutable {
						if types.Identical(m.Type().Underlying(), n.Underlying()) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (r *lockRun) say(rule string, fn *ssa.Function, pos token.Pos, f string, a ...interface{}) {
	k := fmt.Sprint(rule, fnName(fn), pos)
	if r.said[k] {
		return
	}
	r.said[k] = true
	r.c.bad(rule, fnName(fn), pos, "%s (reached from %s)", fmt.Sprintf(f, a...), r.entry)
}

// ---- what the values of a function are ----

type lockVals struct {
	shared  map[ssa.Value]bool // the chain
	cells   map[ssa.Value]bool // variables that hold the chain
	derived map[ssa.Value]bool // what hangs off it
	locks   map[ssa.Value]bool // the address of its lock
	funcs   map[ssa.Value][]lockFn
}

// lockArg is what an argument or a captured variable is
type lockArg struct {
	kind int // 0 nothing of interest, 1 the chain, 2 a variable with it, 3 derived, 4 its lock
	fns  []lockFn
}

// lockFn is a function value
type lockFn struct {
	fn *ssa.Function
	fr []lockArg
}

func argKey(as []lockArg) string {
	var sb strings.Builder
	for _, a := range as {
		fmt.Fprintf(&sb, "%d", a.kind)
		for _, f := range a.fns {
			fmt.Fprintf(&sb, "<%p%s>", f.fn, argKey(f.fr))
		}
	}
	return sb.String()
}

func relevant(as []lockArg) bool {
	for _, a := range as {
		if a.kind != 0 {
			return true
		}
		for _, f := range a.fns {
			if relevant(f.fr) {
				return true
			}
		}
	}
	return false
}

func (v *lockVals) put(x ssa.Value, a lockArg) {
	switch a.kind {
	case 1:
		v.shared[x] = true
	case 2:
		v.cells[x] = true
	case 3:
		v.derived[x] = true
	case 4:
		v.locks[x] = true
	}
	if len(a.fns) > 0 {
		v.funcs[x] = a.fns
	}
}

func (r *lockRun) values(fn *ssa.Function, args, free []lockArg) *lockVals {
	v := &lockVals{map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value][]lockFn{}}
	for i, p := range fn.Params {
		if i < len(args) {
			v.put(p, args[i])
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(free) {
			v.put(f, free[i])
		}
	}
	for again := true; again; {
		again = false
		put := func(m map[ssa.Value]bool, x ssa.Value) {
			if !m[x] {
				m[x] = true
				again = true
			}
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Store:
					if v.shared[i.Val] {
						if root := allocRoot(i.Addr); root != nil {
							put(v.cells, root)
						}
					}
					if v.derived[i.Val] {
						if root := allocRoot(i.Addr); root != nil {
							put(v.derived, root)
						}
					}
				case *ssa.UnOp:
					if i.Op != token.MUL {
						continue
					}
					if v.cells[i.X] && r.isChain(i.Type()) {
						put(v.shared, i)
					}
					if v.derived[i.X] && refLike(i.Type()) {
						put(v.derived, i)
					}
					if v.locks[i.X] {
						put(v.locks, i)
					}
				case *ssa.FieldAddr:
					if v.shared[i.X] && !r.exempt[i.Field] || v.derived[i.X] {
						put(v.derived, i)
					}
					if v.shared[i.X] && hasLock(deref1(deref1(i.Type()))) || v.locks[i.X] {
						put(v.locks, i)
					}
				case *ssa.IndexAddr:
					if v.derived[i.X] {
						put(v.derived, i)
					}
				case *ssa.Field:
					if v.derived[i.X] && refLike(i.Type()) {
						put(v.derived, i)
					}
				case *ssa.Lookup:
					if v.derived[i.X] && refLike(i.Type()) {
						put(v.derived, i)
					}
				case *ssa.Extract:
					if v.derived[i.Tuple] && refLike(i.Type()) {
						put(v.derived, i)
					}
					if v.shared[i.Tuple] && r.isChain(i.Type()) {
						put(v.shared, i)
					}
				case *ssa.Slice:
					if v.derived[i.X] {
						put(v.derived, i)
					}
				case *ssa.Range:
					if v.derived[i.X] {
						put(v.derived, i)
					}
				case *ssa.Next:
					if v.derived[i.Iter] {
						put(v.derived, i)
					}
				case *ssa.ChangeType:
					r.pass(v, put, i.X, i)
				case *ssa.Convert:
					r.pass(v, put, i.X, i)
				case *ssa.ChangeInterface:
					r.pass(v, put, i.X, i)
				case *ssa.MakeInterface:
					r.pass(v, put, i.X, i)
				case *ssa.TypeAssert:
					r.pass(v, put, i.X, i)
				case *ssa.Phi:
					for _, e := range i.Edges {
						r.pass(v, put, e, i)
					}
				case *ssa.Call:
					as, fr := r.callArgs(v, &i.Call)
					if !relevant(as) && !relevant(fr) {
						continue
					}
					g := i.Call.StaticCallee()
					if r.hasChain(i.Type()) && (g == nil || r.returnsShared(g, as, fr)) {
						put(v.shared, i)
					} else if !r.hasChain(i.Type()) && r.carries(i.Type(), map[types.Type]bool{}) {
						put(v.derived, i)
					}
				}
			}
		}
	}
	return v
}

func (r *lockRun) pass(v *lockVals, put func(map[ssa.Value]bool, ssa.Value), from, to ssa.Value) {
	if v.shared[from] {
		put(v.shared, to)
	}
	if v.derived[from] && refLike(to.Type()) {
		put(v.derived, to)
	}
	if v.cells[from] {
		put(v.cells, to)
	}
}

func allocRoot(a ssa.Value) ssa.Value {
	for {
		switch x := a.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.FreeVar:
			return x
		default:
			return nil
		}
	}
}

func (r *lockRun) isChain(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), r.chain)
}

func (r *lockRun) hasChain(t types.Type) bool {
	if tu, ok := t.(*types.Tuple); ok {
		for i := 0; i < tu.Len(); i++ {
			if r.isChain(tu.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return r.isChain(t)
}

func refLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refLike(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refLike(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

// returnsShared: can the function give back the chain it was given?
func (r *lockRun) returnsShared(fn *ssa.Function, as, fr []lockArg) bool {
	if !r.known(fn) {
		return false
	}
	k := lockKey(fn, as, fr)
	if v, ok := r.retMemo[k]; ok {
		return v
	}
	r.retMemo[k] = false
	v := r.values(fn, as, fr)
	res := false
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, x := range ret.Results {
				res = res || v.shared[x] && r.isChain(x.Type())
			}
		}
	}
	r.retMemo[k] = res
	return res
}

// known: is the function followed?
func (r *lockRun) known(fn *ssa.Function) bool {
	return fn != nil && len(fn.Blocks) > 0 && (fn.Pkg == r.pkg || fn.Parent() != nil || fn.Pkg == nil && fn.Synthetic != "")
}

func lockKey(fn *ssa.Function, as, fr []lockArg) string {
	return fmt.Sprintf("%p %s/%s ", fn, argKey(as), argKey(fr))
}

// callArgs: what the arguments (receiver included) are, and the same for the
// variables a closure captures
func (r *lockRun) callArgs(v *lockVals, c *ssa.CallCommon) (as, fr []lockArg) {
	if c.IsInvoke() {
		as = append(as, r.arg(v, c.Value))
	}
	for _, a := range c.Args {
		as = append(as, r.arg(v, a))
	}
	if m, ok := c.Value.(*ssa.MakeClosure); ok {
		fr = r.captured(v, m)
	}
	return
}

func (r *lockRun) arg(v *lockVals, x ssa.Value) lockArg {
	switch {
	case v.shared[x]:
		return lockArg{kind: 1}
	case v.cells[x]:
		return lockArg{kind: 2}
	case v.derived[x]:
		return lockArg{kind: 3}
	case v.locks[x]:
		return lockArg{kind: 4}
	}
	return lockArg{fns: r.resolve(v, x, 0)}
}

func (r *lockRun) captured(v *lockVals, m *ssa.MakeClosure) (fr []lockArg) {
	for _, b := range m.Bindings {
		fr = append(fr, r.arg(v, b))
	}
	return
}

// resolve: the functions a value can be
func (r *lockRun) resolve(v *lockVals, x ssa.Value, depth int) []lockFn {
	if depth > 6 {
		return nil
	}
	if f, ok := v.funcs[x]; ok {
		return f
	}
	switch i := x.(type) {
	case *ssa.Function:
		return []lockFn{{fn: i}}
	case *ssa.MakeClosure:
		return []lockFn{{i.Fn.(*ssa.Function), r.captured(v, i)}}
	case *ssa.ChangeType:
		return r.resolve(v, i.X, depth+1)
	case *ssa.Phi:
		var out []lockFn
		for _, e := range i.Edges {
			out = append(out, r.resolve(v, e, depth+1)...)
		}
		return out
	case *ssa.Alloc: // a variable with a function
		if _, fn := deref1(i.Type()).Underlying().(*types.Signature); fn {
			var out []lockFn
			for _, ref := range *i.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == x {
					out = append(out, r.resolve(v, st.Val, depth+1)...)
				}
			}
			return out
		}
	case *ssa.UnOp:
		if i.Op == token.MUL {
			return r.resolve(v, i.X, depth+1)
		}
	case *ssa.Call:
		if _, fn := i.Type().Underlying().(*types.Signature); !fn {
			return nil
		}
		g := i.Call.StaticCallee()
		if !r.known(g) {
			return nil
		}
		as, fr := r.callArgs(v, &i.Call)
		v2 := r.values(g, as, fr)
		var out []lockFn
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
				out = append(out, r.resolve(v2, ret.Results[0], depth+1)...)
			}
		}
		return out
	}
	return nil
}

// lockOp: Lock, Unlock, RLock or RUnlock of the chain's lock
func (r *lockRun) lockOp(v *lockVals, c *ssa.CallCommon) string {
	f := c.StaticCallee()
	if f == nil || f.Signature.Recv() == nil || len(c.Args) == 0 || !isLock(deref1(f.Signature.Recv().Type())) {
		return ""
	}
	if v.locks[c.Args[0]] {
		return f.Name()
	}
	return ""
}

// unlocks: would the deferred call release the lock?
func (r *lockRun) unlocks(v *lockVals, c *ssa.CallCommon) bool {
	if n := r.lockOp(v, c); n != "" {
		return n == "Unlock" || n == "RUnlock"
	}
	for _, f := range r.callees(v, c) {
		if !r.known(f.fn) {
			continue
		}
		as, _ := r.callArgs(v, c)
		v2 := r.values(f.fn, as, f.fr)
		for _, b := range f.fn.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if n := r.lockOp(v2, ci.Common()); n == "Unlock" || n == "RUnlock" {
						return true
					}
				}
			}
		}
	}
	return false
}

func (r *lockRun) callees(v *lockVals, c *ssa.CallCommon) []lockFn {
	if c.IsInvoke() {
		return nil
	}
	return r.resolve(v, c.Value, 0)
}

// ---- paths ----

func (r *lockRun) analyze(fn *ssa.Function, as, fr []lockArg, in lockState) []lockState {
	in.defers = ""
	key := lockKey(fn, as, fr) + fmt.Sprint(in)
	if out, ok := r.memo[key]; ok {
		return out
	}
	if r.busy[key] {
		return []lockState{in} // a recursive call leaves the lock alone, or the first one is reported
	}
	r.busy[key] = true
	defer delete(r.busy, key)
	r.fns[fn] = true
	v := r.values(fn, as, fr)
	var defers []*ssa.Defer
	num := func(d *ssa.Defer) int {
		for i, x := range defers {
			if x == d {
				return i
			}
		}
		defers = append(defers, d)
		return len(defers) - 1
	}
	type item struct {
		b  *ssa.BasicBlock
		st lockState
	}
	seen := map[item]bool{}
	outs := map[lockState]bool{}
	work := []item{{fn.Blocks[0], in}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[it] {
			continue
		}
		seen[it] = true
		sts := []lockState{it.st}
		for _, ins := range it.b.Instrs {
			var next []lockState
			for _, st := range sts {
				switch i := ins.(type) {
				case *ssa.Defer:
					st.defers += fmt.Sprintf("%d,", num(i))
					next = append(next, st)
				case *ssa.RunDefers:
					cur := []lockState{st}
					fs := strings.Split(strings.TrimSuffix(st.defers, ","), ",")
					for k := len(fs) - 1; k >= 0 && fs[k] != ""; k-- {
						var n int
						fmt.Sscan(fs[k], &n)
						var nx []lockState
						for _, s := range cur {
							s.defers = strings.Join(fs[:k], ",")
							if s.defers != "" {
								s.defers += ","
							}
							nx = append(nx, r.call(fn, v, defers, &defers[n].Call, defers[n], s, defers[n].Pos())...)
						}
						cur = nx
					}
					next = append(next, cur...)
				case *ssa.Go:
					s := lockState{}
					r.call(fn, v, nil, &i.Call, i, s, i.Pos())
					next = append(next, st)
				case *ssa.Call:
					next = append(next, r.call(fn, v, defers, &i.Call, i, st, i.Pos())...)
				case *ssa.MakeClosure:
					// a closure that is not called here is called by whoever gets it
					if r.called(i) {
						next = append(next, st)
						continue
					}
					fr := r.captured(v, i)
					if g := i.Fn.(*ssa.Function); relevant(fr) && r.known(g) {
						st2 := st
						st2.covered = st.covered || r.pending(v, defers, st)
						r.analyze(g, nil, fr, st2)
					}
					next = append(next, st)
				default:
					r.access(fn, v, defers, ins, st)
					next = append(next, st)
				}
			}
			sts = uniqueStates(next)
		}
		last := it.b.Instrs[len(it.b.Instrs)-1]
		for _, st := range sts {
			if _, ok := last.(*ssa.Return); ok {
				st.defers = ""
				st.covered = in.covered
				outs[st] = true
				continue
			}
			for _, s := range it.b.Succs {
				work = append(work, item{s, st})
			}
		}
	}
	var out []lockState
	for s := range outs {
		out = append(out, s)
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	r.memo[key] = out
	return out
}

func uniqueStates(l []lockState) []lockState {
	seen := map[lockState]bool{}
	var out []lockState
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// called: is the closure only called, deferred, kept in a variable of the
// function, returned, or handed to functions that are followed?
func (r *lockRun) called(m ssa.Value) bool {
	for _, ref := range *m.Referrers() {
		switch i := ref.(type) {
		case *ssa.DebugRef, *ssa.Return:
		case *ssa.ChangeType:
			if !r.called(i) {
				return false
			}
		case *ssa.Phi:
		case *ssa.Store:
			if _, ok := i.Addr.(*ssa.Alloc); !ok {
				return false
			}
		case ssa.CallInstruction:
			if i.Common().Value != m && !r.known(i.Common().StaticCallee()) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (r *lockRun) pending(v *lockVals, defers []*ssa.Defer, st lockState) bool {
	for _, f := range strings.Split(st.defers, ",") {
		if f == "" {
			continue
		}
		var n int
		fmt.Sscan(f, &n)
		if r.unlocks(v, &defers[n].Call) {
			return true
		}
	}
	return false
}

// panics: a panic is possible here; the lock has to be released by somebody
func (r *lockRun) panics(fn *ssa.Function, v *lockVals, defers []*ssa.Defer, st lockState, pos token.Pos) {
	if !st.held || st.covered || r.pending(v, defers, st) {
		return
	}
	r.say("panics", fn, pos, "a panic here leaves the lock of the chain held for ever")
}

func (r *lockRun) need(fn *ssa.Function, pos token.Pos, st lockState, write bool) {
	r.sites[pos] = true
	if !st.held {
		r.say("guarded", fn, pos, "the state of the chain is accessed without its lock")
	} else if st.read && write {
		r.say("guarded", fn, pos, "the state of the chain may be changed while others read it")
	}
}

func (r *lockRun) access(fn *ssa.Function, v *lockVals, defers []*ssa.Defer, ins ssa.Instruction, st lockState) {
	switch i := ins.(type) {
	case *ssa.UnOp:
		if i.Op == token.MUL && v.derived[i.X] && !localCell(i.X) {
			r.need(fn, i.Pos(), st, false)
		}
	case *ssa.Store:
		if v.derived[i.Addr] && !localCell(i.Addr) {
			r.need(fn, i.Pos(), st, true)
		}
	case *ssa.MapUpdate:
		if v.derived[i.Map] {
			r.need(fn, i.Pos(), st, true)
		}
		r.panics(fn, v, defers, st, i.Pos())
	case *ssa.Lookup:
		if v.derived[i.X] {
			r.need(fn, i.Pos(), st, false)
		}
	case *ssa.Next:
		if v.derived[i.Iter] {
			r.need(fn, i.Pos(), st, false)
		}
	case *ssa.IndexAddr, *ssa.Slice:
		r.panics(fn, v, defers, st, ins.Pos())
	case *ssa.Panic:
		r.panics(fn, v, defers, st, i.Pos())
	case *ssa.TypeAssert:
		if !i.CommaOk {
			r.panics(fn, v, defers, st, i.Pos())
		}
	}
}

// localCell: a variable of this function is no shared memory, whatever it holds
func localCell(a ssa.Value) bool {
	root := allocRoot(a)
	_, ok := root.(*ssa.Alloc)
	return ok
}

func (r *lockRun) call(fn *ssa.Function, v *lockVals, defers []*ssa.Defer, c *ssa.CallCommon, ins ssa.Instruction, st lockState, pos token.Pos) []lockState {
	if _, ok := ins.(*ssa.Defer); ok && !st.covered && r.unlocks(v, c) {
		// the release itself
		st.covered = true
		outs := r.call(fn, v, defers, c, nil, st, pos)
		for i := range outs {
			outs[i].covered = false
		}
		return uniqueStates(outs)
	}
	switch op := r.lockOp(v, c); op {
	case "Lock", "RLock":
		r.sites[pos] = true
		if st.held {
			r.say("deadlock", fn, pos, "the lock of the chain is taken while it is already held")
		}
		if st.acquired > 0 && !st.held {
			r.say("atomic", fn, pos, "the lock of the chain is taken again: others can come in between")
		}
		st.held, st.read = true, op == "RLock"
		st.acquired = 1
		return []lockState{st}
	case "Unlock", "RUnlock":
		r.sites[pos] = true
		if !st.held {
			r.say("unlock", fn, pos, "the lock of the chain is released though it is not held")
		} else if st.read != (op == "RUnlock") {
			r.say("unlock", fn, pos, "the lock of the chain is released in the wrong mode")
		}
		st.held, st.read = false, false
		return []lockState{st}
	case "":
	default:
		r.say("lock", fn, pos, "%s is not understood", op)
		return []lockState{st}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		for k, a := range c.Args {
			if v.derived[a] {
				r.need(fn, pos, st, b.Name() == "delete" || b.Name() == "copy" && k == 0)
			}
		}
		return []lockState{st}
	}
	r.panics(fn, v, defers, st, pos)
	as, _ := r.callArgs(v, c)
	for _, a := range as {
		if g := c.StaticCallee(); a.kind == 3 && !r.known(g) {
			r.need(fn, pos, st, true)
			break
		}
	}
	outs := map[lockState]bool{}
	n := 0
	for _, f := range r.callees(v, c) {
		if !r.known(f.fn) || !relevant(as) && !relevant(f.fr) {
			continue
		}
		n++
		// the callee runs with the deferred unlocks of this frame behind it
		in := st
		in.covered = st.covered || r.pending(v, defers, st)
		for _, o := range r.analyze(f.fn, as, f.fr, in) {
			o.defers, o.covered = st.defers, st.covered
			outs[o] = true
		}
	}
	if n == 0 {
		return []lockState{st}
	}
	var res []lockState
	for o := range outs {
		res = append(res, o)
	}
	return res
}
