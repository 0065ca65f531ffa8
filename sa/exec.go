package main

// The abstract interpreter: a forward analysis over go/ssa in which callees
// of the analysed module are inlined, branches refine path facts, and loops
// are brought to a fixpoint by widening everything they modify.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Exec struct {
	w            *World
	nsym         int
	nver         int
	steps        int
	maxSteps     int
	maxDepth     int
	opaque       func(fn *ssa.Function) bool // do not inline
	ignore       func(name string) bool      // calls without an event
	pureFn       func(name string) bool      // extra pure callees
	immutable    map[string]bool
	immGlobal    map[*T]bool
	globalInit   *Mem
	storeEvents  bool
	boundsObl    func(o *Obligation)
	stack        []*ssa.Function
	noMerge      bool
	inlined      map[*ssa.Function]bool
	failed       string
	recLimit     int
	hook         func(fr *frame, st *State, fn *ssa.Function, name string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool)
	judge        func(c *T) int                              // decides conditions that facts do not
	fits         func(op token.Token, a, b *T, k ikind) bool // false: this sum, difference or product leaves the range of its type
	words        *wordTrack                                  // big integers that share their words
	modelExtra   func(fn *ssa.Function, name string) model
	onAppend     func(fr *frame, st *State, dst, res *T, pos token.Pos)
	ignorePrint  bool
	inInit       bool
	noUnroll     bool
	unrollMax    int
	unrollStates int
	growCap      bool // append leaves room to spare, as the runtime does
	backwards    bool // maps are walked from the last entry to the first
	single       bool // nothing else runs: no interference; maps are tracked entry by entry
	noSponge     bool // analyse the keccak package itself
	nested       int
	ifConvert    bool // join branches that only choose between scalars
	onInstr      func(fn *ssa.Function, ins ssa.Instruction, st *State, env func(ssa.Value) *T)
}

type Obligation struct {
	fn   *ssa.Function
	pos  token.Pos
	what string
	cond *T // must hold
	st   *State
}

type Path struct {
	Kind   string // return panic backedge
	Ret    []*T
	Facts  []*T
	Events []*Event
	St     *State
	Pos    token.Pos
	evHead *EvList
}

var debugLoops = debugOn()

type outcome struct {
	st    *State
	rets  []*T
	panic bool
	pos   token.Pos
}

type deferred struct {
	parent *deferred
	call   *ssa.CallCommon
	fnv    *T
	args   []*T
	pos    token.Pos
}

// frame state: the state of one activation at a program point
type fst struct {
	env    map[ssa.Value]*T
	st     *State
	defers *deferred
}

func (f *fst) clone() *fst {
	e := make(map[ssa.Value]*T, len(f.env)+8)
	for k, v := range f.env {
		e[k] = v
	}
	return &fst{e, f.st.clone(), f.defers}
}

type frame struct {
	fn    *ssa.Function
	info  *fnInfo
	binds []*T
	outs  *[]outcome
}

type fnInfo struct {
	rpo    map[*ssa.BasicBlock]int
	header map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> natural loop body
	used   map[*ssa.BasicBlock]map[ssa.Value]bool       // values used from here on
}

func (w *World) info(fn *ssa.Function) *fnInfo {
	if i, ok := w.infos[fn]; ok {
		return i
	}
	i := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, header: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, used: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	w.infos[fn] = i
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for k, b := range post {
		i.rpo[b] = len(post) - 1 - k
	}
	for _, b := range fn.Blocks {
		if !seen[b] {
			continue
		}
		for _, p := range b.Preds {
			if seen[p] && b.Dominates(p) {
				body := i.header[b]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{b: true}
					i.header[b] = body
				}
				stack := []*ssa.BasicBlock{p}
				for len(stack) > 0 {
					q := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[q] {
						continue
					}
					body[q] = true
					for _, r := range q.Preds {
						if seen[r] {
							stack = append(stack, r)
						}
					}
				}
			}
		}
	}
	// values used in blocks reachable from b
	reach := func(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		r := map[*ssa.BasicBlock]bool{}
		st := []*ssa.BasicBlock{b}
		for len(st) > 0 {
			q := st[len(st)-1]
			st = st[:len(st)-1]
			if r[q] {
				continue
			}
			r[q] = true
			st = append(st, q.Succs...)
		}
		return r
	}
	for _, b := range fn.Blocks {
		u := map[ssa.Value]bool{}
		for q := range reach(b) {
			for _, ins := range q.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op != nil {
						u[*op] = true
					}
				}
			}
		}
		// the phis of b itself are already evaluated
		i.used[b] = u
	}
	return i
}

func (x *Exec) fail(format string, a ...interface{}) {
	if x.failed == "" {
		x.failed = fmt.Sprintf(format, a...)
	}
}

// runFunc interprets fn and returns its exits
func (x *Exec) runFunc(fn *ssa.Function, args, binds []*T, st *State) []outcome {
	if x.inlined != nil {
		x.inlined[fn] = true
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	info := x.w.info(fn)
	f := &fst{env: map[ssa.Value]*T{}, st: st.clone()}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		f.env[v] = binds[i]
	}
	var outs []outcome
	fr := &frame{fn: fn, info: info, binds: binds, outs: &outs}
	x.region(fr, fn.Blocks[0], []*fst{f}, nil, nil)
	return outs
}

type edge struct {
	from, to *ssa.BasicBlock
	f        *fst
}

// region interprets the blocks reachable from start inside body (nil: all).
// If header is set, edges back to it are returned in backs.
func (x *Exec) region(fr *frame, start *ssa.BasicBlock, init []*fst, body map[*ssa.BasicBlock]bool, header *ssa.BasicBlock) (exits []edge, backs []*fst) {
	wl := map[*ssa.BasicBlock][]*fst{start: init}
	for len(wl) > 0 {
		if x.failed != "" {
			return
		}
		var b *ssa.BasicBlock
		for q := range wl {
			if b == nil || fr.info.rpo[q] < fr.info.rpo[b] {
				b = q
			}
		}
		sts := wl[b]
		delete(wl, b)
		sts = x.merge(fr, b, sts)
		push := func(e edge) {
			switch {
			case header != nil && e.to == header:
				backs = append(backs, e.f)
			case body != nil && !body[e.to]:
				exits = append(exits, e)
			default:
				wl[e.to] = append(wl[e.to], e.f)
			}
		}
		if lb := fr.info.header[b]; lb != nil && b != header {
			for _, f := range sts {
				for _, e := range x.loop(fr, b, lb, f) {
					push(e)
				}
			}
			continue
		}
		for _, f := range sts {
			for _, e := range x.block(fr, b, f) {
				push(e)
			}
		}
	}
	return
}

// merge joins states that agree on everything but their facts
func (x *Exec) merge(fr *frame, b *ssa.BasicBlock, sts []*fst) []*fst {
	if len(sts) < 2 || x.noMerge {
		return sts
	}
	used := fr.info.used[b]
	var out []*fst
next:
	for _, f := range sts {
		for _, g := range out {
			if g.st.mem != f.st.mem || g.st.ev != f.st.ev || g.defers != f.defers {
				continue
			}
			same := true
			var diff []ssa.Value
			for v := range used {
				if f.env[v] != g.env[v] {
					if x.ifConvert && scalarT(v.Type()) && f.env[v] != nil && g.env[v] != nil {
						diff = append(diff, v)
						continue
					}
					same = false
					break
				}
			}
			for _, ins := range b.Instrs {
				p, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				if f.env[p] != g.env[p] {
					if x.ifConvert && scalarT(p.Type()) {
						if !used[p] {
							diff = append(diff, p)
						}
						continue
					}
					same = false
				}
			}
			if !same {
				continue
			}
			if len(diff) > 0 {
				c := chooser(g.st.facts, f.st.facts)
				if c == nil {
					continue
				}
				for _, v := range diff {
					g.env[v] = mkIte(c, g.env[v], f.env[v])
				}
			}
			g.st.facts = joinFacts(g.st.facts, f.st.facts)
			continue next
		}
		out = append(out, f)
	}
	return out
}

// joinFacts keeps what holds on both sides: the common facts, and the
// disjunction of what each side adds
func joinFacts(a, b *Facts) *Facts {
	var common *Facts
	inA, inB := map[*T]bool{}, map[*T]bool{}
	aa, ba := a.all(), b.all()
	for _, t := range aa {
		inA[t] = true
	}
	var da, db []*T
	for i := len(ba) - 1; i >= 0; i-- {
		inB[ba[i]] = true
		if inA[ba[i]] {
			common = common.push(ba[i])
		} else {
			db = append(db, ba[i])
		}
	}
	for i := len(aa) - 1; i >= 0; i-- {
		if !inB[aa[i]] {
			da = append(da, aa[i])
		}
	}
	if len(da) == 0 || len(db) == 0 || len(da)+len(db) > 40 {
		return common
	}
	var alts []*T
	add := func(d []*T) {
		if len(d) == 1 && d[0].op == "orb" {
			alts = append(alts, d[0].args...)
		} else {
			alts = append(alts, mkAnd(d...))
		}
	}
	add(da)
	add(db)
	if len(alts) == 2 && alts[0] == mkNot(alts[1]) || len(alts) > 30 {
		return common
	}
	return common.push(mk("orb", "", types.Typ[types.Bool], alts...))
}

func scalarT(t types.Type) bool { return isIntType(t) || isBoolT(t) }

// chooser: a condition that holds on side a and fails on side b
func chooser(a, b *Facts) *T {
	in := map[*T]bool{}
	for g := b; g != nil; g = g.parent {
		in[g.t] = true
	}
	for g := a; g != nil; g = g.parent {
		if in[mkNot(g.t)] {
			return g.t
		}
	}
	inA := map[*T]bool{}
	for g := a; g != nil; g = g.parent {
		inA[g.t] = true
	}
	for g := a; g != nil; g = g.parent {
		if !in[g.t] && decide(b, g.t) == -1 {
			return g.t
		}
	}
	for g := b; g != nil; g = g.parent {
		if !inA[g.t] && decide(a, g.t) == -1 {
			return mkNot(g.t)
		}
	}
	return nil
}

// joinOuts joins the exits of a call that differ in scalar results only
func (x *Exec) joinOuts(outs []outcome) []outcome {
	var res []outcome
next:
	for _, o := range outs {
		if o.panic {
			res = append(res, o)
			continue
		}
		for i := range res {
			r := &res[i]
			if r.panic || r.st.mem != o.st.mem || r.st.ev != o.st.ev || len(r.rets) != len(o.rets) {
				continue
			}
			ok, differ := true, false
			for j := range o.rets {
				if r.rets[j] != o.rets[j] {
					differ = true
					if !scalarTerm(r.rets[j]) || !scalarTerm(o.rets[j]) {
						ok = false
					}
				}
			}
			if !ok {
				continue
			}
			if differ {
				c := chooser(r.st.facts, o.st.facts)
				if c == nil {
					continue
				}
				rs := make([]*T, len(o.rets))
				for j := range rs {
					rs[j] = mkIte(c, r.rets[j], o.rets[j])
				}
				r.rets = rs
			}
			st := r.st.clone()
			st.facts = joinFacts(r.st.facts, o.st.facts)
			r.st = st
			continue next
		}
		res = append(res, o)
	}
	return res
}

func scalarTerm(t *T) bool {
	if t.op == "const" {
		return t.val.Kind() == constant.Int || t.val.Kind() == constant.Bool
	}
	return t.typ != nil && scalarT(t.typ)
}

// refuted: do the facts and the conditions contradict each other, using the
// disjunctions among the facts?
func refuted(facts *Facts, cs ...*T) bool {
	for _, c := range cs {
		if decide(facts, c) == -1 {
			return true
		}
		if c.op == "andb" {
			for _, a := range c.args {
				facts = facts.push(a)
			}
		} else {
			facts = facts.push(c)
		}
	}
	for g := facts; g != nil; g = g.parent {
		if g.t.op != "orb" {
			continue
		}
		all := true
		for _, alt := range g.t.args {
			if decide(facts, alt) != -1 {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

// evalPhis assigns the phis of b for the edge from pred
func (x *Exec) evalPhis(pred, b *ssa.BasicBlock, f *fst) {
	idx := -1
	for i, p := range b.Preds {
		if p == pred {
			idx = i
		}
	}
	var ps []*ssa.Phi
	var vs []*T
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, x.eval(f, p.Edges[idx]))
	}
	for i, p := range ps {
		f.env[p] = vs[i]
	}
}

// loop brings one loop to a fixpoint and returns the edges leaving it
func (x *Exec) loop(fr *frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, f0 *fst) []edge {
	if es, ok := x.unroll(fr, h, body, f0); ok {
		return es
	}
	var phis []*ssa.Phi
	for _, ins := range h.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	inv := map[*ssa.Phi]bool{}
	mods := map[*T]bool{}
	outBase := len(*fr.outs)
	var exits []edge
	var backs []*fst
	var li *LoopInfo
	var invFacts []*T
	var start *fst
	final := false
	var vars []*LoopVar
	symOf := map[string]*T{}
	for iter := 0; iter < 12; iter++ {
		if x.failed != "" {
			return nil
		}
		*fr.outs = (*fr.outs)[:outBase]
		start = f0.clone()
		x.nsym++
		li = &LoopInfo{id: fmt.Sprintf("%s:%d", fr.fn.Name(), h.Index), fn: fr.fn, pos: blockPos(h)}
		vars = nil
		fresh := func(key, name string, typ types.Type) *T {
			// the same symbol in every round, so that facts carry over
			if t, ok := symOf[key]; ok {
				return t
			}
			t := x.fresh(name, typ)
			symOf[key] = t
			return t
		}
		for _, p := range phis {
			if inv[p] {
				continue
			}
			iv := f0.env[p]
			s := fresh(fmt.Sprintf("p%p", p), "loop."+phiName(p), p.Type())
			start.env[p] = s
			vars = append(vars, &LoopVar{sym: s, phi: p, init: iv})
		}
		var ms []*T
		for a := range mods {
			ms = append(ms, a)
		}
		sort.Slice(ms, func(i, j int) bool { return ms[i].id < ms[j].id })
		for _, a := range ms {
			iv, ok := f0.st.mem.get(a)
			if a.op == "ver" {
				x.bump(start.st, a)
				continue
			}
			var typ types.Type
			if a.typ != nil {
				typ = deref(a.typ)
			}
			if !ok {
				iv = x.load(f0.st.clone(), a, typ)
			}
			var s *T
			if isContent(iv) {
				s = mk("cunk", fresh(fmt.Sprintf("a%d", a.id), "loopmem", nil).aux, iv.typ, a, cLen(iv))
			} else {
				if typ == nil {
					typ = iv.typ
				}
				s = fresh(fmt.Sprintf("m%d", a.id), "loopmem", typ)
			}
			start.st.mem = start.st.mem.set(a, s)
			vars = append(vars, &LoopVar{sym: s, addr: a, init: iv})
		}
		li.vars = vars
		for _, t := range invFacts {
			start.st.facts = start.st.facts.push(t)
		}
		mark := start.st.ev
		start.st.ev = start.st.ev.push(&Event{kind: "loop", fn: fr.fn, pos: li.pos, loop: li})

		headMem := start.st.mem
		exits, backs = x.region(fr, h, []*fst{start.clone()}, body, h)
		_ = mark
		// what did the iterations change?
		changed := false
		for _, bk := range backs {
			a, b := headMem.flat(), bk.st.mem.flat()
			consider := func(k *T) {
				if mods[k] || k.op == "esc" {
					return
				}
				if k.op == "ver" {
					r := k
					if len(k.args) > 0 {
						r = k.args[0]
					}
					if r.op == "alloc" && !x.preexists(f0, r) {
						return
					}
					mods[k] = true
					changed = true
					return
				}
				if r := rootOf(k); r.op == "alloc" && !x.preexists(f0, r) {
					return
				}
				mods[k] = true
				changed = true
			}
			for k, v := range b {
				if a[k] != v {
					if _, had := a[k]; !had && rootOf(k).op != "alloc" {
						// first write to memory not seen before
						if old := x.load(&State{mem: headMem}, k, typeOfAddr(k)); old == v {
							continue
						}
					}
					consider(k)
				}
			}
			for k := range a {
				if _, ok := b[k]; !ok {
					consider(k)
				}
			}
		}
		if changed {
			continue
		}
		for _, v := range vars {
			v.nexts = nil
			for _, bk := range backs {
				if v.phi != nil {
					v.nexts = append(v.nexts, bk.env[v.phi])
				} else {
					n, ok := bk.st.mem.get(v.addr)
					if !ok {
						n = x.load(bk.st.clone(), v.addr, typeOfAddr(v.addr))
					}
					v.nexts = append(v.nexts, n)
				}
			}
		}
		if final {
			break
		}
		// phis that never change
		again := false
		for _, v := range vars {
			if v.phi == nil {
				continue
			}
			ok := true
			for _, n := range v.nexts {
				if n != v.sym && n != v.init {
					ok = false
				}
			}
			if ok {
				inv[v.phi] = true
				again = true
			}
		}
		if again {
			continue
		}
		nf := x.loopInvariants(f0, start, vars, backs)
		if len(nf) > len(invFacts) {
			invFacts = nf
			final = true
			continue
		}
		break
	}
	for _, bk := range backs {
		evs := bk.st.ev
		var sl []*Event
		for l := evs; l != nil; l = l.parent {
			if l.e.kind == "loop" && l.e.loop == li {
				break
			}
			sl = append(sl, l.e)
		}
		for i, j := 0, len(sl)-1; i < j; i, j = i+1, j-1 {
			sl[i], sl[j] = sl[j], sl[i]
		}
		li.iters = append(li.iters, &Path{Kind: "backedge", Facts: bk.st.facts.all(), Events: sl, St: bk.st, Pos: li.pos})
	}
	return exits
}

// unroll handles loops whose exit test is decided in every round
func (x *Exec) unroll(fr *frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, f0 *fst) ([]edge, bool) {
	if x.noUnroll {
		return nil, false
	}
	if !x.single && !exitTest(h, body) {
		return nil, false
	}
	limit := x.unrollMax
	if limit == 0 {
		limit = 70
	}
	most := x.unrollStates
	if most == 0 {
		most = 6
	}
	base := len(*fr.outs)
	steps := x.steps
	var exits []edge
	cur := []*fst{f0.clone()}
	for k := 0; ; k++ {
		if k > limit || len(cur) > most || x.failed != "" {
			break
		}
		decided := true
		for _, f := range cur {
			if x.single { // the code is followed once only
				break
			}
			g := f.clone()
			x.nested++
			o := len(*fr.outs)
			es := x.from(fr, h, 0, g)
			*fr.outs = (*fr.outs)[:o]
			x.nested--
			if len(es) != 1 {
				decided = false
			}
		}
		if !decided {
			break
		}
		ex, bk := x.region(fr, h, cur, body, h)
		exits = append(exits, ex...)
		if len(bk) == 0 {
			return exits, true
		}
		cur = x.merge(fr, h, bk)
		if x.steps-steps > x.maxSteps/3 {
			break
		}
	}
	if x.single {
		if debugLoops {
			println("loop", fr.fn.String(), h.Comment, x.steps, x.failed)
		}
		x.fail("a loop does not end")
		return nil, true
	}
	if x.failed == "" {
		*fr.outs = (*fr.outs)[:base]
	}
	x.steps = steps + (x.steps-steps)/10
	return nil, false
}

// exitTest: does the loop begin with a test that may leave it?
func exitTest(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	fi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if _, ok := fi.Cond.(*ssa.Const); ok {
		return false
	}
	for _, s := range h.Succs {
		if !body[s] {
			return true
		}
	}
	return false
}

func typeOfAddr(a *T) types.Type {
	if a.typ == nil {
		return nil
	}
	return deref(a.typ)
}

// preexists: was the allocation made before the loop was entered?
func (x *Exec) preexists(f *fst, r *T) bool {
	n := allocNum(r)
	return n <= x.allocMark(f)
}

func allocNum(r *T) int {
	i := strings.LastIndexByte(r.aux, '@')
	n := 0
	for _, c := range r.aux[i+1:] {
		n = n*10 + int(c-'0')
	}
	return n
}

// allocMark: the number of the newest allocation visible in f
func (x *Exec) allocMark(f *fst) int {
	m := 0
	see := func(t *T) {
		t.contains(func(y *T) bool {
			if y.op == "alloc" {
				if n := allocNum(y); n > m {
					m = n
				}
			}
			return false
		})
	}
	for _, t := range f.env {
		if t != nil {
			see(t)
		}
	}
	for a, v := range f.st.mem.flat() {
		see(a)
		see(v)
	}
	return m
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return token.NoPos
}

// loopInvariants finds inductive linear facts about the loop variables
func (x *Exec) loopInvariants(f0, start *fst, vars []*LoopVar, backs []*fst) []*T {
	var out []*T
	if len(backs) == 0 {
		return nil
	}
	k64 := ikind{64, true}
	type stepped struct {
		v     *LoopVar
		steps []int64
	}
	var sv []stepped
	for _, v := range vars {
		if v.sym.typ == nil || !isIntType(v.sym.typ) {
			continue
		}
		ok := true
		var steps []int64
		for _, n := range v.nexts {
			d, isc := constDiff(n, v.sym)
			if !isc {
				ok = false
				break
			}
			steps = append(steps, d)
		}
		if !ok {
			continue
		}
		sv = append(sv, stepped{v, steps})
		up, down := true, true
		for _, s := range steps {
			if s < 0 {
				up = false
			}
			if s > 0 {
				down = false
			}
		}
		ki, _ := kindOf(v.sym.typ)
		if up && ki.signed {
			out = append(out, mkLe0(toLin(v.init, k64).addScaled(toLin(v.sym, k64), big.NewInt(-1))))
		}
		if down {
			out = append(out, mkLe0(toLin(v.sym, k64).addScaled(toLin(v.init, k64), big.NewInt(-1))))
		}
	}
	// proportional variables
	for i := range sv {
		for j := i + 1; j < len(sv); j++ {
			a, b := sv[i], sv[j]
			var ca, cb int64
			ok := true
			for k := range a.steps {
				if ca == 0 && cb == 0 {
					ca, cb = a.steps[k], b.steps[k]
				}
				if a.steps[k]*cb != b.steps[k]*ca {
					ok = false
				}
			}
			if !ok || ca == 0 || cb == 0 {
				continue
			}
			l := &linform{k: k64, c: new(big.Int)}
			l = l.addScaled(toLin(a.v.sym, k64), big.NewInt(cb))
			l = l.addScaled(toLin(a.v.init, k64), big.NewInt(-cb))
			l = l.addScaled(toLin(b.v.sym, k64), big.NewInt(-ca))
			l = l.addScaled(toLin(b.v.init, k64), big.NewInt(ca))
			out = append(out, mkLe0(l), mkLe0((&linform{k: k64, c: new(big.Int)}).addScaled(l, big.NewInt(-1))))
		}
	}
	// guards, weakened by the step: candidates that are checked for induction
	subst := func(l *linform, get func(*LoopVar) *T) *linform {
		r := &linform{k: k64, c: new(big.Int).Set(l.c)}
		for i, a := range l.atoms {
			t := a
			for _, v := range vars {
				if v.sym == a {
					t = get(v)
				}
			}
			if t == nil {
				return nil
			}
			r = r.addScaled(toLin(t, k64), l.coef[i])
		}
		return r
	}
	cands := map[*T]bool{}
	var order []*T
	for bi, bk := range backs {
		for _, t := range bk.st.facts.all() {
			if t.op != "le0" || start.st.facts.has(t) {
				continue
			}
			l := lin64(t.args[0])
			uses := false
			ok := true
			for _, a := range l.atoms {
				isv := false
				for _, v := range vars {
					if v.sym == a {
						isv = true
					}
				}
				if isv {
					uses = true
				} else if x.newerThan(f0, a) {
					ok = false
				}
			}
			if !uses || !ok {
				continue
			}
			// express the fact over the next values: l(v) with v = next - step
			r := &linform{k: k64, c: new(big.Int).Set(l.c)}
			good := true
			for i, a := range l.atoms {
				var lv *LoopVar
				for _, v := range vars {
					if v.sym == a {
						lv = v
					}
				}
				r = r.addScaled(toLin(a, k64), l.coef[i])
				if lv != nil {
					d, isc := constDiff(lv.nexts[bi], lv.sym)
					if !isc {
						good = false
						break
					}
					r.c.Sub(r.c, new(big.Int).Mul(l.coef[i], big.NewInt(d)))
				}
			}
			if !good {
				continue
			}
			c := mkLe0(r)
			if !cands[c] {
				cands[c] = true
				order = append(order, c)
			}
		}
	}
	base := append([]*T(nil), out...)
	kept := order
	for {
		var next []*T
		for _, c := range kept {
			l := lin64(c.args[0])
			il := subst(l, func(v *LoopVar) *T { return v.init })
			if il == nil || !contradicts(f0.st.facts.all(), mkNot(mkLe0(il))) && !mkLe0(il).isTrue() {
				continue
			}
			ok := true
			for bi, bk := range backs {
				nl := subst(l, func(v *LoopVar) *T { return v.nexts[bi] })
				if nl == nil {
					ok = false
					break
				}
				g := mkLe0(nl)
				if g.isTrue() {
					continue
				}
				fs := append(append(append([]*T(nil), bk.st.facts.all()...), base...), kept...)
				if !contradicts(fs, mkNot(g)) {
					ok = false
					break
				}
			}
			if ok {
				next = append(next, c)
			}
		}
		if len(next) == len(kept) {
			break
		}
		kept = next
	}
	return append(out, kept...)
}

// newerThan: does the atom depend on values computed inside the loop?
func (x *Exec) newerThan(f0 *fst, a *T) bool {
	m := 0
	see := func(t *T) {
		t.contains(func(y *T) bool {
			if y.op == "sym" {
				i := strings.LastIndexByte(y.aux, '#')
				n := 0
				if i >= 0 {
					for _, c := range y.aux[i+1:] {
						n = n*10 + int(c-'0')
					}
				}
				if n > m {
					m = n
				}
			}
			return false
		})
	}
	see(a)
	am := m
	m = 0
	for _, t := range f0.env {
		if t != nil {
			see(t)
		}
	}
	for k, v := range f0.st.mem.flat() {
		see(k)
		see(v)
	}
	for _, t := range f0.st.facts.all() {
		see(t)
	}
	return am > m
}

// block interprets one block and returns the edges taken
func (x *Exec) block(fr *frame, b *ssa.BasicBlock, f *fst) []edge {
	return x.from(fr, b, 0, f.clone())
}

func (x *Exec) from(fr *frame, b *ssa.BasicBlock, idx int, f *fst) []edge {
	for i := idx; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > x.maxSteps {
			x.fail("analysis budget exhausted in %s", fr.fn)
			return nil
		}
		ins := b.Instrs[i]
		if x.onInstr != nil {
			x.onInstr(fr.fn, ins, f.st, func(v ssa.Value) *T { return x.eval(f, v) })
		}
		switch ins := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := x.eval(f, ins.Cond)
			var out []edge
			t, e := x.split(f, c)
			if t != nil {
				x.evalPhis(b, b.Succs[0], t)
				out = append(out, edge{b, b.Succs[0], t})
			}
			if e != nil {
				x.evalPhis(b, b.Succs[1], e)
				out = append(out, edge{b, b.Succs[1], e})
			}
			return out
		case *ssa.Jump:
			x.evalPhis(b, b.Succs[0], f)
			return []edge{{b, b.Succs[0], f}}
		case *ssa.Return:
			var rs []*T
			for _, r := range ins.Results {
				rs = append(rs, x.eval(f, r))
			}
			*fr.outs = append(*fr.outs, outcome{st: f.st, rets: rs, pos: ins.Pos()})
			return nil
		case *ssa.Panic:
			v := x.eval(f, ins.X)
			f.st.ev = f.st.ev.push(&Event{kind: "panic", args: []*T{v}, pos: ins.Pos(), fn: fr.fn, mem: f.st.mem, st: f.st.clone()})
			for _, o := range x.runDefers(fr, f) {
				*fr.outs = append(*fr.outs, outcome{st: o.st, panic: true, pos: ins.Pos()})
			}
			return nil
		case *ssa.RunDefers:
			outs := x.runDefers(fr, f)
			if len(outs) == 1 && !outs[0].panic {
				f.st = outs[0].st
				f.defers = nil
				continue
			}
			var es []edge
			for _, o := range outs {
				if o.panic {
					*fr.outs = append(*fr.outs, o)
					continue
				}
				g := f.clone()
				g.st = o.st
				g.defers = nil
				es = append(es, x.from(fr, b, i+1, g)...)
			}
			return es
		case *ssa.Defer:
			fnv, args := x.callee(f, &ins.Call)
			f.defers = &deferred{f.defers, &ins.Call, fnv, args, ins.Pos()}
			continue
		case *ssa.Go:
			fnv, args := x.callee(f, &ins.Call)
			name := calleeName(&ins.Call, fnv)
			f.st.ev = f.st.ev.push(&Event{kind: "go", name: name, args: append([]*T{fnv}, args...), pos: ins.Pos(), fn: fr.fn, mem: f.st.mem, st: f.st.clone()})
			x.escape(f.st, fnv)
			for _, a := range args {
				x.escape(f.st, a)
			}
			continue
		case *ssa.Call:
			outs := x.call(fr, f, ins)
			if x.ifConvert {
				outs = x.joinOuts(outs)
			}
			if len(outs) == 1 && !outs[0].panic {
				f.st = outs[0].st
				f.env[ins] = tuple(outs[0].rets, ins.Type())
				continue
			}
			var es []edge
			for _, o := range outs {
				g := f.clone()
				g.st = o.st
				if o.panic {
					for _, d := range x.runDefers(fr, g) {
						*fr.outs = append(*fr.outs, outcome{st: d.st, panic: true, pos: o.pos})
					}
					continue
				}
				g.env[ins] = tuple(o.rets, ins.Type())
				es = append(es, x.from(fr, b, i+1, g)...)
			}
			return es
		case *ssa.Select:
			var es []edge
			for _, g := range x.selectStmt(fr, f, ins) {
				es = append(es, x.from(fr, b, i+1, g)...)
			}
			return es
		case *ssa.TypeAssert:
			gs := x.typeAssert(fr, f, ins)
			if len(gs) == 1 {
				f = gs[0]
				continue
			}
			var es []edge
			for _, g := range gs {
				es = append(es, x.from(fr, b, i+1, g)...)
			}
			return es
		case *ssa.Next:
			ok := x.fresh("next.ok", types.Typ[types.Bool])
			it := x.eval(f, ins.Iter)
			tt := ins.Type().(*types.Tuple)
			if x.single && it.op == "iter" && it.aux != "" {
				f.env[ins] = x.mapNext(f.st, it, tt)
				continue
			}
			k := x.fresh("next.k", tt.At(1).Type())
			v := x.fresh("next.v", tt.At(2).Type())
			if !ins.IsString && it.op == "iter" {
				k = mk("mapkey", ok.aux, tt.At(1).Type(), it.args[0])
				v = mk("mapval", ok.aux, tt.At(2).Type(), it.args[0], k)
				if mt, isMap := it.args[0].typ.(interface{ Underlying() types.Type }); isMap && it.args[0].typ != nil {
					if m, ok2 := mt.Underlying().(*types.Map); ok2 {
						v.typ = m.Elem()
						k.typ = m.Key()
					}
				}
				f.st.ev = f.st.ev.push(&Event{kind: "mapnext", args: []*T{it.args[0]}, res: []*T{k, v}, pos: ins.Pos(), fn: fr.fn, mem: f.st.mem})
			}
			f.env[ins] = mk("tuple", "", nil, ok, k, v)
			continue
		default:
			x.instr(fr, f, ins)
		}
	}
	return nil
}

func tuple(rs []*T, t types.Type) *T {
	if tt, ok := t.(*types.Tuple); ok {
		_ = tt
		return mk("tuple", "", nil, rs...)
	}
	if len(rs) == 1 {
		return rs[0]
	}
	return mk("tuple", "", nil, rs...)
}

// split refines the state by a branch condition; nil for an infeasible side
func (x *Exec) split(f *fst, c *T) (t, e *fst) {
	switch x.decide(f.st, c) {
	case 1:
		return f, nil
	case -1:
		return nil, f
	}
	t, e = f, f.clone()
	x.assume(t.st, c)
	x.assume(e.st, mkNot(c))
	return t, e
}

func (x *Exec) assume(st *State, c *T) {
	if c.isTrue() {
		return
	}
	if c.op == "andb" {
		for _, a := range c.args {
			x.assume(st, a)
		}
		return
	}
	if c.op == "not" && c.args[0].op == "orb" {
		for _, a := range c.args[0].args {
			x.assume(st, mkNot(a))
		}
		return
	}
	st.facts = st.facts.push(c)
}

// decide: 1 true, -1 false, 0 unknown
func (x *Exec) decide(st *State, c *T) int {
	if d := decide(st.facts, c); d != 0 || x.judge == nil {
		return d
	}
	return x.judge(c)
}

func decide(facts *Facts, c *T) int {
	if c.isTrue() {
		return 1
	}
	if c.isFalse() {
		return -1
	}
	n := mkNot(c)
	if a := c; a.op == "andb" || a.op == "not" && a.args[0].op == "andb" {
		pol := 1
		if a.op == "not" {
			a, pol = a.args[0], -1
		}
		all := true
		for _, p := range a.args {
			switch decide(facts, p) {
			case -1:
				return -pol
			case 0:
				all = false
			}
		}
		if all {
			return pol
		}
	}
	if a := c; a.op == "orb" || a.op == "not" && a.args[0].op == "orb" {
		pol := 1
		if a.op == "not" {
			a, pol = a.args[0], -1
		}
		none := true
		for _, p := range a.args {
			switch decide(facts, p) {
			case 1:
				return pol
			case 0:
				none = false
			}
		}
		if none {
			return -pol
		}
	}
	for g := facts; g != nil; g = g.parent {
		if g.t == c {
			return 1
		}
		if g.t == n {
			return -1
		}
	}
	p, pol := c, 1
	if c.op == "not" {
		p, pol = c.args[0], -1
	}
	if p.op == "eq" {
		for g := facts; g != nil; g = g.parent {
			if g.t.op == "eq" && g.t.args[0] == p.args[0] && g.t.args[1] != p.args[1] {
				if g.t.args[1].isConst() && p.args[1].isConst() {
					return -pol
				}
				if (g.t.args[1].isConst() || nonNil(g.t.args[1])) && p.args[1].isNil() || g.t.args[1].isNil() && (p.args[1].isConst() || nonNil(p.args[1])) {
					return -pol
				}
			}
			if p.args[1].isNil() && g.t.op == "typeis" && g.t.args[0] == p.args[0] {
				return -pol
			}
			// x == y known, compare against the other side
			if g.t.op == "eq" && !g.t.args[1].isConst() && !g.t.args[1].isNil() {
				var o *T
				if g.t.args[0] == p.args[0] {
					o = g.t.args[1]
				} else if g.t.args[1] == p.args[0] {
					o = g.t.args[0]
				}
				if o != nil {
					q := mkEq(o, p.args[1], o.typ)
					if q.isFalse() {
						return -pol
					}
					if q.isTrue() {
						return pol
					}
					if facts.has(mkNot(q)) {
						return -pol
					}
				}
			}
		}
	}
	if p.op == "typeis" {
		for g := facts; g != nil; g = g.parent {
			if g.t.op == "typeis" && g.t.args[0] == p.args[0] && g.t.aux != p.aux && concreteKey(g.t.aux) && concreteKey(p.aux) {
				return -pol
			}
			if g.t.op == "eq" && g.t.args[0] == p.args[0] && g.t.args[1].isNil() {
				return -pol
			}
		}
	}
	if arith(p) {
		fs := facts.all()
		if contradicts(fs, n) {
			return 1
		}
		if contradicts(fs, c) {
			return -1
		}
	}
	return 0
}

func concreteKey(k string) bool { return !strings.HasPrefix(k, "iface:") }

func arith(p *T) bool {
	switch p.op {
	case "le0", "ult":
		return true
	case "eq":
		_, ok := p.args[1].intVal()
		return ok
	}
	return false
}

func (x *Exec) runDefers(fr *frame, f *fst) []outcome {
	outs := []outcome{{st: f.st}}
	for d := f.defers; d != nil; d = d.parent {
		var next []outcome
		for _, o := range outs {
			g := f.clone()
			g.st = o.st
			for _, r := range x.apply(fr, g, d.call, d.fnv, d.args, d.pos, true) {
				next = append(next, outcome{st: r.st, panic: o.panic || r.panic, pos: d.pos})
			}
		}
		outs = next
	}
	return outs
}

// eval is the term of an SSA value
func (x *Exec) eval(f *fst, v ssa.Value) *T {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if v.Type() == nil {
				return mkNil()
			}
			return zeroOf(v.Type())
		}
		val := v.Value
		if isIntType(v.Type()) && val.Kind() == constant.Float {
			val = constant.ToInt(val)
		}
		return mkConst(val, v.Type())
	case *ssa.Global:
		return x.w.global(v)
	case *ssa.Function:
		t := mk("func", v.String(), v.Type())
		t.obj = v
		return t
	case *ssa.Builtin:
		return mk("builtin", v.Name(), nil)
	}
	t, ok := f.env[v]
	if !ok || t == nil {
		t = x.fresh("undef."+v.Name(), v.Type())
		f.env[v] = t
	}
	return t
}

func (w *World) global(g *ssa.Global) *T {
	t := mk("global", g.String(), g.Type())
	t.obj = g
	return t
}

func (x *Exec) instr(fr *frame, f *fst, ins ssa.Instruction) {
	st := f.st
	switch ins := ins.(type) {
	case *ssa.Alloc:
		et := deref(ins.Type())
		a := x.newAlloc(allocName(ins), et)
		f.env[ins] = a
	case *ssa.Store:
		a := x.eval(f, ins.Addr)
		v := x.eval(f, ins.Val)
		et := deref(ins.Addr.Type())
		x.nilObl(fr, st, a, ins.Pos())
		if x.storeEvents {
			if r := rootOf(a); r.op != "alloc" || x.shared(st, r) {
				st.ev = st.ev.push(&Event{kind: "store", args: []*T{a, v}, pos: ins.Pos(), fn: fr.fn, mem: st.mem, typ: et, st: st.clone()})
			}
		}
		x.store(st, a, v, et)
	case *ssa.UnOp:
		f.env[ins] = x.unop(fr, f, ins)
	case *ssa.BinOp:
		f.env[ins] = x.binop(fr, f, ins)
	case *ssa.FieldAddr:
		p := x.eval(f, ins.X)
		x.nilObl(fr, st, p, ins.Pos())
		f.env[ins] = faddr(p, deref(ins.X.Type()), ins.Field)
	case *ssa.Field:
		f.env[ins] = structField(x.eval(f, ins.X), ins.X.Type(), ins.Field)
	case *ssa.IndexAddr:
		b := x.eval(f, ins.X)
		i := x.eval(f, ins.Index)
		et := deref(ins.Type())
		if _, ok := ins.X.Type().Underlying().(*types.Slice); ok {
			p := x.parts(b)
			x.oblige(fr, st, "index", inRange(i, p.len), ins.Pos())
			f.env[ins] = iaddr(p.base, plus(p.off, i), et)
		} else {
			n := arrayOf(deref(ins.X.Type())).Len()
			x.oblige(fr, st, "index", inRange(i, mkInt(n)), ins.Pos())
			f.env[ins] = iaddr(b, i, et)
		}
	case *ssa.Index:
		b := x.eval(f, ins.X)
		i := x.eval(f, ins.Index)
		if isStringT(ins.X.Type()) {
			x.oblige(fr, st, "index", inRange(i, strLen(b)), ins.Pos())
			f.env[ins] = cSel(strContent(b), i, ins.Type())
		} else {
			if a := arrayOf(ins.X.Type()); a != nil {
				x.oblige(fr, st, "index", inRange(i, mkInt(a.Len())), ins.Pos())
			}
			f.env[ins] = cSel(b, i, ins.Type())
		}
	case *ssa.Slice:
		f.env[ins] = x.sliceOp(fr, f, ins)
	case *ssa.MakeSlice:
		n := x.eval(f, ins.Len)
		c := x.eval(f, ins.Cap)
		x.oblige(fr, st, "make", leT(mkInt(0), n), ins.Pos())
		et := ins.Type().Underlying().(*types.Slice).Elem()
		x.nsym++
		a := mk("alloc", fmt.Sprintf("make@%d", x.nsym), nil)
		st.mem = st.mem.set(a, cZeros(c, zeroOf(et)))
		if a.obj == nil {
			a.obj = ins
		}
		f.env[ins] = mkSlice(a, mkInt(0), n, c, ins.Type())
	case *ssa.MakeMap:
		x.nsym++
		f.env[ins] = mk("mkmap", fmt.Sprintf("%d", x.nsym), ins.Type())
	case *ssa.MakeChan:
		x.nsym++
		t := mk("mkchan", fmt.Sprintf("%d", x.nsym), ins.Type())
		t.obj = x.eval(f, ins.Size)
		f.env[ins] = t
	case *ssa.MakeClosure:
		var bs []*T
		for _, b := range ins.Bindings {
			bs = append(bs, x.eval(f, b))
		}
		fn := ins.Fn.(*ssa.Function)
		t := mk("closure", fn.String(), ins.Type(), bs...)
		t.obj = fn
		f.env[ins] = t
	case *ssa.MakeInterface:
		v := x.eval(f, ins.X)
		f.env[ins] = mkIface(ins.X.Type(), v)
	case *ssa.ChangeInterface:
		f.env[ins] = x.eval(f, ins.X)
	case *ssa.ChangeType:
		f.env[ins] = x.eval(f, ins.X)
	case *ssa.Convert:
		f.env[ins] = x.convert(f, ins)
	case *ssa.SliceToArrayPointer:
		p := x.parts(x.eval(f, ins.X))
		if o, ok := p.off.i64(); ok && o == 0 {
			f.env[ins] = p.base
		} else {
			f.env[ins] = x.fresh("arrayptr", ins.Type())
		}
	case *ssa.Extract:
		t := x.eval(f, ins.Tuple)
		if t.op == "tuple" {
			f.env[ins] = t.args[ins.Index]
		} else {
			f.env[ins] = mk("extract", fmt.Sprint(ins.Index), ins.Type(), t)
		}
	case *ssa.Lookup:
		m := x.eval(f, ins.X)
		k := x.eval(f, ins.Index)
		if isStringT(ins.X.Type()) {
			f.env[ins] = cSel(strContent(m), k, ins.Type())
			return
		}
		mt := ins.X.Type().Underlying().(*types.Map)
		v, ok := x.mapGet(f, m, k, mt, fr.fn, ins.Pos())
		if ins.CommaOk {
			f.env[ins] = mk("tuple", "", nil, v, ok)
		} else {
			f.env[ins] = v
		}
	case *ssa.MapUpdate:
		m, k, v := x.eval(f, ins.Map), x.eval(f, ins.Key), x.eval(f, ins.Value)
		if x.single {
			x.mapPut(st, m, k, v, ins.Map.Type())
			return
		}
		st.ev = st.ev.push(&Event{kind: "mapset", args: []*T{m, k, v}, pos: ins.Pos(), fn: fr.fn, mem: st.mem, st: st.clone()})
		x.escape(st, v)
		x.escape(st, k)
	case *ssa.Range:
		f.env[ins] = mk("iter", "", nil, x.eval(f, ins.X))
		if x.single && !isStringT(ins.X.Type()) {
			x.nsym++
			m := x.eval(f, ins.X)
			it := mk("iter", fmt.Sprint(x.nsym), nil, m)
			st.mem = st.mem.set(it, mkInt(0))
			f.env[ins] = it
		}
	case *ssa.Send:
		c, v := x.eval(f, ins.Chan), x.eval(f, ins.X)
		st.ev = st.ev.push(&Event{kind: "send", args: []*T{c, v}, pos: ins.Pos(), fn: fr.fn, mem: st.mem, st: st.clone()})
		x.escape(st, v)
		x.havocShared(st)
	default:
		x.fail("unsupported instruction %T in %s", ins, fr.fn)
	}
}

func mkIface(t types.Type, v *T) *T {
	r := mk("iface", types.TypeString(t, nil), nil, v)
	r.obj = t
	return r
}

func allocName(a *ssa.Alloc) string {
	if a.Comment != "" {
		return strings.Map(func(r rune) rune {
			if r == '@' {
				return '_'
			}
			return r
		}, a.Comment)
	}
	return a.Name()
}

func leT(a, b *T) *T { return mkNot(mkLt(b, a, intT)) }

func mkAnd(cs ...*T) *T {
	var out []*T
	for _, c := range cs {
		if c.isFalse() {
			return c
		}
		if c.isTrue() {
			continue
		}
		out = append(out, c)
	}
	if len(out) == 0 {
		return mkBool(true)
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("andb", "", types.Typ[types.Bool], out...)
}

func inRange(i, n *T) *T { return mkAnd(leT(mkInt(0), i), mkLt(i, n, intT)) }

// holds: do the facts imply the condition?
func holds(facts *Facts, c *T) bool {
	if c.op == "andb" {
		for _, a := range c.args {
			if !holds(facts, a) {
				return false
			}
		}
		return true
	}
	return decide(facts, c) == 1
}

func (x *Exec) oblige(fr *frame, st *State, what string, cond *T, pos token.Pos) {
	if x.boundsObl == nil {
		if x.single && cond == mkBool(false) {
			x.fail("%s out of range in %s (%s)", what, fnName(fr.fn), x.w.prog.Fset.Position(pos))
		}
		return
	}
	x.boundsObl(&Obligation{fn: fr.fn, pos: pos, what: what, cond: cond, st: st})
	// past the check, the condition holds
	cs := []*T{cond}
	if cond.op == "andb" {
		cs = cond.args
	}
	for _, c := range cs {
		if !c.isConst() {
			st.facts = st.facts.push(c)
		}
	}
}

// nilObl: a pointer is followed
func (x *Exec) nilObl(fr *frame, st *State, p *T, pos token.Pos) {
	if x.single && p.isNil() && !x.inInit {
		x.fail("a nil pointer is followed in %s (%s)", fnName(fr.fn), x.w.prog.Fset.Position(pos))
	}
}

// mapGet reads a map; a set of the same key earlier on the path is found
// ---- maps, entry by entry ----

// mapKeys: the entries of a map as key, value, key, value...
func (x *Exec) mapEntries(st *State, m *T) []*T {
	if v, ok := st.mem.get(mk("mapcell", "", nil, m)); ok {
		return v.args
	}
	return nil
}

func (x *Exec) mapFind(st *State, m, k *T, kt types.Type) (es []*T, at int) {
	es = x.mapEntries(st, m)
	if m.op != "mkmap" && !m.isNil() {
		x.fail("a map that was not made here")
	}
	for i := 0; i < len(es); i += 2 {
		e := x.eqVal(st, es[i], k, kt)
		if e.isTrue() {
			return es, i
		}
		if !e.isFalse() {
			x.fail("map keys cannot be told apart")
		}
	}
	return es, -1
}

func (x *Exec) mapPut(st *State, m, k, v *T, t types.Type) {
	es, i := x.mapFind(st, m, k, t.Underlying().(*types.Map).Key())
	es = append([]*T{}, es...)
	if i < 0 {
		es = append(es, k, v)
	} else {
		es[i+1] = v
	}
	st.mem = st.mem.set(mk("mapcell", "", nil, m), mk("mapv", "", nil, es...))
}

func (x *Exec) mapDel(st *State, m, k *T, t types.Type) {
	es, i := x.mapFind(st, m, k, t.Underlying().(*types.Map).Key())
	if i >= 0 {
		es = append(append([]*T{}, es[:i]...), es[i+2:]...)
		st.mem = st.mem.set(mk("mapcell", "", nil, m), mk("mapv", "", nil, es...))
	}
}

// mapNext: entries come in the order they were added; a rule that depends
// on the order would have to try others
func (x *Exec) mapNext(st *State, it *T, tt *types.Tuple) *T {
	n, _ := st.mem.get(it)
	i, _ := n.i64()
	es := x.mapEntries(st, it.args[0])
	if int(i) >= len(es) {
		return mk("tuple", "", nil, mkBool(false), mkNil(), mkNil())
	}
	st.mem = st.mem.set(it, mkInt(i+2))
	if x.backwards {
		i = int64(len(es)) - 2 - i
	}
	return mk("tuple", "", nil, mkBool(true), es[i], es[i+1])
}

func (x *Exec) mapGet(f *fst, m, k *T, mt *types.Map, fn *ssa.Function, pos token.Pos) (v, ok *T) {
	if x.single {
		es, i := x.mapFind(f.st, m, k, mt.Key())
		if i < 0 {
			return zeroOf(mt.Elem()), mkBool(false)
		}
		return es[i+1], mkBool(true)
	}
	for l := f.st.ev; l != nil; l = l.parent {
		e := l.e
		if e.kind == "loop" {
			if loopTouches(e.loop, m) {
				break
			}
			continue
		}
		if e.kind == "mapset" && e.args[0] == m {
			if e.args[1] == k {
				return e.args[2], mkBool(true)
			}
			if mkEq(e.args[1], k, mt.Key()).isFalse() {
				continue
			}
			break
		}
		if e.kind == "mapdel" && e.args[0] == m {
			if e.args[1] == k {
				return zeroOf(mt.Elem()), mkBool(false)
			}
			break
		}
		if e.kind == "mapget" && e.args[0] == m && e.args[1] == k && m.op == "mkmap" {
			return e.res[0], e.res[1]
		}
		if e.kind == "lock" || e.kind == "recv" || e.kind == "select" {
			break
		}
	}
	if m.op == "mkmap" {
		found := false
		for l := f.st.ev; l != nil; l = l.parent {
			if l.e.kind == "loop" || (l.e.kind == "mapset" && l.e.args[0] == m) || (l.e.kind == "call" && anyHas(l.e.args, m)) {
				found = true
				break
			}
		}
		if !found {
			return zeroOf(mt.Elem()), mkBool(false)
		}
	}
	v = x.fresh("mapval", mt.Elem())
	ok = x.fresh("mapok", types.Typ[types.Bool])
	f.st.ev = f.st.ev.push(&Event{kind: "mapget", args: []*T{m, k}, res: []*T{v, ok}, pos: pos, fn: fn, mem: f.st.mem})
	if z := zeroOf(mt.Elem()); z.isConst() || z.isNil() {
		// a missing key reads as zero
		f.st.facts = f.st.facts.push(mk("orb", "", types.Typ[types.Bool], ok, mkEq(v, z, mt.Elem())))
	}
	return v, ok
}

func anyHas(ts []*T, x *T) bool {
	for _, t := range ts {
		if t.has(x) {
			return true
		}
	}
	return false
}

func loopTouches(l *LoopInfo, m *T) bool {
	for _, it := range l.iters {
		for _, e := range it.Events {
			if (e.kind == "mapset" || e.kind == "mapdel") && e.args[0] == m {
				return true
			}
			if e.kind == "loop" && loopTouches(e.loop, m) {
				return true
			}
		}
	}
	return len(l.iters) == 0
}

func (x *Exec) unop(fr *frame, f *fst, ins *ssa.UnOp) *T {
	v := x.eval(f, ins.X)
	switch ins.Op {
	case token.MUL:
		x.nilObl(fr, f.st, v, ins.Pos())
		if x.onInstr != nil {
			_ = v
		}
		return x.load(f.st, v, ins.Type())
	case token.NOT:
		return mkNot(v)
	case token.SUB:
		if isIntType(ins.Type()) {
			return mkSub(mkInt(0), v, ins.Type())
		}
		return mk("neg", "", ins.Type(), v)
	case token.XOR:
		k, _ := kindOf(ins.Type())
		if c, ok := v.intVal(); ok {
			return mkConst(constant.Make(k.wrap(new(big.Int).Not(c))), ins.Type())
		}
		return mkSub(mkInt(-1), v, ins.Type())
	case token.ARROW:
		r := x.fresh("recv", ins.Type())
		res := []*T{r}
		if ins.CommaOk {
			el := ins.Type().(*types.Tuple)
			a, b := x.fresh("recv", el.At(0).Type()), x.fresh("recvok", el.At(1).Type())
			res = []*T{a, b}
			r = mk("tuple", "", nil, a, b)
		}
		f.st.ev = f.st.ev.push(&Event{kind: "recv", args: []*T{v}, res: res, pos: ins.Pos(), fn: fr.fn, mem: f.st.mem, st: f.st.clone()})
		x.havocShared(f.st)
		return r
	}
	return mk("unop", ins.Op.String(), ins.Type(), v)
}

// wrapped keeps a result that leaves its range apart from the number it
// would be
func (x *Exec) wrapped(v, a, b *T, ins *ssa.BinOp) *T {
	if x.fits == nil || v.isConst() {
		return v
	}
	if k, ok := kindOf(ins.Type()); ok && !x.fits(ins.Op, a, b, k) {
		return mk("conv", k.String(), ins.Type(), v)
	}
	return v
}

func (x *Exec) binop(fr *frame, f *fst, ins *ssa.BinOp) *T {
	a, b := x.eval(f, ins.X), x.eval(f, ins.Y)
	t := ins.X.Type()
	switch ins.Op {
	case token.EQL:
		return x.eqVal(f.st, a, b, t)
	case token.NEQ:
		return mkNot(x.eqVal(f.st, a, b, t))
	case token.LSS:
		return mkLt(a, b, t)
	case token.GTR:
		return mkLt(b, a, t)
	case token.LEQ:
		return mkNot(mkLt(b, a, t))
	case token.GEQ:
		return mkNot(mkLt(a, b, t))
	case token.ADD:
		if isStringT(t) {
			return mkString(cCat(strContent(a), strContent(b)))
		}
		if isIntType(t) {
			return x.wrapped(mkAdd(a, b, ins.Type()), a, b, ins)
		}
	case token.SUB:
		if isIntType(t) {
			return x.wrapped(mkSub(a, b, ins.Type()), a, b, ins)
		}
	case token.MUL:
		if isIntType(t) {
			return x.wrapped(mkMul(a, b, ins.Type()), a, b, ins)
		}
	case token.SHL:
		k, _ := kindOf(ins.Type())
		if n, ok := b.i64(); ok && isIntType(t) && n >= 0 {
			if n >= int64(k.bits) {
				return mkInt(0)
			}
			return mkMul(mkBig(new(big.Int).Lsh(big.NewInt(1), uint(n))), a, ins.Type())
		}
		return mk("shl", k.String(), ins.Type(), a, b)
	}
	if isIntType(t) {
		if av, ok := a.intVal(); ok {
			if bv, ok := b.intVal(); ok {
				if r := foldInt(ins.Op, av, bv, t); r != nil {
					return mkConst(constant.Make(r), ins.Type())
				}
			}
		}
		k, _ := kindOf(ins.Type())
		switch ins.Op {
		case token.QUO:
			if v, ok := b.i64(); ok && v == 1 {
				return a
			}
			x.oblige(fr, f.st, "div", mkNot(mkEq(b, mkInt(0), t)), ins.Pos())
			return mk("quo", k.String(), ins.Type(), a, b)
		case token.REM:
			x.oblige(fr, f.st, "div", mkNot(mkEq(b, mkInt(0), t)), ins.Pos())
			return mk("rem", k.String(), ins.Type(), a, b)
		case token.SHR:
			if v, ok := b.i64(); ok && v == 0 {
				return a
			}
			return mk("shr", k.String(), ins.Type(), a, b)
		case token.AND:
			return mkBits("and", k, ins.Type(), a, b)
		case token.OR:
			return mkBits("or", k, ins.Type(), a, b)
		case token.XOR:
			return mkBits("xor", k, ins.Type(), a, b)
		case token.AND_NOT:
			if v, ok := b.intVal(); ok {
				return mkBits("and", k, ins.Type(), a, mkConst(constant.Make(k.wrap(new(big.Int).Not(v))), ins.Type()))
			}
			return mk("andnot", k.String(), ins.Type(), a, b)
		}
	}
	if a.isConst() && b.isConst() && isFloatType(t) {
		if v := constant.BinaryOp(a.val, ins.Op, b.val); v.Kind() != constant.Unknown {
			return mkConst(v, ins.Type())
		}
	}
	return mk("bin", ins.Op.String(), ins.Type(), a, b)
}

func mkBits(op string, k ikind, t types.Type, a, b *T) *T {
	if a.isConst() || (!b.isConst() && a.id > b.id) {
		a, b = b, a
	}
	if v, ok := b.intVal(); ok {
		z := v.Sign() == 0
		switch op {
		case "and":
			if z {
				return mkInt(0)
			}
			if v.Cmp(k.max()) == 0 && !k.signed || v.Cmp(big.NewInt(-1)) == 0 {
				return a
			}
		case "or", "xor":
			if z {
				return a
			}
		}
	}
	if a == b {
		switch op {
		case "and", "or":
			return a
		case "xor":
			return mkInt(0)
		}
	}
	return mk(op, k.String(), t, a, b)
}

func foldInt(op token.Token, a, b *big.Int, t types.Type) *big.Int {
	k, _ := kindOf(t)
	r := new(big.Int)
	switch op {
	case token.QUO:
		if b.Sign() == 0 {
			return nil
		}
		r.Quo(a, b)
	case token.REM:
		if b.Sign() == 0 {
			return nil
		}
		r.Rem(a, b)
	case token.AND:
		r.And(a, b)
	case token.OR:
		r.Or(a, b)
	case token.XOR:
		r.Xor(a, b)
	case token.AND_NOT:
		r.AndNot(a, b)
	case token.SHR:
		if !b.IsInt64() {
			return nil
		}
		n := b.Int64()
		if n > 1000 {
			n = 1000
		}
		r.Rsh(a, uint(n))
	case token.SHL:
		if !b.IsInt64() || b.Int64() > 1000 {
			return nil
		}
		r.Lsh(a, uint(b.Int64()))
	default:
		return nil
	}
	return k.wrap(r)
}

// eqVal compares values; strings and arrays by content
func (x *Exec) eqVal(st *State, a, b *T, t types.Type) *T {
	if isStringT(t) {
		return mkEq(a, b, strT())
	}
	if arrayOf(t) != nil {
		return contentEq(a, b)
	}
	if s := structOf(t); s != nil {
		var cs []*T
		for i := 0; i < s.NumFields(); i++ {
			cs = append(cs, x.eqVal(st, structField(a, t, i), structField(b, t, i), s.Field(i).Type()))
		}
		return mkAnd(cs...)
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		// only comparable to nil
		s := a
		if a.isNil() {
			s = b
		}
		if s.op == "slice" {
			base := s.args[0]
			if nonNil(base) {
				return mkBool(false)
			}
			if base.op == "sbase" {
				return mkEq(base.args[0], mkNil(), t)
			}
		}
		return mkEq(a, b, t)
	}
	return mkEq(a, b, t)
}

// contentEq compares two contents of equal length
func contentEq(a, b *T) *T {
	if a == b {
		return mkBool(true)
	}
	return mkEq(mkString(a), mkString(b), strT())
}

func (x *Exec) sliceOp(fr *frame, f *fst, ins *ssa.Slice) *T {
	v := x.eval(f, ins.X)
	var lo, hi, mx *T
	if ins.Low != nil {
		lo = x.eval(f, ins.Low)
	} else {
		lo = mkInt(0)
	}
	if ins.High != nil {
		hi = x.eval(f, ins.High)
	}
	if ins.Max != nil {
		mx = x.eval(f, ins.Max)
	}
	if isStringT(ins.X.Type()) {
		n := strLen(v)
		if hi == nil {
			hi = n
		}
		x.oblige(fr, f.st, "slice", mkAnd(leT(mkInt(0), lo), leT(lo, hi), leT(hi, n)), ins.Pos())
		return mkString(cSub(strContent(v), lo, minus(hi, lo)))
	}
	var p sliceParts
	if _, ok := ins.X.Type().Underlying().(*types.Slice); ok {
		if ins.Low == nil && ins.High == nil && ins.Max == nil {
			return v
		}
		p = x.parts(v)
		if v.isNil() && lo == mkInt(0) && (hi == nil || hi == mkInt(0)) {
			return v
		}
	} else {
		n := mkInt(arrayOf(deref(ins.X.Type())).Len())
		p = sliceParts{v, mkInt(0), n, n}
	}
	if hi == nil {
		hi = p.len
	}
	limit := p.cap
	if mx != nil {
		x.oblige(fr, f.st, "slice", mkAnd(leT(mkInt(0), lo), leT(lo, hi), leT(hi, mx), leT(mx, limit)), ins.Pos())
	} else if hi == p.len {
		x.oblige(fr, f.st, "slice", mkAnd(leT(mkInt(0), lo), leT(lo, hi)), ins.Pos())
		mx = p.cap
	} else {
		x.oblige(fr, f.st, "slice", mkAnd(leT(mkInt(0), lo), leT(lo, hi), leT(hi, limit)), ins.Pos())
		mx = p.cap
	}
	return mkSlice(p.base, plus(p.off, lo), minus(hi, lo), minus(mx, lo), ins.Type())
}

func (x *Exec) convert(f *fst, ins *ssa.Convert) *T {
	v := x.eval(f, ins.X)
	return x.conv(f.st, v, ins.X.Type(), ins.Type())
}

func (x *Exec) conv(st *State, v *T, from, to types.Type) *T {
	if isIntType(from) && isIntType(to) {
		return intConv(v, from, to)
	}
	if isStringT(to) {
		if sl, ok := from.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return mkString(x.content(st, v))
			}
		}
		if isStringT(from) {
			return v
		}
		return mk("conv", "string", to, v)
	}
	if isStringT(from) {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return x.newBytes(st, strContent(v), to)
			}
		}
	}
	if v.isConst() && (isFloatType(to) || isIntType(to)) {
		if isFloatType(to) {
			return mkConst(constant.ToFloat(v.val), to)
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return mk("conv", "ptr", to, v)
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return mk("conv", "ptr", to, v)
	}
	return mk("conv", types.TypeString(to.Underlying(), nil), to, v)
}

func intConv(v *T, from, to types.Type) *T {
	kf, _ := kindOf(from)
	kt, _ := kindOf(to)
	if c, ok := v.intVal(); ok {
		return mkConst(constant.Make(kt.wrap(c)), to)
	}
	if kf == kt {
		return v
	}
	preserving := kf.bits < kt.bits && (!kf.signed || kt.signed) || kf.bits == kt.bits && kf.signed == kt.signed
	if preserving {
		if v.op == "lin" {
			// a wrapped value of the small type: an atom of the large one
			w := mk("wide", kf.String(), from, v)
			return w
		}
		return v
	}
	if v.op == "wide" || v.op == "sel" || v.op == "sym" && v.typ != nil {
		// a small unsigned value held in a larger type
		ko, ok := kindOf(v.typ)
		if ok && !ko.signed && (ko.bits < kt.bits || ko.bits == kt.bits && !kt.signed) {
			return v
		}
	}
	if kf.bits == 64 && kt.bits == 64 || kf.bits == kt.bits {
		if v.op == "conv" && v.aux == kf.String() && sameBits(v.args[0], kt) {
			return v.args[0]
		}
		// lengths fit into either
		switch v.op {
		case "len", "clen", "cap":
			return v
		case "lin":
			if nonNegAtom(v) && v.lin.k.signed {
				l := &linform{k: kt, atoms: v.lin.atoms, coef: v.lin.coef, c: new(big.Int).Set(v.lin.c)}
				return l.term(to)
			}
		}
	}
	// truncation of a widening is the identity
	if kf.bits > kt.bits {
		if kv, ok := kindOf(v.typ); ok && v.typ != nil && kv == kt && v.op != "lin" {
			return v
		}
		if v.op == "wide" && v.aux == kt.String() {
			return v.args[0]
		}
	}
	return mk("conv", kt.String(), to, v)
}

func sameBits(t *T, k ikind) bool {
	kk, ok := kindOf(t.typ)
	return ok && t.typ != nil && kk == k
}

func (x *Exec) typeAssert(fr *frame, f *fst, ins *ssa.TypeAssert) []*fst {
	v := x.eval(f, ins.X)
	t := ins.AssertedType
	_, isI := t.Underlying().(*types.Interface)
	key := types.TypeString(t, nil)
	if isI {
		key = "iface:" + key
	}
	set := func(g *fst, val *T, ok bool) {
		if ins.CommaOk {
			g.env[ins] = mk("tuple", "", nil, val, mkBool(ok))
		} else {
			g.env[ins] = val
		}
	}
	if v.op == "iface" {
		dt := v.obj.(types.Type)
		ok := types.Identical(dt, t)
		if isI {
			ok = types.Implements(dt, t.Underlying().(*types.Interface))
		}
		if ok {
			if isI {
				set(f, v, true)
			} else {
				set(f, v.args[0], true)
			}
			return []*fst{f}
		}
		if ins.CommaOk {
			set(f, zeroOf(t), false)
			return []*fst{f}
		}
	}
	if v.isNil() && ins.CommaOk {
		set(f, zeroOf(t), false)
		return []*fst{f}
	}
	c := mk("typeis", key, types.Typ[types.Bool], v)
	var val *T
	if isI {
		val = v
	} else {
		val = mk("assert", key, t, v)
	}
	if !ins.CommaOk {
		x.oblige(fr, f.st, "assert", c, ins.Pos())
		x.assume(f.st, c)
		set(f, val, true)
		return []*fst{f}
	}
	a, b := x.split(f, c)
	var out []*fst
	if a != nil {
		set(a, val, true)
		out = append(out, a)
	}
	if b != nil {
		set(b, zeroOf(t), false)
		out = append(out, b)
	}
	return out
}

func (x *Exec) selectStmt(fr *frame, f *fst, ins *ssa.Select) []*fst {
	var out []*fst
	tt := ins.Type().(*types.Tuple)
	n := len(ins.States)
	ev := func(g *fst, idx int, rv *T, rok *T) {
		args := []*T{}
		var sig []string
		for _, s := range ins.States {
			c := x.eval(g, s.Chan)
			args = append(args, c)
			if s.Dir == types.SendOnly {
				args = append(args, x.eval(g, s.Send))
				sig = append(sig, "send")
			} else {
				args = append(args, mkNil())
				sig = append(sig, "recv")
			}
		}
		e := &Event{kind: "select", args: args, pos: ins.Pos(), fn: fr.fn, mem: g.st.mem, block: ins.Blocking, idx: idx, aux: strings.Join(sig, ","), st: g.st.clone()}
		if rv != nil {
			e.res = []*T{rv, rok}
		}
		g.st.ev = g.st.ev.push(e)
		if idx >= 0 && ins.States[idx].Dir == types.SendOnly {
			x.escape(g.st, x.eval(g, ins.States[idx].Send))
		}
		x.havocShared(g.st)
	}
	nr := 0
	recvSlot := make([]int, n)
	for i, s := range ins.States {
		recvSlot[i] = -1
		if s.Dir == types.RecvOnly {
			recvSlot[i] = 2 + nr
			nr++
		}
	}
	last := n
	if ins.Blocking {
		last = n - 1
	}
	for i := 0; i <= last; i++ {
		g := f.clone()
		idx := i
		if i == n {
			idx = -1
		}
		rok := x.fresh("selok", types.Typ[types.Bool])
		vals := []*T{mkInt(int64(idx)), rok}
		var rv *T
		for j := 2; j < tt.Len(); j++ {
			vals = append(vals, zeroOf(tt.At(j).Type()))
		}
		if idx >= 0 && recvSlot[idx] >= 0 {
			rv = x.fresh("selrecv", tt.At(recvSlot[idx]).Type())
			vals[recvSlot[idx]] = rv
		}
		ev(g, idx, rv, rok)
		g.env[ins] = mk("tuple", "", nil, vals...)
		out = append(out, g)
	}
	return out
}
