package main

// Histories: the abstract interpreter applied to sequences of calls, and
// C19, the persistent tree of the test chain.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hist interprets calls one after the other, each in the state the one
// before it left
type hist struct {
	c     *Check
	x     *Exec
	fail  string // why the interpretation could not go on
	types map[string]types.Type
}

func (c *Check) newHist(conf func(x *Exec)) (*hist, *State) {
	x := c.w.newExec()
	x.maxDepth = 60
	x.recLimit = 50
	x.unrollMax = 300
	x.growCap = true
	x.single = true
	if conf != nil {
		conf(x)
	}
	return &hist{c: c, x: x}, &State{mem: c.w.globalInit}
}

// call interprets fn; the state given is not changed
func (h *hist) call(st *State, fn *ssa.Function, args ...*T) []outcome {
	h.x.steps = 0
	outs := h.x.runFunc(fn, args, nil, st)
	if h.x.failed != "" {
		h.fail = fnName(fn) + ": " + h.x.failed
		h.x.failed = ""
		return nil
	}
	return outs
}

// one call that has a single outcome
func (h *hist) do(st *State, fn *ssa.Function, args ...*T) (*State, []*T, bool) {
	outs := h.call(st, fn, args...)
	if h.fail != "" {
		return nil, nil, false
	}
	if len(outs) != 1 {
		if os.Getenv("SA_DEBUG") != "" {
			for _, o := range outs {
				for f := o.st.facts; f != nil && (st.facts == nil || f.n > st.facts.n); f = f.parent {
					fmt.Fprintln(os.Stderr, "fact", clip(f.t.String(), 300))
				}
				fmt.Fprintln(os.Stderr, "rets", o.panic, clip(fmt.Sprint(o.rets), 300))
			}
		}
		h.fail = fmt.Sprintf("%s: %d outcomes", fnName(fn), len(outs))
		return nil, nil, false
	}
	if outs[0].panic {
		h.fail = fnName(fn) + " panics"
		return nil, nil, false
	}
	return outs[0].st, outs[0].rets, true
}

func init() {
	checks["C19"] = &CheckDef{
		title:     "Trees are maps whose snapshots never change",
		technique: "static abstract interpretation over SSA of all short operation histories with unknown values; order types of keys by data independence; comparison with persistent maps",
		explanation: "The methods of Tree are interpreted on histories: starting trees built in every insertion order of up to four keys, one larger tree, and the empty tree, then every sequence of insertions, deletions, snapshots, copies and rollbacks up to a depth on the tree and its copies. Values are unknown and distinct; " +
			"keys are unknown too, only their order is fixed: they are only compared (which is checked), so one order type stands for all keys in that order. After each step every key is looked up in the tree and in every copy, every snapshot is copied and looked up, and the iteration order is read.",
		assumptions: []string{"appending to a full slice moves it to a new array with spare capacity, as the Go runtime does"},
		min:         500,
		run:         runTree,
	}
}

type treeH struct {
	name  string
	addr  *T
	ref   map[string]string
	snaps []treeSnap
}

type treeSnap struct {
	id  *T
	ref map[string]string
}

func cpMap(m map[string]string) map[string]string {
	o := make(map[string]string, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}

type treeRun struct {
	*hist
	typ                                         types.Type
	ins, del, get, snap, copyAt, rollback, iter *ssa.Function
	keys                                        []string
	vals                                        int
	nodes, looks                                int
	bad                                         bool
}

func runTree(c *Check) {
	t := c.typ("tevm", "Tree")
	if t == nil {
		return
	}
	r := &treeRun{typ: t}
	for n, p := range map[string]**ssa.Function{"Insert": &r.ins, "Delete": &r.del, "Get": &r.get, "Snapshot": &r.snap, "CopyAt": &r.copyAt, "Rollback": &r.rollback, "Iterate": &r.iter} {
		*p = c.fn("tevm", "(*Tree)."+n)
		if *p == nil {
			return
		}
	}
	var st *State
	r.hist, st = c.newHist(func(x *Exec) {
		x.hook = func(fr *frame, st *State, fn *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
			// the order of the keys is all that is known of them
			if nm == "bytes.Compare" || nm == "bytes.Equal" {
				a, b := atomName(x.content(st, args[0]), "key:"), atomName(x.content(st, args[1]), "key:")
				if a != "?" && b != "?" {
					if nm == "bytes.Equal" {
						return one(st, mkBool(a == b)), true
					}
					return one(st, mkInt(int64(strings.Compare(a, b)))), true
				}
			}
			if fn == nil && len(args) == 3 && args[0].op == "sym" && strings.HasPrefix(args[0].aux, "visit") {
				st.ev = st.ev.push(&Event{kind: "call", name: "visit", args: args, pos: pos, fn: fr.fn, mem: st.mem, st: st.clone()})
				n := 0
				for _, e := range st.ev.slice(nil) {
					if e.name == "visit" {
						n++
					}
				}
				res := true
				if args[0].aux == fmt.Sprintf("visit%d", n) {
					res = false
				}
				return one(st, mkBool(res)), true
			}
			return nil, false
		}
	})
	// keys may only be compared
	c.keyIndependence(t)
	// starting trees
	starts := [][]string{nil}
	var perms func(p, rest []string)
	perms = func(p, rest []string) {
		if len(p) > 0 {
			starts = append(starts, append([]string{}, p...))
		}
		for i := range rest {
			q := append(append([]string{}, rest[:i]...), rest[i+1:]...)
			perms(append(p[:len(p):len(p)], rest[i]), q)
		}
	}
	perms(nil, []string{"b", "d", "f"})
	starts = append(starts, []string{"d", "b", "f", "a", "c", "e", "g"}, []string{"b", "a", "f", "d", "e", "c"},
		// long chains on either side
		[]string{"f", "g", "a", "b", "c", "d", "e"}, []string{"b", "a", "g", "f", "e", "d", "c"})
	for _, s := range starts {
		addr := r.x.newAlloc("tree", t)
		h := &treeH{name: "tree", addr: addr, ref: map[string]string{}}
		cur := st
		ok := true
		r.keys = []string{"b", "d", "f"}
		depth := 3
		if len(s) < 2 {
			depth = 4
		}
		if len(s) == 0 {
			r.keys = []string{"b", "d"}
		}
		if len(s) > 4 {
			r.keys = []string{"a", "b", "c", "d", "e", "f", "g"}
			depth = 2
		}
		trail := ""
		for _, k := range s {
			trail += " Insert(" + k + ")"
			if cur, ok = r.insert(cur, h, k); !ok {
				break
			}
		}
		if !ok {
			c.bad("analysis", "tree", r.ins.Pos(), "after%s: %s", trail, r.fail)
			return
		}
		r.explore(cur, []*treeH{h}, trail, depth)
		// the same with a snapshot taken half-way
		if len(s) > 1 {
			cur = st
			h = &treeH{name: "tree", addr: r.x.newAlloc("tree", t), ref: map[string]string{}}
			trail = ""
			for i, k := range s {
				if i == len(s)/2 || i == len(s)-1 {
					trail += " Snapshot()"
					if cur, ok = r.doSnap(cur, h); !ok {
						break
					}
				}
				trail += " Insert(" + k + ")"
				if cur, ok = r.insert(cur, h, k); !ok {
					break
				}
			}
			if !ok {
				c.bad("analysis", "tree", r.ins.Pos(), "after%s: %s", trail, r.fail)
				return
			}
			if len(s) == 3 {
				depth = 2
			}
			r.explore(cur, []*treeH{h}, trail, depth)
		}
		// and with one after every insertion
		if len(s) == 2 {
			cur = st
			h = &treeH{name: "tree", addr: r.x.newAlloc("tree", t), ref: map[string]string{}}
			trail = ""
			for _, k := range s {
				trail += " Insert(" + k + ") Snapshot()"
				if cur, ok = r.insert(cur, h, k); ok {
					cur, ok = r.doSnap(cur, h)
				}
				if !ok {
					break
				}
			}
			if !ok {
				c.bad("analysis", "tree", r.ins.Pos(), "after%s: %s", trail, r.fail)
				return
			}
			r.explore(cur, []*treeH{h}, trail, 3)
		}
		if r.bad {
			return
		}
	}
	c.obl += r.looks
	c.done += r.looks
	c.ob("histories", "tevm.Tree", r.ins.Pos(), r.nodes > 1000, "only %d histories were analysed", r.nodes)
	c.notes = append(c.notes, fmt.Sprintf("%d histories, %d lookups", r.nodes, r.looks))
}

// keyIndependence: keys and values are compared by the standard comparison
// and stored, nothing else
func (c *Check) keyIndependence(t types.Type) {
	n := 0
	for _, f := range c.w.fns {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/tevm" || f.Signature.Recv() == nil || !types.Identical(deref(f.Signature.Recv().Type()), t) {
			continue
		}
		c.fns[fnName(f)] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ia, ok := ins.(*ssa.IndexAddr); ok {
					if s, ok := ia.X.Type().Underlying().(*types.Slice); ok {
						if bb, ok := s.Elem().Underlying().(*types.Basic); ok && bb.Kind() == types.Uint8 {
							n++
							c.bad("independence", fnName(f), ins.Pos(), "the bytes of a key or value are inspected: the order of keys no longer determines what the tree does")
						}
					}
				}
			}
		}
	}
	c.ob("independence", "tevm.Tree", token.NoPos, n == 0, "keys are used for more than comparisons")
}

// atomName: which of the unknown keys or values a content is
func atomName(c *T, kind string) string {
	if c.op == "sub" && c == strContent(c.args[0]) {
		if s := c.args[0]; s.op == "sym" && strings.HasPrefix(s.aux, kind) {
			return strings.TrimPrefix(s.aux, kind)
		}
	}
	return "?"
}

func (r *treeRun) key(st *State, k string) (*State, *T) {
	st = st.clone()
	return st, r.x.newBytes(st, strContent(mk("sym", "key:"+k, strT())), types.NewSlice(byteT))
}

func (r *treeRun) insert(st *State, h *treeH, k string) (*State, bool) {
	r.vals++
	v := fmt.Sprintf("v%d", r.vals)
	st, kt := r.key(st, k)
	vt := r.x.newBytes(st, strContent(mk("sym", "value:"+v, strT())), types.NewSlice(byteT))
	st, _, ok := r.do(st, r.ins, h.addr, kt, vt)
	h.ref = cpMap(h.ref)
	h.ref[k] = v
	return st, ok
}

func (r *treeRun) doSnap(st *State, h *treeH) (*State, bool) {
	st, rets, ok := r.do(st, r.snap, h.addr)
	if !ok {
		return nil, false
	}
	h.snaps = append(h.snaps[:len(h.snaps):len(h.snaps)], treeSnap{rets[0], h.ref})
	return st, true
}

// matches: does the tree at addr hold what ref says?
func (r *treeRun) matches(st *State, addr *T, ref map[string]string, who, trail string) bool {
	for _, k := range r.keys {
		r.looks++
		s2, kt := r.key(st, k)
		_, rets, ok := r.do(s2, r.get, addr, kt)
		if !ok {
			return r.report(r.get, "lookup", "after%s, looking up %s in %s: %s", trail, k, who, r.fail)
		}
		got := ""
		if v := rets[0]; !v.isNil() {
			c := r.x.content(s2, v)
			if n, ok := cLen(c).i64(); !ok || n != 0 {
				got = atomName(c, "value:")
			}
		}
		if got != ref[k] {
			return r.report(r.get, "lookup", "after%s, %s in %s is %q and not %q", trail, k, who, got, ref[k])
		}
	}
	return true
}

func (r *treeRun) report(fn *ssa.Function, rule, f string, a ...interface{}) bool {
	r.c.bad(rule, "tevm.Tree", fn.Pos(), f, a...)
	r.bad = true
	return false
}

// inspect compares every tree and every snapshot with its map
func (r *treeRun) inspect(st *State, hs []*treeH, trail string) bool {
	r.nodes++
	for _, h := range hs {
		if !r.matches(st, h.addr, h.ref, "the "+h.name, trail) {
			return false
		}
		for i, s := range h.snaps {
			s2, rets, ok := r.do(st, r.copyAt, h.addr, s.id)
			if !ok {
				return r.report(r.copyAt, "snapshot", "after%s, copying the %s at snapshot %d: %s", trail, h.name, i, r.fail)
			}
			a := r.x.newAlloc("probe", r.typ)
			r.x.store(s2, a, rets[0], r.typ)
			if !r.matches(s2, a, s.ref, fmt.Sprintf("snapshot %d of the %s", i, h.name), trail) {
				return false
			}
		}
		if !r.iterates(st, h, trail, 0) {
			return false
		}
		if len(h.ref) > 1 && !r.iterates(st, h, trail, 2) {
			return false
		}
	}
	return true
}

// iterates: in sorted order, each pair once; stopping after the given number
func (r *treeRun) iterates(st *State, h *treeH, trail string, stop int) bool {
	st = st.clone()
	st.ev = nil
	name := "visit"
	if stop > 0 {
		name = fmt.Sprintf("visit%d", stop)
	}
	st, _, ok := r.do(st, r.iter, h.addr, mk("sym", name, r.iter.Signature.Params().At(0).Type()))
	if !ok {
		return r.report(r.iter, "iterate", "after%s, iterating over the %s: %s", trail, h.name, r.fail)
	}
	got := ""
	for _, e := range st.ev.slice(nil) {
		if e.name == "visit" {
			k, v := r.x.content(e.st, e.args[1]), r.x.content(e.st, e.args[2])
			got += " " + atomName(k, "key:") + "=" + atomName(v, "value:")
		}
	}
	// which direction "sorted" means is taken from the whole iteration
	var ks []string
	for k := range h.ref {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	ok = false
	for dir := 0; dir < 2; dir++ {
		want := ""
		for i := range ks {
			k := ks[i]
			if dir == 1 {
				k = ks[len(ks)-1-i]
			}
			if stop > 0 && i >= stop {
				break
			}
			want += " " + k + "=" + h.ref[k]
		}
		ok = ok || got == want
	}
	if !ok {
		return r.report(r.iter, "iterate", "after%s, iterating over the %s yields%s", trail, h.name, got)
	}
	return true
}

func (r *treeRun) explore(st *State, hs []*treeH, trail string, depth int) {
	if r.bad || !r.inspect(st, hs, trail) || depth == 0 {
		return
	}
	step := func(i int, op string, f func(h *treeH) (*State, *treeH, bool)) {
		if r.bad {
			return
		}
		h := *hs[i]
		n := append([]*treeH{}, hs...)
		n[i] = &h
		tr := trail + " " + h.name + "." + op
		s2, extra, ok := f(&h)
		if !ok {
			r.report(r.ins, "analysis", "after%s: %s", tr, r.fail)
			return
		}
		if extra != nil {
			n = append(n, extra)
		}
		r.explore(s2, n, tr, depth-1)
	}
	for i, h := range hs {
		for _, k := range r.keys {
			k := k
			step(i, "Insert("+k+")", func(h *treeH) (*State, *treeH, bool) {
				s, ok := r.insert(st, h, k)
				return s, nil, ok
			})
			step(i, "Delete("+k+")", func(h *treeH) (*State, *treeH, bool) {
				s2, kt := r.key(st, k)
				s2, rets, ok := r.do(s2, r.del, h.addr, kt)
				if !ok {
					return nil, nil, false
				}
				_, was := h.ref[k]
				if rets[0] != mkBool(was) {
					r.report(r.del, "delete", "after%s, deleting %s from the %s reports %s", trail, k, h.name, rets[0])
				}
				h.ref = cpMap(h.ref)
				delete(h.ref, k)
				return s2, nil, true
			})
		}
		step(i, "Snapshot()", func(h *treeH) (*State, *treeH, bool) {
			s, ok := r.doSnap(st, h)
			return s, nil, ok
		})
		for j := range h.snaps {
			j := j
			step(i, fmt.Sprintf("Rollback(%d)", j), func(h *treeH) (*State, *treeH, bool) {
				s2, _, ok := r.do(st, r.rollback, h.addr, h.snaps[j].id)
				h.ref = h.snaps[j].ref
				h.snaps = h.snaps[: j+1 : j+1]
				return s2, nil, ok
			})
			if len(hs) < 2 {
				step(i, fmt.Sprintf("CopyAt(%d)", j), func(h *treeH) (*State, *treeH, bool) {
					s2, rets, ok := r.do(st, r.copyAt, h.addr, h.snaps[j].id)
					if !ok {
						return nil, nil, false
					}
					a := r.x.newAlloc("copy", r.typ)
					r.x.store(s2, a, rets[0], r.typ)
					return s2, &treeH{name: "copy", addr: a, ref: h.snaps[j].ref, snaps: h.snaps[: j+1 : j+1]}, true
				})
			}
		}
	}
}
