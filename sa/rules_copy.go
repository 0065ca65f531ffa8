package main

// C29: copies, views of blocks and encodings of a chain.

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C29"] = &CheckDef{
		title:     "Copies and views of a chain are complete and independent",
		technique: "static abstract interpretation over SSA of short histories of a chain and a copy, view or decoded encoding of it; observations of one across operations on the other compared",
		explanation: "Chains are built, then copied with Chain.Copy, viewed with Chain.AtBlock or encoded and decoded; the copy must show what the original shows (a view: what the accounts were when the block was sealed). " +
			"Then every sequence of operations up to a depth is performed on one of the two, and everything that can be observed of the other must be as it was.",
		assumptions: []string{"encoding/json and the generated message codecs give back the exported fields of what was encoded"},
		min:         200,
		run:         runCopy,
	}
}

type copyRun struct {
	*chainRun
	hashes []*T
	base   string
	n      int
}

func runCopy(c *Check) {
	bases := []string{
		"",
		"fund a 1000; SetState a 1; SetCode b; mine; snap; AddRefund a",
		"fund a 1000; seal; seal; seal",
		"fund a 1000; SetState a 1; mine; fail; seal; SetCode b; SetNonce b; mine; seal; spend a 100; SetState b 2; mine; create; snap; SetState b 2",
	}
	for _, b := range bases {
		if !c.runCopyOn(b) {
			return
		}
	}
}

func (r *copyRun) say(fn *ssa.Function, rule, f string, a ...interface{}) bool {
	if !r.bad {
		r.c.bad(rule, "tevm.Chain", fn.Pos(), "on %q: "+f, append([]interface{}{r.base}, a...)...)
	}
	r.bad = true
	return false
}

func (c *Check) runCopyOn(base string) bool {
	cr, st := c.newChainRun(append(chainMeths, "MarshalJSON", "UnmarshalJSON")...)
	if cr == nil {
		return false
	}
	r := &copyRun{chainRun: cr, base: base}
	st, hs, ok := r.build(st, base)
	if !ok {
		return r.say(r.newChain, "analysis", "%s", r.fail)
	}
	r.hashes = hs
	before, ok := r.observe(st, hs)
	if !ok {
		return r.say(r.newChain, "analysis", "%s", r.fail)
	}
	d, pt := r.pendingDeep(st)
	pending, _ := dfield(d, pt, "Number").i64()
	same := func(fn *ssa.Function, s2 *State, v *T, what string) (chainObs, bool) {
		o, ok := r.at(v).observe(s2, hs)
		if !ok {
			return nil, r.say(fn, "analysis", "%s: %s", what, r.fail)
		}
		r.n++
		if d := before.differs(o); d != "" {
			return nil, r.say(fn, "complete", "in %s, %s", what, d)
		}
		return o, true
	}
	// a copy
	f := r.m["Chain.Copy"]
	s2, rets, ok := r.do(st, f, r.chain)
	if !ok {
		return r.say(f, "analysis", "%s", r.fail)
	}
	o, ok := same(f, s2, rets[0], "a copy")
	if !ok || !r.independent(f, s2, rets[0], before, o, "a copy") {
		return false
	}
	// a copy of a copy
	s3, rets3, ok := r.do(s2, f, rets[0])
	if !ok {
		return r.say(f, "analysis", "%s", r.fail)
	}
	if o, ok = same(f, s3, rets3[0], "a copy of a copy"); !ok {
		return false
	}
	if !r.independent(f, s3, rets3[0], before, o, "a copy of a copy") {
		return false
	}
	// views of the sealed blocks
	f = r.m["Chain.AtBlock"]
	for b := range r.sealed {
		what := fmt.Sprintf("the view of block %d", b)
		s2, v, ok := r.viewBlock(st, b)
		if !ok || v == nil {
			return r.say(f, "complete", "%s cannot be had", what)
		}
		o, ok := r.at(v).observe(s2, hs)
		if !ok {
			return r.say(f, "analysis", "%s: %s", what, r.fail)
		}
		r.n++
		if d := r.sealed[b].differs(o[:len(r.sealed[b])]); d != "" {
			return r.say(f, "complete", "in %s, %s", what, d)
		}
		has := func(o chainObs, what string) *T {
			for _, i := range o {
				if i.what == what {
					return i.v
				}
			}
			return nil
		}
		for i := range hs {
			for _, w := range []string{fmt.Sprintf("transaction %d", i), fmt.Sprintf("the receipt of transaction %d", i)} {
				want := mkStr("none")
				if i < r.sealedTx[b] {
					want = has(before, w)
				}
				r.n++
				if got := has(o, w); got != want {
					return r.say(f, "complete", "in %s, %s is %s instead of %s", what, w, clip(got.String(), 60), clip(want.String(), 60))
				}
			}
		}
		d, pt := r.at(v).pendingDeep(s2)
		if d == nil || dfield(d, pt, "Number") != mkInt(b) {
			return r.say(f, "complete", "%s is not at that block", what)
		}
		if !r.independent(f, s2, v, before, o, what) {
			return false
		}
	}
	// block numbers that stand for others
	for _, q := range []struct{ n, is int64 }{{-1, pending}, {pending, pending}, {pending + 1, 0}, {0, 0}} {
		_, v, ok := r.viewBlock(st, q.n)
		if !ok {
			return r.say(f, "analysis", "AtBlock(%d): %s", q.n, r.fail)
		}
		r.n++
		if (v == nil) != (q.is == 0) {
			return r.say(f, "complete", "AtBlock(%d) is wrong about there being such a block", q.n)
		}
		if v != nil && v != r.chain {
			if _, ok := same(f, st, v, fmt.Sprintf("AtBlock(%d)", q.n)); !ok {
				return false
			}
		}
	}
	// an encoding
	s2, v, ok := r.roundTrip(st)
	f = r.m["Chain.MarshalJSON"]
	if !ok {
		return r.say(f, "analysis", "%s", r.fail)
	}
	if o, ok = same(f, s2, v, "a decoded encoding"); !ok {
		return false
	}
	if !r.independent(f, s2, v, before, o, "a decoded encoding") {
		return false
	}
	c.obl += r.n
	c.done += r.n
	return !r.bad
}

func (r *copyRun) roundTrip(st *State) (*State, *T, bool) {
	s2, rets, ok := r.do(st, r.m["Chain.MarshalJSON"], r.chain)
	if !ok {
		return nil, nil, false
	}
	if !rets[1].isNil() {
		r.fail = "the chain cannot be encoded"
		return nil, nil, false
	}
	s2 = s2.clone()
	n := r.x.newAlloc("chain", r.chainT)
	s3, e, ok := r.do(s2, r.m["Chain.UnmarshalJSON"], n, rets[0])
	if !ok {
		return nil, nil, false
	}
	if !e[0].isNil() {
		r.fail = "the encoding of the chain cannot be decoded"
		return nil, nil, false
	}
	return s3, n, true
}

var copyOps = []string{"mine", "create", "seal", "fund a 5", "SetState a 1", "DeleteState b 2", "Suicide b", "snap", "back"}

// step performs an operation on a chain
func (r *copyRun) step(on *chainRun, st *State, op string) (*State, bool) {
	if op == "back" {
		s2, _, ok := on.op(st, "RevertToSnapshot", r.lastSnap)
		return s2, ok
	}
	for _, o := range strings.Split(op, "; ") {
		s2, _, ok := on.chainOp(st, o)
		if !ok {
			return nil, false
		}
		st = s2
	}
	return st, true
}

// independent performs operations on one of two chains and looks at the other
func (r *copyRun) independent(fn *ssa.Function, st *State, v *T, orig, view chainObs, what string) bool {
	other := r.at(v)
	isView := strings.Contains(what, "block")
	type side struct {
		on, at *chainRun
		obs    chainObs
		name   string
	}
	var walk func(s side, st *State, trail string, depth int) bool
	walk = func(s side, st *State, trail string, depth int) bool {
		if trail != "" {
			o, ok := s.at.observe(st, r.hashes)
			if !ok {
				return r.say(fn, "analysis", "after%s on the other: %s", trail, s.at.fail)
			}
			r.n++
			if d := s.obs.differs(o); d != "" {
				return r.say(fn, "independent", "%s is changed: after%s, %s", s.name, trail, d)
			}
		}
		if depth == 0 {
			return true
		}
		for _, op := range copyOps {
			if op == "back" && (strings.Contains(trail, "seal") || strings.Contains(trail, "back") || r.lastSnap == nil || isView) {
				continue
			}
			s2, ok := r.step(s.on, st, op)
			if !ok {
				return r.say(fn, "analysis", "%s after%s: %s", op, trail, s.on.fail)
			}
			if !walk(s, s2, trail+" "+op, depth-1) {
				return false
			}
		}
		return true
	}
	for _, s := range []side{{r.chainRun, other, view, what + " by the original"}, {other, r.chainRun, orig, "the original by " + what}} {
		depth := 2
		if what == "a copy of a copy" {
			depth = 1
		}
		if !walk(s, st, "", depth) {
			return false
		}
		// operations on the one, then on the other
		for _, first := range []string{"mine", "create; seal", "SetNonce b; snap; seal"} {
			s2, ok := r.step(s.at, st, first)
			if !ok {
				return r.say(fn, "analysis", "%s: %s", first, s.at.fail)
			}
			o, ok := s.at.observe(s2, r.hashes)
			if !ok {
				return r.say(fn, "analysis", "after %s: %s", first, s.at.fail)
			}
			t := side{s.on, s.at, o, s.name + " (after " + first + ")"}
			for _, second := range []string{"mine", "create", "seal", "SetState b 1", "mine; seal"} {
				s3, ok := r.step(s.on, s2, second)
				if !ok {
					return r.say(fn, "analysis", "%s: %s", second, s.on.fail)
				}
				if !walk(t, s3, " "+second, 0) {
					return false
				}
			}
		}
	}
	if isView {
		return true
	}
	// the same operations have the same effect on both
	for _, ops := range []string{"mine", "create; seal", "seal", "fail; seal; mine; seal", "back", "back; seal"} {
		if strings.HasPrefix(ops, "back") && r.lastSnap == nil {
			continue
		}
		var os []chainObs
		for _, c := range []*chainRun{r.chainRun, other} {
			*c.vals = 1000 // the same transactions
			s2 := st
			hs := append([]*T{}, r.hashes...)
			for _, op := range strings.Split(ops, "; ") {
				var h *T
				ok := true
				if op == "back" {
					s2, ok = r.step(c, s2, op)
				} else {
					s2, h, ok = c.chainOp(s2, op)
				}
				if !ok {
					return r.say(fn, "analysis", "%s: %s", ops, c.fail)
				}
				if h != nil {
					hs = append(hs, h)
				}
			}
			o, ok := c.observe(s2, hs)
			if !ok {
				return r.say(fn, "analysis", "after %s: %s", ops, c.fail)
			}
			os = append(os, o)
		}
		r.n++
		if d := os[0].differs(os[1]); d != "" {
			return r.say(fn, "complete", "after %s on %s as on the original, %s", ops, what, d)
		}
	}
	return true
}
