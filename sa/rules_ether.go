package main

// C21: ether moves, it is not made or lost.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C21"] = &CheckDef{
		title:     "Ether moves and is neither made nor lost",
		technique: "static abstract interpretation over SSA of transfers through every operation of the chain, on amounts around every length of the encoding; comparison with a ledger",
		explanation: "Chain.Send, Mine, Call, Create, NewAccount, AddBalance and SubBalance, eth_sendTransaction and the transfers and self-destructions that programs make are interpreted on chains with accounts of many different balances, in sequences of two. " +
			"After each, every balance, read in every way there is, is compared with a ledger, and the operation has to fail exactly if the sender does not have the amount.",
		assumptions: []string{"the virtual machine asks CanTransfer and calls Transfer as go-ethereum does", "math/big behaves as documented"},
		min:         3000,
		run:         runEther,
	}
}

type ledger map[string]*big.Int

func (l ledger) copy() ledger {
	n := ledger{}
	for k, v := range l {
		n[k] = v
	}
	return n
}

func (l ledger) get(a string) *big.Int {
	if v := l[a]; v != nil {
		return v
	}
	return new(big.Int)
}

func (l ledger) move(from, to string, v *big.Int) {
	l[from] = new(big.Int).Sub(l.get(from), v)
	l[to] = new(big.Int).Add(l.get(to), v)
}

type etherRun struct {
	*chainRun
	n, nodes int
}

func runEther(c *Check) {
	cr, st := c.newChainRun("Mine", "Seal", "Execute", "AddBalance", "SubBalance", "BalanceOf", "Send", "Call", "Create", "NewAccount")
	if cr == nil {
		return
	}
	r := &etherRun{chainRun: cr}
	pow := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	add := func(b *big.Int, n int64) *big.Int { return new(big.Int).Add(b, big.NewInt(n)) }
	bases := [][2]*big.Int{
		{big.NewInt(256), big.NewInt(255)}, {pow(64), add(pow(64), -1)}, {add(pow(128), 5), new(big.Int)}, {pow(254), pow(253)}, {big.NewInt(1), pow(200)},
	}
	for i, b := range bases {
		l := ledger{}
		s, ok := r.fund(st, "a", b[0].String())
		if ok && b[1].Sign() > 0 {
			s, ok = r.fund(s, "b", b[1].String())
		}
		if !ok {
			r.wrong(r.m["Chain.AddBalance"], "analysis", "", "%s", r.fail)
			return
		}
		l["a"], l["b"] = b[0], b[1]
		r.explore(s, l, fmt.Sprintf(" funding a with %s and b with %s", b[0], b[1]), i < 2)
	}
	r.accountsMade(st)
	c.obl += r.n
	c.done += r.n
	c.ob("histories", "tevm.Chain", r.m["Chain.Send"].Pos(), r.bad || r.nodes > 500, "only %d histories were analysed", r.nodes)
	c.notes = append(c.notes, fmt.Sprintf("%d histories", r.nodes))
}

func (r *etherRun) wrong(fn *ssa.Function, rule, trail, f string, a ...interface{}) bool {
	if !r.bad {
		r.c.bad(rule, fnName(fn), fn.Pos(), "after%s: %s", trail, fmt.Sprintf(f, a...))
	}
	r.bad = true
	return false
}

// check compares every balance with the ledger
func (r *etherRun) check(st *State, l ledger, trail string) bool {
	names := []string{"z"}
	for a := range l {
		names = append(names, a)
	}
	sort.Strings(names)
	for _, a := range names {
		want := l.get(a)
		r.n += 2
		f := r.m["Chain.BalanceOf"]
		s := st.clone()
		s, rets, ok := r.do(s, f, r.chain, r.addrArg(s, a))
		if !ok {
			return r.wrong(f, "analysis", trail, "%s", r.fail)
		}
		if g, known := bigOf(r.x.bigVal(s, rets[0])); !known || g.Cmp(want) != 0 {
			return r.wrong(f, "ledger", trail, "the balance of %s is %s and not %s", a, r.x.bigVal(s, rets[0]), want)
		}
		s, rets, ok = r.op(st, "GetBalance", acctConst(a))
		if !ok {
			return r.wrong(r.m["GetBalance"], "analysis", trail, "%s", r.fail)
		}
		if g, known := bigOf(r.x.bigVal(s, rets[0])); !known || g.Cmp(want) != 0 {
			return r.wrong(r.m["GetBalance"], "ledger", trail, "a program sees that the balance of %s is %s and not %s", a, r.x.bigVal(s, rets[0]), want)
		}
	}
	return true
}

func (r *etherRun) explore(st *State, l ledger, trail string, deep bool) {
	r.nodes++
	first := strings.Count(trail, ";") == 0
	if r.bad || !r.check(st, l, trail) || !first && (!deep || strings.Count(trail, ";") > 1) {
		return
	}
	a, b := l.get("a"), l.get("b")
	vs := []*big.Int{new(big.Int), big.NewInt(1), a, new(big.Int).Add(a, big.NewInt(1)), b}
	if !first {
		vs = []*big.Int{a}
	}
	seen := map[string]bool{}
	var ops []string
	for _, v := range vs {
		if seen[v.String()] {
			continue
		}
		seen[v.String()] = true
		for _, k := range []string{"send", "fail", "mine", "rpc"} {
			for _, p := range []string{"a b", "a a", "b a", "a c", "a z"} {
				if (k == "rpc" || k == "fail") && (p == "a c" || p == "a z") || !first && k == "fail" {
					continue
				}
				if !first && (k == "rpc" || k == "mine" && p != "a b") {
					continue
				}
				ops = append(ops, k+" "+p+" "+v.String())
			}
		}
		ops = append(ops, "create a - "+v.String(), "prog a b "+v.String()+" pay b c "+b.String(), "prog a b 0 pay b b "+v.String())
	}
	ops = append(ops, "prog a b 1 die b c", "prog a b 1 die b b", "prog a b 1 die b a", "fail a b 1 die b c", "make c", "make a", "add c 5", "sub a 1", "call a b", "new a")
	for _, o := range ops {
		if r.bad {
			return
		}
		if s, n, ok := r.stepEther(st, l.copy(), o, trail+"; "+o); ok {
			r.explore(s, n, trail+"; "+o, deep)
		}
	}
}

func (r *etherRun) stepEther(st *State, l ledger, o, trail string) (*State, ledger, bool) {
	x := r.x
	f := strings.Fields(o)
	st = st.clone()
	r.script, r.calls = nil, nil
	num := func(i int) *big.Int {
		v, _ := new(big.Int).SetString(f[i], 10)
		return v
	}
	var fn *ssa.Function
	var rets []*T
	var ok bool
	do := func(name string, args ...*T) {
		fn = r.m["Chain."+name]
		st, rets, ok = r.do(st, fn, append([]*T{r.chain}, args...)...)
	}
	failing := func() (*State, ledger, bool) {
		return nil, nil, r.wrong(fn, "analysis", trail, "%s", r.fail)
	}
	switch f[0] {
	case "send", "fail", "mine", "rpc", "create", "prog":
		v := num(3)
		sc := vmScript{left: 100, fail: f[0] == "fail"}
		if len(f) > 4 {
			sc.ops = []string{strings.Join(f[4:], " ")}
		}
		r.script = []vmScript{sc}
		enough := l.get(f[1]).Cmp(v) >= 0
		var failed *T
		var val *T
		to := f[2]
		switch f[0] {
		case "send", "fail":
			val = x.newBig(st, bigConst(v))
			do("Send", r.addrArg(st, f[1]), r.addrArg(st, to), val)
			if ok {
				failed = rets[0]
			}
		case "rpc":
			s, _, _, bad, good := r.rpc(st, "eth_sendTransaction", jObject("from", jAcct(f[1]), "to", jAcct(to), "value", fmt.Sprintf(`"0x%x"`, v)))
			fn, st, ok = r.m["Chain.Execute"], s, good
			failed = mkBool(bad)
		default:
			t := to
			if f[0] == "create" {
				t = ""
			}
			do("Mine", r.txArg(st, f[1], t, v.String()))
			if ok {
				failed = rets[2]
			}
		}
		if !ok {
			return failing()
		}
		isFail := failed == mkBool(true) || failed.op != "bool" && failed != mkBool(false) && !failed.isNil()
		r.n++
		if isFail != (!enough || sc.fail) {
			return nil, nil, r.wrong(fn, "funds", trail, "the operation succeeds=%v though %s has %s", !isFail, f[1], l.get(f[1]))
		}
		if val != nil {
			if g, known := bigOf(x.bigVal(st, val)); !known || g.Cmp(v) != 0 {
				return nil, nil, r.wrong(fn, "amount", trail, "the caller's amount becomes %s", x.bigVal(st, val))
			}
		}
		if isFail {
			return st, l, true
		}
		if f[0] == "create" {
			if len(r.calls) != 1 || r.calls[0].addr == nil {
				return failing()
			}
			b, good := constBytes(r.calls[0].addr)
			if !good {
				return failing()
			}
			to = string(b[19:])
		}
		l.move(f[1], to, v)
		if len(f) > 4 {
			switch f[4] {
			case "pay":
				if p := num(7); l.get(f[5]).Cmp(p) >= 0 {
					l.move(f[5], f[6], p)
				}
			case "die":
				b := l.get(f[5])
				l[f[6]] = new(big.Int).Add(l.get(f[6]), b)
				l[f[5]] = new(big.Int)
			}
		}
		return st, l, true
	case "call":
		r.script = []vmScript{{left: 100}}
		do("Call", r.addrArg(st, f[1]), r.addrArg(st, f[2]), mkStr("f()"), mkNil())
	case "make":
		fn = r.m["CreateAccount"]
		st, rets, ok = r.op(st, "CreateAccount", acctConst(f[1]))
	case "add":
		v := x.newBig(st, bigConst(num(2)))
		do("AddBalance", r.addrArg(st, f[1]), v)
		if g, known := bigOf(x.bigVal(st, v)); ok && (!known || g.Cmp(num(2)) != 0) {
			return nil, nil, r.wrong(fn, "amount", trail, "the caller's amount becomes %s", x.bigVal(st, v))
		}
		l[f[1]] = new(big.Int).Add(l.get(f[1]), num(2))
	case "sub":
		if l.get(f[1]).Cmp(num(2)) < 0 {
			return st, l, true
		}
		do("SubBalance", r.addrArg(st, f[1]), x.newBig(st, bigConst(num(2))))
		l[f[1]] = new(big.Int).Sub(l.get(f[1]), num(2))
	case "new":
		do("NewAccount", mkInt(3))
	}
	if !ok {
		return failing()
	}
	return st, l, true
}

// accountsMade: a new account has the ether asked for and nobody else does
func (r *etherRun) accountsMade(st *State) {
	f := r.m["Chain.NewAccount"]
	for _, n := range []int64{0, 1, 7, 1000, 1 << 40} {
		if r.bad {
			return
		}
		s, rets, ok := r.do(st.clone(), f, r.chain, mkInt(n))
		if !ok {
			r.wrong(f, "analysis", "", "%s", r.fail)
			return
		}
		p := r.x.newAlloc("addr", r.c.typ("", "Address"))
		r.x.store(s, p, rets[0], r.c.typ("", "Address"))
		s, rets, ok = r.do(s, r.m["Chain.BalanceOf"], r.chain, p)
		if !ok {
			r.wrong(f, "analysis", "", "%s", r.fail)
			return
		}
		want := new(big.Int).Mul(big.NewInt(n), new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil))
		r.n++
		if g, known := bigOf(r.x.bigVal(s, rets[0])); !known || g.Cmp(want) != 0 {
			r.wrong(f, "ledger", fmt.Sprintf(" NewAccount(%d)", n), "the balance is %s and not %s", r.x.bigVal(s, rets[0]), want)
		}
		r.check(s, ledger{"a": new(big.Int)}, " NewAccount")
	}
}
