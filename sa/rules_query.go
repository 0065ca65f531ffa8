package main

// C22: queries answer from the block they name and leave the chain alone.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C22"] = &CheckDef{
		title:     "Queries answer from the block they name and change nothing",
		technique: "static abstract interpretation over SSA of every query on several chains, with the virtual machine's effects scripted; observations before and after compared",
		explanation: "On chains with several sealed blocks, every query is interpreted through Chain.Execute and through the methods of Chain with every block parameter. The execution behind it must begin with the state of that block, " +
			"and everything that can be observed of the chain afterwards must be as it was.",
		assumptions: []string{"a static call by the virtual machine changes nothing but the existence of an empty account"},
		min:         400,
		run:         runQuery,
	}
}

type queryRun struct {
	*chainRun
	before  chainObs
	hashes  []*T
	atBlock map[int64]chainObs
	pending int64
	alias   int64 // another number of the pending block
	nobs    int
	probed  []chainObs
	base    string
}

var chainMeths = []string{"Mine", "Seal", "Execute", "AddBalance", "SubBalance", "AtBlock", "Copy", "StaticCall", "EstimateGas", "BalanceOf", "Logs"}

func runQuery(c *Check) {
	bases := []string{
		"",
		"fund a 1000; fund b 20; SetState a 1; SetCode b; mine",
		"fund a 1000; mine; seal; create; fail",
		"fund a 1000; SetState a 1; SetCode b; mine; fail; seal; SetNonce b; mine; create; seal; spend a 100; SetState a 1; SetState b 2; snap; mine",
	}
	for _, b := range bases {
		if !c.runQueryOn(b) {
			return
		}
	}
}

func (c *Check) runQueryOn(base string) bool {
	cr, st := c.newChainRun(chainMeths...)
	if cr == nil {
		return false
	}
	r := &queryRun{chainRun: cr, atBlock: map[int64]chainObs{}, base: base}
	ex := r.m["Chain.Execute"]
	stop := func(format string, a ...interface{}) bool {
		c.bad("analysis", "tevm.Chain", ex.Pos(), format, a...)
		return false
	}
	st, hs, ok := r.build(st, base)
	if !ok {
		return stop("%s: %s", base, r.fail)
	}
	r.hashes = hs
	if r.before, ok = r.observe(st, hs); !ok {
		return stop("%s: %s", base, r.fail)
	}
	d, pt := r.pendingDeep(st)
	r.pending, _ = dfield(d, pt, "Number").i64()
	// the states at the blocks, from the views of the blocks
	for b := int64(99); b <= r.pending; b++ {
		s2, v, ok := r.viewBlock(st, b)
		if !ok {
			return stop("%s: %s", base, r.fail)
		}
		if v == r.chain && b != r.pending {
			r.alias = b // no block is sealed: the one before is the pending one
		} else if v != nil {
			if r.atBlock[b], ok = r.at(v).accounts(s2); !ok {
				return stop("%s: %s", base, r.fail)
			}
			if b != r.pending {
				r.nobs++
				if d := r.sealed[b].differs(r.atBlock[b]); d != "" {
					return r.say(r.m["Chain.AtBlock"], "answers", "at block %d, %s", b, d)
				}
			}
		}
	}
	for b := range r.sealed {
		if r.atBlock[b] == nil {
			return r.say(r.m["Chain.AtBlock"], "answers", "block %d cannot be viewed", b)
		}
	}
	r.chainRun.probe = func(st *State, db *stateRun, k *vmCall) {
		o, _ := db.accounts(st)
		r.probed = append(r.probed, o)
	}
	r.queries(st)
	c.obl += r.nobs
	c.done += r.nobs
	return !r.bad
}

func (r *queryRun) say(fn *ssa.Function, rule, f string, a ...interface{}) bool {
	on := r.base
	if on == "" {
		on = "a new chain"
	}
	if !r.bad {
		r.c.bad(rule, "tevm.Chain", fn.Pos(), "on %q: "+f, append([]interface{}{on}, a...)...)
	}
	r.bad = true
	return false
}

// blockOf is the block a parameter names, 0 if there is none
func (r *queryRun) blockOf(p string) int64 {
	var n int64
	switch p {
	case `"pending"`:
		return r.pending
	case `"latest"`:
		if r.atBlock[r.pending-1] != nil {
			return r.pending - 1
		}
		return r.pending
	case `"earliest"`:
		return 0
	}
	if _, err := fmt.Sscanf(p, `"0x%x"`, &n); err != nil {
		fmt.Sscanf(p, "%d", &n)
	}
	if n == r.alias {
		return r.pending
	}
	if r.atBlock[n] == nil {
		return 0
	}
	return n
}

func (r *queryRun) unchanged(st *State, fn *ssa.Function, what string) bool {
	r.nobs++
	after, ok := r.observe(st, r.hashes)
	if !ok {
		return r.say(fn, "analysis", "after %s: %s", what, r.fail)
	}
	if d := r.before.differs(after); d != "" {
		return r.say(fn, "changes", "after %s, %s", what, d)
	}
	return true
}

func (r *queryRun) query(st *State, m string, ps ...*T) (*State, *T, types.Type, bool, bool) {
	s2, v, t, bad, ok := r.rpc(st, m, ps...)
	if !ok {
		var w []string
		for _, p := range ps {
			w = append(w, clip(p.String(), 200))
		}
		r.say(r.m["Chain.Execute"], "analysis", "%s of %s: %s", m, w, r.fail)
		return nil, nil, nil, false, false
	}
	return s2, v, t, bad, true
}

func (r *queryRun) queries(st *State) {
	ex := r.m["Chain.Execute"]
	blocks := []string{`"pending"`, `"latest"`, `"earliest"`, `"0x1000"`}
	for b := int64(99); b <= r.pending+1; b++ {
		blocks = append(blocks, fmt.Sprintf(`"0x%x"`, b))
	}
	blocks = append(blocks, fmt.Sprint(r.pending))
	effects := []string{"SetState b 1", "SetState a 1", "SetNonce c", "AddBalance c 5", "SetCode c", "Suicide b", "AddRefund c"}
	for _, b := range blocks {
		n := r.blockOf(b)
		for _, fail := range []bool{false, true} {
			for _, gas := range []int64{0, 30000} {
				for _, to := range []string{"b", "d", ""} {
					kv := []interface{}{"from", jAcct("a"), "data", `"0x0102"`, "value", `"0x0"`}
					if to != "" {
						kv = append(kv, "to", jAcct(to))
					}
					if gas != 0 {
						kv = append(kv, "gas", fmt.Sprintf(`"0x%x"`, gas))
					}
					for _, m := range []string{"eth_call", "eth_estimateGas"} {
						if !r.execution(st, m, b, n, to, gas, fail, jObject(kv...), effects) {
							return
						}
					}
				}
			}
		}
		// balances
		for _, a := range []string{"a", "c"} {
			s2, v, _, bad, ok := r.query(st, "eth_getBalance", cLit(jAcct(a)), cLit(b))
			if !ok {
				return
			}
			what := fmt.Sprintf("eth_getBalance at %s", b)
			if !r.answered(what, bad, n) || !r.unchanged(s2, ex, what) {
				return
			}
			if !bad {
				for _, o := range r.atBlock[n] {
					if o.what == "GetBalance of account "+a && v != o.v && !(v.op == "ptr" && v.args[0] == o.v) {
						r.say(ex, "answers", "%s gives %s and not %s", what, clip(v.String(), 60), clip(o.v.String(), 60))
						return
					}
				}
			}
		}
		for _, full := range []string{"true", "false"} {
			s2, _, _, _, ok := r.query(st, "eth_getBlockByNumber", cLit(b), cLit(full))
			if !ok || !r.unchanged(s2, ex, "eth_getBlockByNumber "+b) {
				return
			}
		}
	}
	for i, h := range append(r.hashes, mk("fn", "keccak256", nil, cLit("nothing"))) {
		p := r.hashParam(st, h)
		for _, m := range []string{"eth_getTransactionByHash", "eth_getTransactionReceipt", "eth_getBlockByHash"} {
			ps := []*T{p}
			if m == "eth_getBlockByHash" {
				ps = append(ps, cLit("true"))
			}
			s2, _, _, _, ok := r.query(st, m, ps...)
			if !ok || !r.unchanged(s2, ex, fmt.Sprintf("%s of transaction %d", m, i)) {
				return
			}
		}
	}
	for _, m := range []string{"eth_protocolVersion", "eth_syncing", "eth_gasPrice", "eth_blockNumber", "eth_nothing"} {
		s2, _, _, _, ok := r.query(st, m)
		if !ok || !r.unchanged(s2, ex, m) {
			return
		}
	}
	r.methods(st, effects)
}

// answered tells whether a query for a block that is there was answered
func (r *queryRun) answered(what string, bad bool, n int64) bool {
	r.nobs++
	ex := r.m["Chain.Execute"]
	if bad && n != 0 {
		return r.say(ex, "answers", "%s is refused", what)
	}
	if !bad && n == 0 {
		return r.say(ex, "answers", "%s is answered though there is no such block", what)
	}
	return true
}

func (r *queryRun) execution(st *State, m, b string, n int64, to string, gas int64, fail bool, arg *T, effects []string) bool {
	ex := r.m["Chain.Execute"]
	what := fmt.Sprintf("%s of %q at %s", m, to, b)
	r.script = []vmScript{{left: 1234, fail: fail, ops: effects, logs: 1}}
	r.calls, r.probed = nil, nil
	s2, v, _, bad, ok := r.query(st, m, arg, cLit(b))
	if !ok {
		return false
	}
	if n == 0 || !fail {
		if !r.answered(what, bad, n) {
			return false
		}
	} else if !bad {
		return r.say(ex, "answers", "%s succeeds though the execution fails", what)
	}
	if !r.unchanged(s2, ex, what) {
		return false
	}
	if n == 0 {
		if len(r.calls) != 0 {
			return r.say(ex, "answers", "%s executes though there is no such block", what)
		}
		return true
	}
	if len(r.calls) != 1 || len(r.probed) != 1 {
		return r.say(ex, "answers", "%s executes %d times", what, len(r.calls))
	}
	r.nobs++
	if d := r.atBlock[n].differs(r.probed[0]); d != "" {
		return r.say(ex, "answers", "when %s executes, %s", what, d)
	}
	k := r.calls[0]
	r.nobs += 5
	switch {
	case k.caller != acctConst("a"):
		return r.say(ex, "answers", "%s is executed for %s", what, clip(k.caller.String(), 60))
	case to != "" && k.to != acctConst(to):
		return r.say(ex, "answers", "%s is executed on another account", what)
	case k.input != cVec(mkInt(1), mkInt(2)):
		return r.say(ex, "answers", "%s is executed with the data %s", what, clip(k.input.String(), 60))
	case gas != 0 && k.gas != mkInt(gas):
		return r.say(ex, "answers", "%s is executed with the gas %s and not %d", what, clip(k.gas.String(), 60), gas)
	case r.blockNumber(k.context) != mkInt(n):
		return r.say(ex, "answers", "%s is executed in block %s and not %d", what, r.blockNumber(k.context), n)
	}
	if bad {
		return true
	}
	want := mk("bytes", "", nil, k.ret)
	if m == "eth_estimateGas" {
		g, _ := k.gas.i64()
		want = mkInt(g - 1234)
	}
	if v != want {
		return r.say(ex, "answers", "%s gives %s and not %s", what, clip(v.String(), 60), clip(want.String(), 60))
	}
	return true
}

// methods calls the methods that are not to change the chain
func (r *queryRun) methods(st *State, effects []string) {
	for _, n := range []string{"StaticCall", "EstimateGas", "BalanceOf", "Logs", "Copy"} {
		f := r.m["Chain."+n]
		for _, fail := range []bool{false, true} {
			s2 := st.clone()
			args := []*T{r.chain}
			switch n {
			case "BalanceOf":
				args = append(args, r.addrArg(s2, "a"))
			case "StaticCall", "EstimateGas":
				args = append(args, r.addrArg(s2, "a"), r.addrArg(s2, "b"), mkStr("f()"), mkNil())
			}
			r.script = []vmScript{{left: 1234, fail: fail, ops: effects, logs: 1}}
			r.calls, r.probed = nil, nil
			s2, rets, ok := r.do(s2, f, args...)
			if !ok {
				r.say(f, "analysis", "%s", r.fail)
				return
			}
			if !r.unchanged(s2, f, n) {
				return
			}
			if strings.HasPrefix(n, "Static") || strings.HasPrefix(n, "Est") {
				r.nobs++
				er := rets[len(rets)-1]
				if len(r.calls) != 1 || er != r.calls[0].er {
					r.say(f, "answers", "%s does not give the error of its execution", n)
					return
				}
				if d := r.atBlock[r.pending].differs(r.probed[0]); d != "" {
					r.say(f, "answers", "when %s executes, %s", n, d)
					return
				}
			}
		}
	}
}
