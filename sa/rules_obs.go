package main

// Observations of a test chain, and the operations that build one.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

var obsAccts = []string{"a", "b", "c", "n", "o"}
var obsSlots = []string{"a/1", "b/1", "b/2"}

type obsItem struct {
	what string
	v    *T
}

// chainObs is what can be learnt about a chain
type chainObs []obsItem

// differs names the first thing that differs
func (o chainObs) differs(p chainObs) string {
	for i := range o {
		if i >= len(p) {
			return o[i].what + " is gone"
		}
		if o[i].what != p[i].what || o[i].v != p[i].v {
			return fmt.Sprintf("%s is %s instead of %s", o[i].what, clip(p[i].v.String(), 90), clip(o[i].v.String(), 90))
		}
	}
	if len(p) > len(o) {
		return p[len(o)].what + " is new"
	}
	return ""
}

// accounts reads the accounts and slots of a state
func (r *stateRun) accounts(st *State) (chainObs, bool) {
	var out chainObs
	for _, a := range obsAccts {
		for _, n := range []string{"GetBalance", "GetNonce", "GetCode", "Empty", "HasSuicided"} {
			s2, rets, ok := r.op(st, n, acctConst(a))
			if !ok {
				return nil, false
			}
			v := rets[0]
			switch n {
			case "GetBalance":
				v = r.x.bigVal(s2, v)
			case "GetCode":
				v = r.x.content(s2, v)
			}
			out = append(out, obsItem{n + " of account " + a, v})
		}
	}
	for _, s := range obsSlots {
		_, rets, ok := r.op(st, "GetState", acctConst(s[:1]), slotConst(s[2:]))
		if !ok {
			return nil, false
		}
		out = append(out, obsItem{"slot " + s, rets[0]})
	}
	return out, true
}

// observe reads everything a chain can be asked for
func (r *chainRun) observe(st *State, hashes []*T) (chainObs, bool) {
	out, ok := r.accounts(st)
	if !ok {
		return nil, false
	}
	_, rets, ok := r.op(st, "GetRefund")
	if !ok {
		return nil, false
	}
	out = append(out, obsItem{"the refund", rets[0]})
	lt := deref(r.m["AddLog"].Signature.Params().At(0).Type())
	s2 := st.clone()
	for i, l := range r.logList(st) {
		out = append(out, obsItem{fmt.Sprintf("log %d", i), r.x.deep(s2, r.x.load(s2, l, lt), lt, 0)})
	}
	d, pt := r.pendingDeep(st)
	if d == nil {
		r.fail = "the chain has no pending block"
		return nil, false
	}
	out = append(out, obsItem{"the pending block", d})
	ask := func(what, m string, ps ...*T) bool {
		_, v, _, bad, ok := r.rpc(st, m, ps...)
		if !ok {
			return false
		}
		if bad || v == nil {
			v = mkStr("none")
		}
		out = append(out, obsItem{what, v})
		return true
	}
	n, ok := dfield(d, pt, "Number").i64()
	if !ok {
		r.fail = "the number of the pending block is unknown"
		return nil, false
	}
	for b := int64(99); b <= n+1; b++ {
		if !ask(fmt.Sprintf("block %d", b), "eth_getBlockByNumber", cLit(fmt.Sprintf(`"0x%x"`, b)), cLit("true")) {
			return nil, false
		}
		s3, v, ok := r.viewBlock(st, b)
		if !ok {
			return nil, false
		}
		if v == nil || v == r.chain {
			continue
		}
		as, ok := r.at(v).accounts(s3)
		if !ok {
			return nil, false
		}
		for _, a := range as {
			out = append(out, obsItem{fmt.Sprintf("%s at block %d", a.what, b), a.v})
		}
	}
	for i, h := range hashes {
		p := r.hashParam(st, h)
		if !ask(fmt.Sprintf("transaction %d", i), "eth_getTransactionByHash", p) ||
			!ask(fmt.Sprintf("the receipt of transaction %d", i), "eth_getTransactionReceipt", p) {
			return nil, false
		}
	}
	return out, true
}

// viewBlock is the chain at a block, nil if there is none
func (r *chainRun) viewBlock(st *State, b int64) (*State, *T, bool) {
	f := r.m["Chain.AtBlock"]
	s2, rets, ok := r.do(st, f, r.chain, mkInt(b))
	if !ok {
		return nil, nil, false
	}
	if rets[0].isNil() {
		return s2, nil, true
	}
	return s2, rets[0], true
}

func (r *chainRun) bigArg(st *State, s string) *T {
	b, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return r.x.newBig(st, bigConst(b))
}

func (r *chainRun) addrArg(st *State, a string) *T {
	t := r.c.typ("", "Address")
	p := r.x.newAlloc("addr", t)
	r.x.store(st, p, acctConst(a), t)
	return p
}

// txArg makes a transaction
func (r *chainRun) txArg(st *State, from, to, value string) *T {
	x := r.x
	txT := deref(r.m["Chain.Mine"].Signature.Params().At(0).Type())
	a := x.newAlloc("tx", txT)
	(*r.vals)++
	set := func(name string, v *T) {
		fa := fieldAddrOf(a, txT, name)
		x.store(st, fa, v, deref(fa.typ))
	}
	set("From", r.addrArg(st, from))
	if to != "" {
		set("To", r.addrArg(st, to))
	}
	set("Nonce", mk("sym", fmt.Sprintf("nonce%d", *r.vals), types.Typ[types.Uint64]))
	set("Gas", mkInt(int64(100000+*r.vals)))
	v, _ := new(big.Int).SetString(value, 10)
	fa := fieldAddrOf(a, txT, "Value")
	x.store(st, fa, bigConst(v), deref(fa.typ))
	set("Input", x.newBytes(st, cVec(mk("sym", fmt.Sprintf("input%d", *r.vals), byteT)), types.NewSlice(byteT)))
	return a
}

// chainOp performs an operation on the chain; the hash of a transaction
// it mines is returned
func (r *chainRun) chainOp(st *State, o string) (*State, *T, bool) {
	f := strings.Fields(o)
	st = st.clone()
	r.script, r.calls = nil, nil
	effects := []string{"SetState b 1", "SetNonce c", "AddBalance c 5", "SetCode b"}
	switch f[0] {
	case "fund":
		s, _, ok := r.do(st, r.m["Chain.AddBalance"], r.chain, r.addrArg(st, f[1]), r.bigArg(st, f[2]))
		return s, nil, ok
	case "spend":
		s, _, ok := r.do(st, r.m["Chain.SubBalance"], r.chain, r.addrArg(st, f[1]), r.bigArg(st, f[2]))
		return s, nil, ok
	case "mine", "fail", "create":
		to := "b"
		sc := vmScript{left: 40000, logs: 1, ops: effects, fail: f[0] == "fail"}
		if f[0] == "create" {
			to = ""
		}
		r.script = []vmScript{sc}
		s, rets, ok := r.do(st, r.m["Chain.Mine"], r.chain, r.txArg(st, "a", to, "7"))
		if !ok {
			return nil, nil, false
		}
		return s, rets[1], true
	case "seal":
		s, _, ok := r.do(st, r.m["Chain.Seal"], r.chain)
		return s, nil, ok
	case "snap":
		s, rets, ok := r.op(st, "Snapshot")
		if ok && r.bases {
			r.lastSnap = rets[0]
		}
		return s, nil, ok
	default:
		s, _, ok := r.stepState(st, o)
		return s, nil, ok
	}
}

// build performs operations, separated by semicolons
func (r *chainRun) build(st *State, ops string) (*State, []*T, bool) {
	var hs []*T
	r.bases = true
	defer func() { r.bases = false }()
	for _, o := range strings.Split(ops, ";") {
		if o = strings.TrimSpace(o); o == "" {
			continue
		}
		if o == "seal" {
			// what the block will have to show
			d, pt := r.pendingDeep(st)
			n, _ := dfield(d, pt, "Number").i64()
			as, ok := r.accounts(st)
			if !ok {
				return nil, nil, false
			}
			m := map[int64]chainObs{n: as}
			for k, v := range r.sealed {
				m[k] = v
			}
			r.sealed = m
			t := map[int64]int{n: len(hs)}
			for k, v := range r.sealedTx {
				t[k] = v
			}
			r.sealedTx = t
		}
		s, h, ok := r.chainOp(st, o)
		if !ok {
			r.fail = o + ": " + r.fail
			return nil, nil, false
		}
		st = s
		if h != nil {
			hs = append(hs, h)
		}
	}
	return st, hs, true
}

// object is the message of an object
func jObject(kv ...interface{}) *T {
	var args []*T
	for i := 0; i+1 < len(kv); i += 2 {
		args = append(args, mkStr(kv[i].(string)))
		switch v := kv[i+1].(type) {
		case string:
			args = append(args, cLit(v))
		case *T:
			args = append(args, v)
		}
	}
	return mk("fn", "object", nil, args...)
}

func jAcct(a string) string { return fmt.Sprintf(`"0x%040x"`, a[0]) }

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
