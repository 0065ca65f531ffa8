package main

// C15: what a Sender sends.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C15"] = &CheckDef{
		title:     "A sender sends one complete transaction or fails",
		technique: "static abstract interpretation over SSA of the methods of Sender against a scripted node, for every combination of given and omitted fields and every point of failure",
		explanation: "NewSender and the methods of Sender are interpreted with a transport whose answers are scripted and a signer that is opaque. For each combination the requests made, with every field of the transactions in them, and the result are compared with what the fields given and the answers call for; " +
			"no transaction may be sent after a failure, nor more than one.",
		assumptions: []string{"encoding/json writes and reads values as documented", "the hash to sign and the encoding of a transaction are functions of its fields (C08)"},
		min:         1500,
		run:         runSender,
	}
}

// nodeReq is a request made of the scripted node
type nodeReq struct {
	method string
	params []*T
}

// nodeRun interprets code against a node whose answers are scripted
type nodeRun struct {
	*hist
	client *T
	reqs   []nodeReq
	answer func(q nodeReq, n int) (res *T, fail bool)
	extra  func(fr *frame, st *State, fn *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool)
	n      int
}

func (c *Check) newNodeRun() (*nodeRun, *State) {
	nc := c.fn("", "NewClientTransport")
	if nc == nil {
		return nil, nil
	}
	r := &nodeRun{}
	var st *State
	r.hist, st = c.newHist(func(x *Exec) { x.hook = r.intercept })
	r.types = map[string]types.Type{}
	st, rets, ok := r.do(st.clone(), nc, mk("sym", "transport", nc.Signature.Params().At(0).Type()))
	if !ok {
		c.bad("analysis", fnName(nc), nc.Pos(), "%s", r.fail)
		return nil, nil
	}
	r.client = rets[0]
	return r, st
}

func (r *nodeRun) intercept(fr *frame, st *State, fn *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
	x := r.x
	if r.extra != nil {
		if outs, ok := r.extra(fr, st, fn, nm, args, sig, pos); ok {
			return outs, true
		}
	}
	switch nm {
	case "encoding/json.Marshal":
		return r.marshal(st, args[0])
	case "encoding/json.Unmarshal":
		return r.unmarshal(st, x.content(st, args[0]), args[1], fr), true
	case "time.Sleep":
		return one(st), true
	case execName:
		st = st.clone()
		qt, at := r.c.typ("", "RPCRequest"), r.c.typ("", "RPCResponse")
		q := nodeReq{}
		m := x.fieldVal(st, args[1], qt, "Method")
		var ok bool
		if q.method, ok = m.str(); !ok {
			x.fail("the method of a request is %s", clip(m.String(), 40))
			return nil, true
		}
		ps := x.fieldVal(st, args[1], qt, "Params")
		n, ok := x.sliceLen(ps).i64()
		if !ok {
			x.fail("the number of parameters of %s is unknown", q.method)
			return nil, true
		}
		pc := x.content(st, ps)
		for i := int64(0); i < n; i++ {
			q.params = append(q.params, x.content(st, cSel(pc, mkInt(i), nil)))
		}
		r.reqs = append(r.reqs, q)
		res, fail := r.answer(q, len(r.reqs))
		if fail {
			e := x.err("node")
			st.facts = st.facts.push(mkNot(mkEq(e, mkNil(), errorT)))
			return one(st, e), true
		}
		if res == nil {
			x.fail("%s is not a request the check knows an answer to", q.method)
			return nil, true
		}
		fa := fieldAddrOf(args[2], at, "Result")
		x.store(st, fa, x.newBytes(st, res, deref(fa.typ)), deref(fa.typ))
		return one(st, mkNil()), true
	}
	return nil, false
}

func (h *hist) isErr(st *State, v *T) bool {
	return !v.isNil() && (nonNil(v) || decide(st.facts, mkNot(mkEq(v, mkNil(), nil))) == 1)
}

// jsonField is a field of an encoded value, nil if it is left out
func (h *hist) jsonField(c *T, name string) (*T, error) {
	if c.op == "sub" && c.args[0].op == "fn" {
		c = c.args[0]
	}
	if c.op != "fn" || len(c.args) != 2 {
		return nil, fmt.Errorf("a parameter is %s", clip(c.String(), 60))
	}
	tn, _ := c.args[1].str()
	v, t := c.args[0], h.types[tn]
	for v.op == "ptr" {
		v = v.args[0]
		if d := deref(t); d != nil {
			t = d
		}
	}
	s := structOf(t)
	if s == nil || v.op != "struct" {
		return nil, fmt.Errorf("a parameter is not an object")
	}
	for i := 0; i < s.NumFields(); i++ {
		if jsonName(s, i) != name {
			continue
		}
		f := v.args[i]
		for f.op == "ptr" {
			f = f.args[0]
		}
		if f.isNil() {
			return nil, nil
		}
		if f.op == "bytes" {
			f = f.args[0]
		}
		return f, nil
	}
	return nil, nil
}

// jsonValue is an encoded value without pointers
func jsonValue(c *T) *T {
	if c.op == "sub" && c.args[0].op == "fn" {
		c = c.args[0]
	}
	if c.op != "fn" || len(c.args) != 2 {
		return c
	}
	v := c.args[0]
	for v.op == "ptr" {
		v = v.args[0]
	}
	if v.op == "bytes" {
		v = v.args[0]
	}
	return v
}

// asInt is a number, however it is held
func asInt(v *T) *big.Int {
	if v == nil {
		return nil
	}
	if b, ok := bigOf(v); ok {
		return b
	}
	if n, ok := v.i64(); ok {
		return big.NewInt(n)
	}
	return nil
}

// ---- the scenarios ----

type senderRun struct {
	*nodeRun
	sender, signer *T
	senderT        types.Type
	bad            bool
	fn             *ssa.Function
	what           string
	fail           string // where a failure happens
	tx             []*T   // what was signed and encoded: transactions
	signed         []*T   // the hashes given to the signer
	recovered      string // the account the signature belongs to
	est            *big.Int
	polls          int // how often a transaction is still pending
	polled         int
	txObj          func(mined bool) *T
	receipt        *T
	blocks         []*T
	prompts        int
	base           *State
	num, denom     int64
	price          *big.Int
}

const senderNonce = 41

func (r *senderRun) say(rule, f string, a ...interface{}) bool {
	if !r.bad {
		r.c.bad(rule, fnName(r.fn), r.fn.Pos(), "%s: %s", r.what, fmt.Sprintf(f, a...))
	}
	r.bad = true
	return false
}

func hexLit(b *big.Int) *T { return cLit(fmt.Sprintf(`"0x%x"`, b)) }

func (r *senderRun) respond(q nodeReq, n int) (*T, bool) {
	switch q.method {
	case "eth_estimateGas":
		return hexLit(r.est), r.fail == "estimate"
	case "eth_getTransactionCount":
		return hexLit(big.NewInt(senderNonce)), r.fail == "nonce"
	case "eth_sendTransaction", "eth_sendRawTransaction":
		return r.hashLit("h"), r.fail == "send"
	case "eth_getTransactionByHash":
		if r.fail == "poll" && r.polled == r.polls {
			return nil, true
		}
		r.polled++
		return r.txObj(r.polled > r.polls), false
	case "eth_getTransactionReceipt":
		return r.receipt, r.fail == "receipt"
	case "eth_call":
		return cLit(fmt.Sprintf(`"0x%064x"`, 7)), r.fail == "call"
	case "eth_getBlockByNumber":
		if len(r.blocks) == 0 {
			return nil, false
		}
		b := r.blocks[0]
		r.blocks = r.blocks[1:]
		return b, r.fail == "block"
	}
	return nil, false
}

func hashBytes(s string) []byte {
	b := make([]byte, 32)
	b[0], b[31] = s[0], 7
	return b
}

func (r *senderRun) hashLit(s string) *T { return cLit(fmt.Sprintf(`"0x%x"`, hashBytes(s))) }

func (r *senderRun) opaque(fr *frame, st *State, fn *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
	x := r.x
	broke := func(tag string, rets ...*T) []outcome {
		st = st.clone()
		e := x.err(tag)
		st.facts = st.facts.push(mkNot(mkEq(e, mkNil(), errorT)))
		return one(st, append(rets, e)...)
	}
	switch nm {
	case "dynamic":
		if args[0].op == "sym" && args[0].aux == "signer" {
			st = st.clone()
			r.signed = append(r.signed, x.load(st, args[1], r.c.typ("", "Hash")))
			if r.fail == "signer" {
				return broke("signer", mkNil()), true
			}
			t := r.c.typ("", "Signature")
			p := x.newAlloc("sig", t)
			x.store(st, p, mk("fn", "signature", t, r.signed[len(r.signed)-1]), t)
			return one(st, p, mkNil()), true
		}
		if args[0].op == "sym" && args[0].aux == "prompt" {
			r.prompts++
			return one(st), true
		}
	case "(*seth.Transaction).HashToSign":
		st = st.clone()
		t := r.c.typ("", "Hash")
		d := x.deep(st, x.load(st, args[0], r.c.typ("", "Transaction")), r.c.typ("", "Transaction"), 0)
		r.tx = append(r.tx, d)
		p := x.newAlloc("hash", t)
		x.store(st, p, mk("fn", "signhash", t, d), t)
		return one(st, p), true
	case "(*seth.Transaction).Encode":
		st = st.clone()
		d := x.deep(st, x.load(st, args[0], r.c.typ("", "Transaction")), r.c.typ("", "Transaction"), 0)
		r.tx = append(r.tx, d)
		s := mkNil()
		if !args[1].isNil() {
			s = x.load(st, args[1], r.c.typ("", "Signature"))
		}
		return one(st, x.newBytes(st, mk("fn", "rawtx", nil, d, s), types.NewSlice(byteT))), true
	case "(*seth.Signature).Recover":
		st = st.clone()
		if r.fail == "recover" {
			return broke("recover", mkNil()), true
		}
		t := r.c.typ("", "PublicKey")
		p := x.newAlloc("pub", t)
		s := x.load(st, args[0], r.c.typ("", "Signature"))
		h := x.load(st, args[1], r.c.typ("", "Hash"))
		who := r.recovered
		if s.op != "fn" || s.aux != "signature" || s.args[0] != h {
			who = "?"
		}
		x.store(st, p, mk("fn", "pub", t, mkStr(who)), t)
		return one(st, p, mkNil()), true
	case "(*seth.PublicKey).Address":
		st = st.clone()
		k := x.load(st, args[0], r.c.typ("", "PublicKey"))
		if k.op != "fn" || k.aux != "pub" {
			return nil, false
		}
		who, _ := k.args[0].str()
		t := r.c.typ("", "Address")
		p := x.newAlloc("addr", t)
		x.store(st, p, acctConst(who), t)
		return one(st, p), true
	}
	return nil, false
}

func (c *Check) newSenderRun() *senderRun {
	n, st := c.newNodeRun()
	ns := c.fn("", "NewSender")
	if n == nil || ns == nil {
		return nil
	}
	r := &senderRun{nodeRun: n, senderT: deref(ns.Signature.Results().At(0).Type())}
	n.extra = r.opaque
	n.answer = r.respond
	r.fn = ns
	st = st.clone()
	st, rets, ok := r.do(st, ns, r.client, r.addr(st, "a"))
	if !ok {
		c.bad("analysis", fnName(ns), ns.Pos(), "%s", r.nodeRun.fail)
		return nil
	}
	r.sender, r.base = rets[0], st
	r.num, r.denom = 6, 5
	r.est = big.NewInt(100001)
	r.price = asInt(r.x.fieldVal(st, r.sender, r.senderT, "GasPrice"))
	if r.price == nil {
		c.bad("analysis", fnName(ns), ns.Pos(), "the default gas price is unknown")
		return nil
	}
	return r
}

func (r *senderRun) addr(st *State, a string) *T {
	t := r.c.typ("", "Address")
	p := r.x.newAlloc("addr", t)
	r.x.store(st, p, acctConst(a), t)
	return p
}

func (r *senderRun) intArg(st *State, v *big.Int) *T { return r.x.newBig(st, bigConst(v)) }

func (r *senderRun) set(st *State, name string, v *T) {
	fa := fieldAddrOf(r.sender, r.senderT, name)
	r.x.store(st, fa, v, deref(fa.typ))
}

// expect is what a transaction has to be
type expect struct {
	from, to string
	gas      *big.Int // nil: the estimate with the ratio
	price    *big.Int
	value    *big.Int // nil: none
	data     *T
	nonce    *big.Int // nil: not named
}

func (r *senderRun) padded() *big.Int {
	v := new(big.Int).Mul(r.est, big.NewInt(r.num))
	return v.Div(v, big.NewInt(r.denom))
}

func (r *senderRun) reset(st *State, what string, signer bool) *State {
	r.what = what
	r.reqs, r.tx, r.signed, r.polled, r.prompts = nil, nil, nil, 0, 0
	st = st.clone()
	t := deref(fieldAddrOf(r.sender, r.senderT, "Signer").typ)
	if signer {
		r.what += ", with a signer"
		g := mk("sym", "signer", t)
		st.facts = st.facts.push(mkNot(mkEq(g, mkNil(), t)))
		r.set(st, "Signer", g)
	} else {
		r.set(st, "Signer", mkNil())
	}
	ra := fieldAddrOf(r.sender, r.senderT, "GasRatio")
	for _, n := range []string{"Num", "Denom"} {
		fa := fieldAddrOf(ra, deref(ra.typ), n)
		r.x.store(st, fa, mkInt(map[string]int64{"Num": r.num, "Denom": r.denom}[n]), deref(fa.typ))
	}
	if r.fail != "" {
		r.what += ", failing at " + r.fail
	}
	return st
}

// sameFields compares the fields of a transaction in a request
func (r *senderRun) sameFields(where string, get func(name string) (*T, error), e *expect, estimate bool) bool {
	num := func(name string, want *big.Int, optional bool) bool {
		v, err := get(name)
		r.n++
		if err != nil {
			return r.say("requests", "%s: %s", where, err)
		}
		if v == nil && (want == nil || optional) {
			return true
		}
		g := asInt(v)
		if want == nil && g != nil && g.Sign() == 0 && name == "value" {
			return true
		}
		if want == nil || g == nil || g.Cmp(want) != 0 {
			return r.say("requests", "%s has the %s %s and not %v", where, name, clip(fmt.Sprint(v), 40), want)
		}
		return true
	}
	acct := func(name, want string) bool {
		v, err := get(name)
		r.n++
		if err != nil {
			return r.say("requests", "%s: %s", where, err)
		}
		if want == "" && v == nil || want != "" && v == acctConst(want) {
			return true
		}
		return r.say("requests", "%s has the %s %s and not account %q", where, name, clip(fmt.Sprint(v), 60), want)
	}
	gas := e.gas
	if gas == nil && !estimate {
		gas = r.padded()
	}
	d, err := get("data")
	if err != nil {
		return r.say("requests", "%s: %s", where, err)
	}
	r.n++
	if d == nil {
		d = cVec()
	}
	if d != e.data {
		return r.say("requests", "%s has the data %s and not %s", where, clip(d.String(), 60), clip(e.data.String(), 60))
	}
	return acct("from", e.from) && acct("to", e.to) && num("gas", gas, false) && num("gasPrice", e.price, false) && num("value", e.value, false) && num("nonce", e.nonce, estimate)
}

// sent judges the requests and the result of sending a transaction
func (r *senderRun) sent(st *State, e *expect, signer bool, er *T) bool {
	estimates, nonces, sends := 0, 0, 0
	for _, q := range r.reqs {
		switch q.method {
		case "eth_estimateGas":
			estimates++
			if !r.sameFields("the estimate", func(n string) (*T, error) { return r.jsonField(q.params[0], n) }, e, true) {
				return false
			}
		case "eth_getTransactionCount":
			nonces++
			r.n++
			if len(q.params) != 2 || jsonValue(q.params[0]) != acctConst(e.from) || q.params[1] != cLit(`"pending"`) {
				return r.say("requests", "the nonce asked for is not that of the sender's pending transactions")
			}
		case "eth_sendTransaction":
			sends++
			if signer {
				return r.say("requests", "the node is asked to sign")
			}
			if !r.sameFields("the transaction", func(n string) (*T, error) { return r.jsonField(q.params[0], n) }, e, false) {
				return false
			}
		case "eth_sendRawTransaction":
			sends++
			if !signer || len(q.params) != 1 {
				return r.say("requests", "a raw transaction is sent")
			}
			raw := jsonValue(q.params[0])
			if raw.op == "sub" {
				raw = raw.args[0]
			}
			r.n++
			if raw.op != "fn" || raw.aux != "rawtx" {
				return r.say("requests", "the raw transaction is %s", clip(raw.String(), 60))
			}
			s := raw.args[1]
			if s.op != "fn" || s.aux != "signature" || s.args[0].op != "fn" || s.args[0].aux != "signhash" {
				return r.say("requests", "the raw transaction does not carry the signature made for it")
			}
			full := *e
			if full.nonce == nil {
				full.nonce = big.NewInt(senderNonce)
			}
			tt := r.c.typ("", "Transaction")
			for i, d := range []*T{raw.args[0], s.args[0].args[0]} {
				where := []string{"the raw transaction", "the transaction that is signed"}[i]
				if !r.sameFields(where, func(n string) (*T, error) {
					n = map[string]string{"from": "From", "to": "To", "gas": "Gas", "gasPrice": "GasPrice", "value": "Value", "data": "Input", "nonce": "Nonce"}[n]
					if n == "From" {
						return acctConst(e.from), nil
					}
					v := dfield(d, tt, n)
					if v.isNil() {
						return nil, nil
					}
					if v.op == "bytes" {
						v = v.args[0]
					}
					return v, nil
				}, &full, false) {
					return false
				}
			}
		default:
			return r.say("requests", "%s is asked for", q.method)
		}
	}
	r.n += 3
	if e.gas == nil && estimates == 0 && r.fail != "nonce" {
		return r.say("requests", "no gas is estimated")
	}
	isErr := r.isErr(st, er)
	if !isErr && !er.isNil() {
		return r.say("analysis", "it is unknown whether it fails")
	}
	failed := r.fail != "" && r.fail != "send"
	if failed && sends != 0 {
		return r.say("requests", "a transaction is sent all the same")
	}
	if !failed && sends != 1 {
		return r.say("requests", "%d transactions are sent", sends)
	}
	if (r.fail != "") != isErr {
		return r.say("results", "the result is an error: %v", isErr)
	}
	if signer && e.nonce == nil && nonces == 0 && !failed {
		return r.say("requests", "no nonce is asked for")
	}
	return true
}

func runSender(c *Check) {
	r := c.newSenderRun()
	if r == nil {
		return
	}
	if r.calls() && r.sends() && r.waits() && r.creates() && r.cancels() && r.drains() && r.constCalls() {
		c.notes = append(c.notes, fmt.Sprintf("%d comparisons", r.n))
	}
	c.obl += r.n
	c.done += r.n
}

func (r *senderRun) method(name string) bool {
	r.fn = r.c.fn("", "(*Sender)."+name)
	return r.fn != nil
}

func (r *senderRun) calls() bool {
	if !r.method("Call") {
		return false
	}
	ot := r.c.typ("", "CallOpts")
	bit := func(i, b int) bool { return i>>uint(b)&1 == 1 }
	big70 := new(big.Int).Lsh(big.NewInt(3), 70)
	data := cVec(mk("sym", "d0", byteT), mk("sym", "d1", byteT), mk("sym", "d2", byteT))
	for i := 0; i < 128; i++ {
		for _, fail := range []string{"", "estimate", "nonce", "signer", "recover", "mismatch", "own", "send"} {
			for ri, ratio := range [][2]int64{{6, 5}, {1, 1}, {7, 3}} {
				signer := bit(i, 6)
				if !signer && (fail == "nonce" || fail == "signer" || fail == "recover" || fail == "mismatch" || fail == "own") || !bit(i, 0) && fail == "own" ||
					bit(i, 1) && fail == "estimate" || bit(i, 5) && fail == "nonce" || ri != 0 && fail != "" || ri != 0 && i%8 != 4 {
					continue
				}
				r.fail, r.recovered = fail, "a"
				r.num, r.denom = ratio[0], ratio[1]
				r.est = []*big.Int{big.NewInt(100001), big.NewInt(21000), big.NewInt(1 << 40)}[ri]
				e := &expect{from: "a", price: r.price, data: data}
				what := "a call giving"
				var st *State
				st = r.reset(r.base, what, signer)
				o := r.x.newAlloc("opts", ot)
				set := func(name string, v *T) {
					fa := fieldAddrOf(o, ot, name)
					r.x.store(st, fa, v, deref(fa.typ))
					r.what += " " + name
				}
				set("Data", r.x.newBytes(st, data, types.NewSlice(byteT)))
				if bit(i, 0) {
					e.from = "z"
					set("From", r.addr(st, "z"))
				}
				if bit(i, 1) {
					e.gas = big.NewInt(777777)
					set("Gas", r.intArg(st, e.gas))
				}
				if bit(i, 2) {
					e.price = big70
					if bit(i, 3) {
						e.price = big.NewInt(0)
					}
					set("GasPrice", r.intArg(st, e.price))
				}
				if bit(i, 3) {
					e.to = "t"
					set("To", r.addr(st, "t"))
				}
				if bit(i, 4) {
					e.value = new(big.Int).Add(big70, big.NewInt(9))
					set("Value", r.intArg(st, e.value))
				}
				if bit(i, 5) {
					e.nonce = big.NewInt(int64(i % 3))
					p := r.x.newAlloc("nonce", r.c.typ("", "Uint64"))
					r.x.store(st, p, mkInt(e.nonce.Int64()), r.c.typ("", "Uint64"))
					set("Nonce", p)
				}
				r.recovered = e.from
				switch fail {
				case "mismatch":
					r.recovered = "x"
				case "own": // the sender's, though another account is named
					r.recovered = "a"
				}
				st, rets, ok := r.do(st, r.fn, r.sender, o)
				if !ok {
					return r.say("analysis", "%s", r.nodeRun.fail)
				}
				if !r.sent(st, e, signer, rets[1]) {
					return false
				}
				if fail == "" {
					r.n++
					if rets[0] != cLit(string(hashBytes("h"))) {
						return r.say("results", "the hash returned is not the one the node gave")
					}
				}
			}
		}
	}
	r.fail, r.num, r.denom, r.est = "", 6, 5, big.NewInt(100001)
	return true
}

// encoded call data, as EncodeCall makes it
func (r *senderRun) callData(st *State, m string, args *T) (*T, bool) {
	f := r.c.fn("", "(*CallOpts).EncodeCall")
	if f == nil {
		return nil, false
	}
	ot := r.c.typ("", "CallOpts")
	o := r.x.newAlloc("opts", ot)
	s2, _, ok := r.do(st, f, o, mkStr(m), args)
	if !ok {
		return nil, r.say("analysis", "%s", r.nodeRun.fail)
	}
	return r.x.content(s2, r.x.fieldVal(s2, o, ot, "Data")), true
}

func (r *senderRun) ethArgs(st *State, sig *types.Signature) *T {
	t := sig.Params().At(sig.Params().Len() - 1).Type()
	it := types.NewPointer(r.c.typ("", "Int"))
	return r.x.newBytes(st, cVec(mkIface(it, r.intArg(st, big.NewInt(12345)))), t)
}

func (r *senderRun) sends() bool {
	if !r.method("Send") {
		return false
	}
	for _, signer := range []bool{false, true} {
		for _, fail := range []string{"", "estimate", "send"} {
			r.fail, r.recovered = fail, "a"
			st := r.reset(r.base, "sending f(uint256)", signer)
			args := r.ethArgs(st, r.fn.Signature)
			d, ok := r.callData(st, "f(uint256)", args)
			if !ok {
				return false
			}
			st, rets, ok := r.do(st, r.fn, r.sender, r.addr(st, "t"), mkStr("f(uint256)"), args)
			if !ok {
				return r.say("analysis", "%s", r.nodeRun.fail)
			}
			if !r.sent(st, &expect{from: "a", to: "t", price: r.price, data: d}, signer, rets[1]) {
				return false
			}
		}
	}
	return true
}

func (r *senderRun) pendingTx(hash, from string, nonce int64, price *big.Int, mined bool) *T {
	kv := []interface{}{"hash", r.hashLit(hash), "nonce", fmt.Sprintf(`"0x%x"`, nonce), "gasPrice", hexLit(price), "value", `"0x0"`, "gas", `"0x5208"`, "input", `"0x"`}
	if from != "" {
		kv = append(kv, "from", jAcct(from))
	}
	if mined {
		kv = append(kv, "transactionIndex", `"0x0"`)
	}
	return jObject(kv...)
}

func (r *senderRun) waits() bool {
	if !r.method("Wait") {
		return false
	}
	for polls := 0; polls < 4; polls++ {
		for _, fail := range []string{"", "poll"} {
			r.fail, r.polls = fail, polls
			r.txObj = func(mined bool) *T { return r.pendingTx("w", "a", 1, big.NewInt(5), mined) }
			st := r.reset(r.base, fmt.Sprintf("waiting for a transaction that is pending %d times", polls), false)
			p := r.x.newAlloc("hash", r.c.typ("", "Hash"))
			r.x.store(st, p, cLit(string(hashBytes("w"))), r.c.typ("", "Hash"))
			s2, rets, ok := r.do(st, r.fn, r.sender, p)
			if !ok {
				return r.say("analysis", "%s", r.nodeRun.fail)
			}
			r.n += 2
			if r.isErr(s2, rets[0]) != (fail != "") {
				return r.say("results", "the result is %s", clip(rets[0].String(), 40))
			}
			for _, q := range r.reqs {
				if q.method == "eth_getTransactionByHash" && jsonValue(q.params[0]) != cLit(string(hashBytes("w"))) {
					return r.say("requests", "another transaction is asked for")
				}
			}
			if fail == "" && r.polled != polls+1 {
				return r.say("results", "it returns after %d answers %v", r.polled, r.reqs)
			}
		}
	}
	return true
}

func (r *senderRun) creates() bool {
	if !r.method("Create") {
		return false
	}
	code := cVec(mk("sym", "code0", byteT), mk("sym", "code1", byteT))
	for _, signer := range []bool{false, true} {
		for _, value := range []*big.Int{nil, big.NewInt(99)} {
			for _, fail := range []string{"", "estimate", "send", "poll", "receipt", "address"} {
				for polls := 0; polls < 3; polls++ {
					r.fail, r.polls, r.recovered = fail, polls, "a"
					if r.fail == "address" {
						r.fail = ""
					}
					r.txObj = func(mined bool) *T { return r.pendingTx("h", "a", 1, big.NewInt(5), mined) }
					r.receipt = jObject("contractAddress", jAcct("n"), "transactionHash", r.hashLit("h"))
					if fail == "address" {
						r.receipt = jObject("transactionHash", r.hashLit("h"), "status", fmt.Sprintf(`"0x%x"`, polls&1))
					}
					st := r.reset(r.base, fmt.Sprintf("creating a contract (value %v, pending %d times, %s)", value, polls, fail), signer)
					v := mkNil()
					if value != nil {
						v = r.intArg(st, value)
					}
					s2, rets, ok := r.do(st, r.fn, r.sender, r.x.newBytes(st, code, types.NewSlice(byteT)), v)
					if !ok {
						return r.say("analysis", "%s", r.nodeRun.fail)
					}
					// the transaction and what follows
					var after []nodeReq
					for i, q := range r.reqs {
						if strings.HasPrefix(q.method, "eth_send") {
							after = r.reqs[i+1:]
							r.reqs = r.reqs[:i+1]
						}
					}
					er := rets[1]
					later := fail == "poll" || fail == "receipt" || fail == "address"
					r.n += 3
					if r.isErr(s2, er) != (fail != "") {
						return r.say("results", "the result is an error: %v", r.isErr(s2, er))
					}
					if later {
						er, r.fail = mkNil(), ""
					}
					if !r.sent(s2, &expect{from: "a", price: r.price, value: value, data: code}, signer, er) {
						return false
					}
					for _, q := range after {
						if q.method != "eth_getTransactionByHash" && q.method != "eth_getTransactionReceipt" || jsonValue(q.params[0]) != cLit(string(hashBytes("h"))) {
							return r.say("requests", "%s is asked for, or another transaction", q.method)
						}
					}
					if fail == "" && (rets[0] != acctConst("n") || r.polled != polls+1) {
						return r.say("results", "the address is %s after %d answers", clip(rets[0].String(), 60), r.polled)
					}
				}
			}
		}
	}
	return true
}

func (r *senderRun) cancels() bool {
	if !r.method("Cancel") {
		return false
	}
	one := big.NewInt(1)
	prices := []*big.Int{big.NewInt(1), new(big.Int).Sub(r.price, one), r.price, new(big.Int).Add(r.price, one), new(big.Int).Mul(r.price, big.NewInt(7)), new(big.Int).Lsh(one, 63), new(big.Int).Lsh(one, 80)}
	for _, signer := range []bool{false, true} {
		for _, price := range prices {
			for _, nonce := range []int64{0, 17} {
				for _, fail := range []string{"", "poll", "mined", "estimate", "send"} {
					r.fail, r.recovered = fail, "a"
					r.polls = 5
					if fail == "poll" {
						r.polls = 0
					}
					if fail == "mined" {
						r.fail, r.polls = "", 0
					}
					r.txObj = func(mined bool) *T { return r.pendingTx("w", "a", nonce, price, mined) }
					st := r.reset(r.base, fmt.Sprintf("cancelling a transaction with nonce %d and gas price %v (%s)", nonce, price, fail), signer)
					p := r.x.newAlloc("hash", r.c.typ("", "Hash"))
					r.x.store(st, p, cLit(string(hashBytes("w"))), r.c.typ("", "Hash"))
					s2, rets, ok := r.do(st, r.fn, r.sender, p)
					if !ok {
						return r.say("analysis", "%s", r.nodeRun.fail)
					}
					r.n += 2
					if r.isErr(s2, rets[1]) != (fail != "") {
						return r.say("results", "the result is an error: %v", r.isErr(s2, rets[1]))
					}
					var rest []nodeReq
					for _, q := range r.reqs {
						if q.method != "eth_getTransactionByHash" {
							rest = append(rest, q)
						} else if jsonValue(q.params[0]) != cLit(string(hashBytes("w"))) {
							return r.say("requests", "another transaction is asked for")
						}
					}
					r.reqs = rest
					if fail == "mined" || fail == "poll" {
						if len(rest) != 0 {
							return r.say("requests", "%s is asked for though the transaction cannot be cancelled", rest[0].method)
						}
						if fail == "mined" && rets[1] != r.c.globalErr("ErrCannotCancel") {
							return r.say("results", "the error is not that it cannot be cancelled")
						}
						continue
					}
					// the replacement offers more
					offer := r.offered()
					r.n++
					if offer != nil && offer.Cmp(price) <= 0 {
						return r.say("requests", "the replacement offers %v and not more than %v", offer, price)
					}
					if !r.sent(s2, &expect{from: "a", to: "a", price: offer, data: cVec(), nonce: big.NewInt(nonce)}, signer, rets[1]) {
						return false
					}
				}
			}
		}
	}
	r.fail = ""
	return true
}

// offered is the gas price in the requests
func (r *senderRun) offered() *big.Int {
	for _, q := range r.reqs {
		if len(q.params) == 0 {
			continue
		}
		if v, err := r.jsonField(q.params[0], "gasPrice"); err == nil && v != nil {
			return asInt(v)
		}
	}
	return nil
}

func (c *Check) globalErr(name string) *T {
	g := c.w.Global("", name)
	if g == nil {
		return nil
	}
	v, _ := c.w.globalInit.get(c.w.global(g))
	return v
}

func (r *senderRun) drains() bool {
	if !r.method("Drain") {
		return false
	}
	// blocks: the senders of the transactions in each
	for _, seq := range []string{"-", "b", "a|-", "bac|b", "a|a|-", "cb|", "ba|ab|b.", ".", ".a|."} {
		for _, fail := range []string{"", "block", "poll"} {
			for _, withPrompt := range []bool{false, true} {
				r.fail, r.polls = fail, 1
				r.blocks = nil
				own, left := 0, -1
				for bi, b := range strings.Split(seq, "|") {
					var txs []*T
					has := false
					for i, a := range b {
						if a == '-' {
							continue
						}
						from := string(a)
						if from == "." {
							from = ""
						}
						has = has || from == "a"
						txs = append(txs, r.pendingTx(string(rune('p'+bi)), from, int64(i), big.NewInt(5), false))
					}
					if has && left < 0 {
						own++
					} else if left < 0 {
						left = strings.Count(seq, "|") - bi
					}
					r.blocks = append(r.blocks, jObject("transactions", mk("fn", "list", nil, txs...)))
				}
				n := len(r.blocks)
				if fail == "poll" && own == 0 {
					continue
				}
				r.txObj = func(mined bool) *T {
					return r.pendingTx(string(rune('p'+n-len(r.blocks)-1)), "a", 1, big.NewInt(5), mined)
				}
				if fail == "poll" {
					r.polls = 0
				}
				st := r.reset(r.base, fmt.Sprintf("draining pending blocks with transactions of %q", seq), false)
				pt := r.fn.Signature.Params().At(0).Type()
				ps := mkNil()
				if withPrompt {
					ps = r.x.newBytes(st, cVec(mk("sym", "prompt", pt.(*types.Slice).Elem())), pt)
				}
				r.polls1(st)
				s2, rets, ok := r.do(st, r.fn, r.sender, ps)
				if !ok {
					return r.say("analysis", "%s", r.nodeRun.fail)
				}
				r.n += 3
				if r.isErr(s2, rets[0]) != (fail != "") {
					return r.say("results", "the result is an error: %v", r.isErr(s2, rets[0]))
				}
				if fail == "" && len(r.blocks) != left {
					return r.say("results", "it returns after asking for %d pending blocks and not %d", n-len(r.blocks), n-left)
				}
				if want := own; fail == "" && withPrompt && r.prompts != want {
					return r.say("results", "%d prompts are made and not %d", r.prompts, want)
				}
				for i, q := range r.reqs {
					switch q.method {
					case "eth_getBlockByNumber":
						if q.params[0] != cLit(`"pending"`) || jsonValue(q.params[1]) != mkBool(true) && q.params[1] != cLit("true") {
							return r.say("requests", "it does not ask for the pending block with its transactions")
						}
					case "eth_getTransactionByHash":
						h := ""
						for j := 0; j < n; j++ {
							if jsonValue(q.params[0]) == cLit(string(hashBytes(string(rune('p'+j))))) {
								h = string(rune('p' + j))
							}
						}
						if h == "" {
							return r.say("requests", "request %d is for another transaction", i)
						}
					default:
						return r.say("requests", "%s is asked for", q.method)
					}
				}
			}
		}
	}
	r.fail = ""
	return true
}

func (r *senderRun) polls1(st *State) {}

func (r *senderRun) constCalls() bool {
	if !r.method("ConstCall") {
		return false
	}
	it := r.c.typ("", "Int")
	for _, fail := range []string{"", "call"} {
		r.fail = fail
		st := r.reset(r.base, "a constant call of f(uint256)", true)
		args := r.ethArgs(st, r.fn.Signature)
		d, ok := r.callData(st, "f(uint256)", args)
		if !ok {
			return false
		}
		out := r.intArg(st, big.NewInt(0))
		s2, rets, ok := r.do(st, r.fn, r.sender, r.addr(st, "t"), mkStr("f(uint256)"), mkIface(types.NewPointer(it), out), args)
		if !ok {
			return r.say("analysis", "%s", r.nodeRun.fail)
		}
		r.n += 3
		if r.isErr(s2, rets[0]) != (fail != "") {
			return r.say("results", "the result is an error: %v", r.isErr(s2, rets[0]))
		}
		if len(r.reqs) != 1 || r.reqs[0].method != "eth_call" || r.reqs[0].params[1] != cLit(`"pending"`) {
			return r.say("requests", "it is not one call on the pending block")
		}
		for _, w := range []struct {
			f string
			v *T
		}{{"from", acctConst("a")}, {"to", acctConst("t")}, {"data", d}} {
			r.n++
			if v, err := r.jsonField(r.reqs[0].params[0], w.f); err != nil || v != w.v {
				return r.say("requests", "the call has the %s %s", w.f, clip(fmt.Sprint(v), 60))
			}
		}
		if v := asInt(r.x.bigVal(s2, out)); fail == "" && (v == nil || v.Int64() != 7) {
			return r.say("results", "the result is %v and not 7", v)
		}
	}
	return true
}
