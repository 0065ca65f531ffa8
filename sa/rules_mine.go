package main

// C24: what mining and sealing record, and what queries give back.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C24"] = &CheckDef{
		title:     "Mined transactions, receipts and blocks can be queried as they were",
		technique: "static abstract interpretation over SSA of all short mining histories with the virtual machine's outcomes scripted; comparison with a model of the chain",
		explanation: "Every sequence of successful calls, failing calls, contract creations and seals up to a depth is interpreted through Chain.Mine and Chain.Seal, with the virtual machine replaced by an outcome that changes the state and emits logs. Then every transaction, receipt and block is " +
			"asked for through Chain.Execute and compared, field by field, with what was sent and what the execution gave.",
		assumptions: []string{"the generated message codecs and encoding/json give back what was encoded", "Keccak-256 images of different contents differ", "the virtual machine changes the chain only through the state database"},
		min:         2000,
		run:         runMine,
	}
}

type refTx struct {
	hash, deep    *T // as sent
	sent          *T
	status        int64
	used, cumul   int64
	idx           int64
	ret           *T
	logs          []*T // what the execution logged
	created       *T
	failed        bool
	number, limit int64
}

type refBlock struct {
	num    int64
	hash   *T
	txs    []*refTx
	gas    int64
	parent *T
	limit  *T
	sealed bool
}

type mineRun struct {
	*chainRun
	txT   types.Type
	n     int
	nodes int
	obs   int
}

func runMine(c *Check) {
	cr, st := c.newChainRun("Mine", "Seal", "Execute", "AddBalance")
	if cr == nil {
		return
	}
	r := &mineRun{chainRun: cr}
	r.txT = deref(r.m["Chain.Mine"].Signature.Params().At(0).Type())
	st, ok := r.fund(st, "a", "1000000000000000000000000000000")
	if !ok {
		c.bad("analysis", "tevm.Chain.AddBalance", r.m["Chain.AddBalance"].Pos(), "%s", r.fail)
		return
	}
	b, ok := r.pending(st, " (a new chain)")
	if !ok {
		return
	}
	r.explore(st, []*refBlock{b}, "", 4)
	c.obl += r.obs
	c.done += r.obs
	c.rules["queries"] = r.obs
	c.ob("histories", "tevm.Chain", r.m["Chain.Mine"].Pos(), r.bad || r.nodes > 200, "only %d histories were analysed", r.nodes)
	c.notes = append(c.notes, fmt.Sprintf("%d histories, %d comparisons", r.nodes, r.obs))
}

// fund gives an account ether
func (r *chainRun) fund(st *State, a, v string) (*State, bool) {
	st = st.clone()
	p := r.x.newAlloc("addr", r.c.typ("", "Address"))
	r.x.store(st, p, acctConst(a), r.c.typ("", "Address"))
	b, _ := new(big.Int).SetString(v, 10)
	st, _, ok := r.do(st, r.m["Chain.AddBalance"], r.chain, p, r.x.newBig(st, bigConst(b)))
	return st, ok
}

func (r *mineRun) is(fn *ssa.Function, trail, what string, got, want *T) bool {
	r.obs++
	if got == want {
		return true
	}
	g, w := "nothing", "nothing"
	if got != nil {
		g = clip(got.String(), 90)
	}
	if want != nil {
		w = clip(want.String(), 90)
	}
	return r.report(fn, "records", trail, "%s is %s and not %s", what, g, w)
}

// pending reads the pending block of a chain
func (r *chainRun) pendingDeep(st *State) (*T, types.Type) {
	fa := fieldAddrOf(r.state, r.stateT, "Pending")
	if fa == nil {
		return nil, nil
	}
	pt := deref(fa.typ)
	s2 := st.clone()
	p := r.x.load(s2, fa, pt)
	return r.x.deep(s2, p, pt, 0), pt
}

func (r *mineRun) pending(st *State, trail string) (*refBlock, bool) {
	d, pt := r.pendingDeep(st)
	if d == nil {
		return nil, r.report(r.newChain, "anchor", trail, "the chain has no pending block")
	}
	n, ok := dfield(d, pt, "Number").i64()
	h := dfield(d, pt, "Hash")
	if !ok || h.isNil() || h.op == "const" {
		return nil, r.report(r.newChain, "records", trail, "the pending block has no number or no hash")
	}
	return &refBlock{num: n, hash: h, parent: dfield(d, pt, "Parent"), limit: dfield(d, pt, "GasLimit")}, true
}

func (r *mineRun) explore(st *State, bs []*refBlock, trail string, depth int) {
	if r.bad {
		return
	}
	r.nodes++
	if trail != "" && !r.inspectChain(st, bs, trail) || depth == 0 {
		return
	}
	for _, o := range []string{"call", "failing-call", "create", "seal"} {
		if r.bad {
			return
		}
		tr := trail + " " + o
		s2, n, ok := r.stepChain(st, bs, o, tr)
		if ok {
			r.explore(s2, n, tr, depth-1)
		}
	}
}

// tx makes a transaction
func (r *mineRun) tx(st *State, create bool) *T {
	x := r.x
	a := x.newAlloc("tx", r.txT)
	r.n++
	set := func(name string, v *T) {
		fa := fieldAddrOf(a, r.txT, name)
		x.store(st, fa, v, deref(fa.typ))
	}
	ref := func(name string, v *T) {
		fa := fieldAddrOf(a, r.txT, name)
		p := x.newAlloc("addr", deref(deref(fa.typ)))
		x.store(st, p, v, deref(deref(fa.typ)))
		x.store(st, fa, p, deref(fa.typ))
	}
	ref("From", acctConst("a"))
	if !create {
		ref("To", acctConst("b"))
	}
	set("Nonce", mk("sym", fmt.Sprintf("nonce%d", r.n), types.Typ[types.Uint64]))
	set("Gas", mkInt(int64(100000+r.n)))
	big1 := func(name string, v int64) {
		fa := fieldAddrOf(a, r.txT, name)
		x.store(st, fa, bigConst(big.NewInt(v)), deref(fa.typ))
	}
	big1("Value", int64(1000+r.n))
	big1("GasPrice", int64(7000+r.n))
	set("Input", x.newBytes(st, cVec(mk("sym", fmt.Sprintf("input%d", r.n), byteT)), types.NewSlice(byteT)))
	return a
}

func (r *mineRun) stepChain(st *State, bs []*refBlock, o, trail string) (*State, []*refBlock, bool) {
	x := r.x
	n := append([]*refBlock{}, bs...)
	cp := *n[len(n)-1]
	last := &cp
	n[len(n)-1] = last
	if o == "seal" {
		f := r.m["Chain.Seal"]
		s2, _, ok := r.do(st, f, r.chain)
		if !ok {
			return nil, nil, r.report(f, "analysis", trail, "%s", r.fail)
		}
		last.sealed = true
		b, ok := r.pending(s2, trail)
		if !ok {
			return nil, nil, false
		}
		if !r.is(f, trail, "the number of the new pending block", mkInt(b.num), mkInt(last.num+1)) ||
			!r.is(f, trail, "the parent of the new pending block", b.parent, last.hash) ||
			!r.is(f, trail, "the gas limit of the new pending block", b.limit, last.limit) {
			return nil, nil, false
		}
		for _, p := range n {
			if p.hash == b.hash {
				return nil, nil, r.report(f, "records", trail, "two blocks have the same hash")
			}
		}
		return s2, append(n, b), true
	}
	f := r.m["Chain.Mine"]
	st = st.clone()
	tx := r.tx(st, o == "create")
	sent := x.deep(st, x.load(st, tx, r.txT), r.txT, 0)
	t := &refTx{sent: sent, idx: int64(len(last.txs)), status: 1, number: last.num}
	left := int64(40000 + r.n)
	sc := vmScript{left: left, logs: 1 + r.n%2, ops: []string{"SetState b 1"}}
	if o == "failing-call" {
		sc = vmScript{left: int64(r.n), fail: true}
		t.status, t.failed = 0, true
	}
	logs0 := r.logList(st)
	r.script, r.calls = []vmScript{sc}, nil
	s2, rets, ok := r.do(st, f, r.chain, tx)
	if !ok {
		return nil, nil, r.report(f, "analysis", trail, "%s", r.fail)
	}
	if len(r.calls) != 1 {
		return nil, nil, r.report(f, "records", trail, "the transaction is executed %d times", len(r.calls))
	}
	k := r.calls[0]
	kind := "Call"
	if o == "create" {
		kind = "Create"
		t.created = k.addr
	}
	gas := dfield(sent, r.txT, "Gas")
	g, _ := gas.i64()
	lv, _ := k.left.i64()
	t.used = g - lv
	if k.kind != kind {
		return nil, nil, r.report(f, "records", trail, "it is executed by %s and not by %s", k.kind, kind)
	}
	if !r.is(f, trail, "the sender of the execution", k.caller, dfield(sent, r.txT, "From")) ||
		k.to != nil && !r.is(f, trail, "the callee of the execution", k.to, dfield(sent, r.txT, "To")) ||
		!r.is(f, trail, "the gas offered", k.gas, gas) ||
		!r.is(f, trail, "the value sent", k.value, dfield(sent, r.txT, "Value")) ||
		!r.is(f, trail, "the call data", k.input, dfield(sent, r.txT, "Input").args[0]) ||
		!r.is(f, trail, "the execution's block number", r.blockNumber(k.context), mkInt(last.num)) ||
		!r.is(f, trail, "the execution's origin", dfield(k.context, r.ctxT, "Origin"), dfield(sent, r.txT, "From")) {
		return nil, nil, false
	}
	s2 = s2.clone()
	if !r.is(f, trail, "the returned data", x.content(s2, rets[0]), k.ret) {
		return nil, nil, false
	}
	t.hash = rets[1]
	if rets[2] != k.er {
		return nil, nil, r.report(f, "records", trail, "the error of the execution is not returned")
	}
	for _, b := range n {
		for _, p := range b.txs {
			if p.hash == t.hash {
				return nil, nil, r.report(f, "records", trail, "two transactions have the same hash")
			}
		}
	}
	t.deep = x.deep(s2, x.load(s2, tx, r.txT), r.txT, 0)
	last.gas += t.used
	t.cumul = last.gas
	t.logs = r.logList(s2)[len(logs0):]
	last.txs = append(last.txs[:len(last.txs):len(last.txs)], t)
	return s2, n, true
}

// logList is the logs of the chain
func (r *chainRun) logList(st *State) []*T {
	fa := fieldAddrOf(r.state, r.stateT, "Logs")
	if fa == nil {
		return nil
	}
	s2 := st.clone()
	v := r.x.load(s2, fa, deref(fa.typ))
	l, _ := dlist(mk("bytes", "", nil, r.x.content(s2, v)))
	return l
}

func (r *chainRun) hashParam(st *State, h *T) *T {
	t := r.c.typ("", "Hash")
	return r.encoded(st, h, t, "json")
}

func (r *mineRun) inspectChain(st *State, bs []*refBlock, trail string) bool {
	ex := r.m["Chain.Execute"]
	for bi, b := range bs {
		if !r.inspectBlock(st, b, bi == len(bs)-1, trail) {
			return false
		}
		for _, t := range b.txs {
			p := r.hashParam(st, t.hash)
			what := fmt.Sprintf("transaction %d of block %d", t.idx, b.num)
			_, tx, tt, bad, ok := r.rpc(st, "eth_getTransactionByHash", p)
			if !ok {
				return r.report(ex, "analysis", trail, "%s", r.fail)
			}
			if bad || tx == nil {
				return r.report(ex, "records", trail, "%s is not found", what)
			}
			if !r.sameTx(b, t, tx, tt, what, trail) {
				return false
			}
			_, rx, rt, bad, ok := r.rpc(st, "eth_getTransactionReceipt", p)
			if !ok {
				return r.report(ex, "analysis", trail, "%s", r.fail)
			}
			if !b.sealed {
				r.obs++
				if !bad && rx != nil {
					return r.report(ex, "records", trail, "%s has a receipt before its block is sealed", what)
				}
				continue
			}
			if bad || rx == nil {
				return r.report(ex, "records", trail, "%s has no receipt", what)
			}
			if !r.sameReceipt(st, b, t, rx, rt, "the receipt of "+what, trail) {
				return false
			}
		}
	}
	return true
}

func (r *mineRun) sameTx(b *refBlock, t *refTx, tx *T, tt types.Type, what, trail string) bool {
	ex := r.m["Chain.Execute"]
	for _, f := range []string{"Nonce", "From", "To", "Value", "GasPrice", "Gas", "Input"} {
		if !r.is(ex, trail, "the "+f+" of "+what, dfield(tx, tt, f), dfield(t.sent, r.txT, f)) {
			return false
		}
	}
	return r.is(ex, trail, "the hash of "+what, dfield(tx, tt, "Hash"), t.hash) &&
		r.is(ex, trail, "the block of "+what, dfield(tx, tt, "Block"), b.hash) &&
		r.is(ex, trail, "the block number of "+what, dfield(tx, tt, "BlockNumber"), mkInt(b.num)) &&
		r.is(ex, trail, "the index of "+what, dfield(tx, tt, "TxIndex"), mkInt(t.idx))
}

func (r *mineRun) sameReceipt(st *State, b *refBlock, t *refTx, rx *T, rt types.Type, what, trail string) bool {
	ex := r.m["Chain.Execute"]
	if !r.is(ex, trail, "the hash of "+what, dfield(rx, rt, "Hash"), t.hash) ||
		!r.is(ex, trail, "the index of "+what, dfield(rx, rt, "Index"), mkInt(t.idx)) ||
		!r.is(ex, trail, "the block of "+what, dfield(rx, rt, "BlockHash"), b.hash) ||
		!r.is(ex, trail, "the block number of "+what, dfield(rx, rt, "BlockNumber"), mkInt(b.num)) ||
		!r.is(ex, trail, "the gas used of "+what, dfield(rx, rt, "GasUsed"), mkInt(t.used)) ||
		!r.is(ex, trail, "the cumulative gas of "+what, dfield(rx, rt, "Cumulative"), mkInt(t.cumul)) ||
		!r.is(ex, trail, "the status of "+what, dfield(rx, rt, "Status"), mkInt(t.status)) {
		return false
	}
	want := mkNil()
	if t.created != nil {
		want = t.created
	}
	if got := dfield(rx, rt, "Address"); got != want && !(t.created == nil && got.isNil()) {
		return r.is(ex, trail, "the contract address of "+what, got, want)
	}
	ls, ok := dlist(dfield(rx, rt, "Logs"))
	if !ok || len(ls) != len(t.logs) {
		return r.report(ex, "records", trail, "%s has %d logs and not %d", what, len(ls), len(t.logs))
	}
	lt := fieldTypeOf(rt, "Logs").Underlying().(*types.Slice).Elem()
	for i, l := range ls {
		if !r.sameLog(st, b, t, t.logs[i], l, lt, fmt.Sprintf("log %d of %s", i, what), trail) {
			return false
		}
	}
	return true
}

// sameLog compares a reported log with the one the execution added
func (r *mineRun) sameLog(st *State, b *refBlock, t *refTx, log, l *T, lt types.Type, what, trail string) bool {
	ex := r.m["Chain.Execute"]
	gt := deref(r.m["AddLog"].Signature.Params().At(0).Type())
	s2 := st.clone()
	gl := r.x.deep(s2, r.x.load(s2, log, gt), gt, 0)
	if !r.is(ex, trail, "the address of "+what, dfield(l, lt, "Address"), dfield(gl, gt, "Address")) ||
		!r.is(ex, trail, "the data of "+what, dfield(l, lt, "Data"), dfield(gl, gt, "Data")) ||
		!r.is(ex, trail, "the transaction of "+what, dfield(l, lt, "TxHash"), t.hash) ||
		!r.is(ex, trail, "the block of "+what, dfield(l, lt, "BlockHash"), b.hash) ||
		!r.is(ex, trail, "the transaction index of "+what, dfield(l, lt, "TxIndex"), mkInt(t.idx)) ||
		!r.is(ex, trail, "the block number of "+what, dfield(l, lt, "BlockNumber"), mkInt(b.num)) {
		return false
	}
	gts, ok1 := dlist(dfield(gl, gt, "Topics"))
	lts, ok2 := dlist(dfield(l, lt, "Topics"))
	if !ok1 || !ok2 || len(gts) != len(lts) {
		return r.report(ex, "records", trail, "%s has %d topics and not %d", what, len(lts), len(gts))
	}
	for i := range gts {
		if !r.is(ex, trail, "a topic of "+what, lts[i], mk("bytes", "", nil, gts[i])) {
			return false
		}
	}
	return true
}

func (r *mineRun) inspectBlock(st *State, b *refBlock, pending bool, trail string) bool {
	ex := r.m["Chain.Execute"]
	asks := []struct {
		what string
		m    string
		p    *T
	}{
		{"by number", "eth_getBlockByNumber", cLit(fmt.Sprintf(`"0x%x"`, b.num))},
		{"by hash", "eth_getBlockByHash", r.hashParam(st, b.hash)},
	}
	if pending {
		asks = append(asks, struct {
			what string
			m    string
			p    *T
		}{"as pending", "eth_getBlockByNumber", cLit(`"pending"`)})
	}
	for _, q := range asks {
		for _, full := range []bool{false, true} {
			what := fmt.Sprintf("block %d asked for %s", b.num, q.what)
			_, v, t, bad, ok := r.rpc(st, q.m, q.p, cLit(fmt.Sprint(full)))
			if !ok {
				return r.report(ex, "analysis", trail, "%s", r.fail)
			}
			if bad || v == nil {
				return r.report(ex, "records", trail, "%s is not found", what)
			}
			if !r.is(ex, trail, "the number of "+what, dfield(v, t, "Number"), mkInt(b.num)) ||
				!r.is(ex, trail, "the hash of "+what, dfield(v, t, "Hash"), b.hash) ||
				!r.is(ex, trail, "the parent of "+what, dfield(v, t, "Parent"), b.parent) ||
				!r.is(ex, trail, "the gas used of "+what, dfield(v, t, "GasUsed"), mkInt(b.gas)) ||
				!r.is(ex, trail, "the gas limit of "+what, dfield(v, t, "GasLimit"), b.limit) {
				return false
			}
			txs, ok := dlist(dfield(v, t, "Transactions"))
			if !ok || len(txs) != len(b.txs) {
				return r.report(ex, "records", trail, "%s has %d transactions and not %d", what, len(txs), len(b.txs))
			}
			for i, tx := range txs {
				w := fmt.Sprintf("transaction %d of %s", i, what)
				if tx.op != "bytes" {
					return r.report(ex, "records", trail, "%s is not a message", w)
				}
				c := tx.args[0]
				if c.op == "sub" {
					c = c.args[0]
				}
				if c.op != "fn" || len(c.args) != 2 {
					return r.report(ex, "records", trail, "%s is not an encoded value", w)
				}
				if !full {
					if !r.is(ex, trail, w, c.args[0], b.txs[i].hash) {
						return false
					}
					continue
				}
				tn, _ := c.args[1].str()
				if r.types[tn] == nil || !strings.HasSuffix(tn, "Transaction") {
					return r.report(ex, "records", trail, "%s is not a transaction", w)
				}
				if !r.sameTx(b, b.txs[i], c.args[0], r.types[tn], w, trail) {
					return false
				}
			}
		}
	}
	return true
}

var _ = token.NoPos
