package main

// C08: the encoding of transactions that is hashed, signed and sent.

import (
	"bytes"
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// evalCases compares what the summary of fn yields with the specification
// for an assignment of the unknown bytes and all changes of it in one byte
func (c *Check) evalCases(fn *ssa.Function, r *Result, syms []*T, base []byte, what string, extra func(env *evalEnv, val []byte), sweep func(i int) []byte, got func(h *texts, p *Path) ([]byte, bool), want func(val []byte) []byte) {
	h := newTexts(r, syms, extra)
	h.rebase(base)
	fine := true
	check := func(pos ...int) {
		if !fine {
			return
		}
		p, why := h.path(pos...)
		if p == nil || p.Kind != "return" {
			fine = false
			c.bad("decides", fnName(fn), fn.Pos(), "%s, bytes %x: %s", what, h.val, why)
			return
		}
		g, ok := got(h, p)
		w := want(h.val)
		if !ok {
			fine = false
			c.bad("decides", fnName(fn), p.Pos, "%s, bytes %x: the result is not determined", what, h.val)
		} else if !bytes.Equal(g, w) {
			fine = false
			c.bad("encoding", fnName(fn), p.Pos, "%s, bytes %x: the encoding is %x, not %x", what, h.val, g, w)
		}
	}
	check()
	for i := range syms {
		for _, v := range sweep(i) {
			h.val[i] = v
			check(i)
		}
		h.val[i] = base[i]
	}
	c.ob("encoding", fnName(fn)+"/"+what, fn.Pos(), fine, "%s: the encoding is not the standard one", what)
}

// a number of n unknown bytes, the first not zero
type numVar struct {
	leaf *T // the value (nil: zero)
	syms []*T
}

// freshNum makes a number of exactly n bytes
func freshNum(st *State, name string, n int, typ types.Type) numVar {
	v := numVar{syms: byteSyms(n, name)}
	for i := range v.syms {
		v.syms[i] = mk("sym", fmt.Sprintf("%s/%d.%d", name, n, i), byteT)
	}
	if isBig(typ) {
		v.leaf = mk("sym", fmt.Sprintf("%s/%d", name, n), typ)
		if n == 0 {
			v.leaf = zeroOf(typ)
		}
		return v
	}
	if n == 0 {
		v.leaf = mkInt(0)
		return v
	}
	v.leaf = mk("sym", fmt.Sprintf("%s/%d", name, n), typ)
	lo := new(big.Int).Lsh(bigOne(), uint(8*(n-1)))
	hi := new(big.Int).Lsh(bigOne(), uint(8*n))
	hi.Sub(hi, bigOne())
	ult := func(a, b *T) *T { return mk("ult", "u64", types.Typ[types.Bool], a, b) }
	st.facts = st.facts.push(mkNot(ult(v.leaf, mkBig(lo)))).push(mkNot(ult(mkBig(hi), v.leaf)))
	return v
}

// bytesHook makes (*big.Int).Bytes yield the bytes of the unknown numbers
func bytesHook(x *Exec, nums func() []numVar) func(fr *frame, st *State, callee *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
	bt := types.NewSlice(byteT)
	return func(fr *frame, st *State, callee *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
		if nm != "(*math/big.Int).Bytes" {
			return nil, false
		}
		v := x.bigVal(st, args[0])
		for _, n := range nums() {
			if v == n.leaf || v.op == "big" && v.aux == "ofint" && v.args[0] == n.leaf {
				return one(st, x.newBytes(st, cVec(n.syms...), bt)), true
			}
		}
		if v.op == "big" && v.aux == "ofbytes" {
			c := v.args[0]
			if c.op == "vec" {
				a := c.args
				for len(a) > 0 && isZeroInt(a[0]) {
					a = a[1:]
				}
				if len(a) == 0 || holds(st.facts, leT(mkInt(1), a[0])) {
					return one(st, x.newBytes(st, cVec(a...), bt)), true
				}
			}
		}
		return nil, false
	}
}

// rlp: the specification
func rlpStr(b []byte) []byte {
	if len(b) == 1 && b[0] < 0x80 {
		return b
	}
	return append(rlpHead(len(b), 0x80), b...)
}

func rlpHead(n int, off byte) []byte {
	if n < 56 {
		return []byte{off + byte(n)}
	}
	l := big.NewInt(int64(n)).Bytes()
	return append([]byte{off + 55 + byte(len(l))}, l...)
}

func rlpList(items ...[]byte) []byte {
	var b []byte
	for _, i := range items {
		b = append(b, rlpStr(i)...)
	}
	return append(rlpHead(len(b), 0xc0), b...)
}

type txCase struct {
	nonce, price, gas, value, data, r, s int
	to                                   bool
}

func txCases() []txCase {
	b := txCase{1, 5, 2, 8, 4, 32, 32, true}
	out := []txCase{b}
	add := func(f func(c *txCase)) {
		c := b
		f(&c)
		out = append(out, c)
	}
	for _, n := range []int{0, 2, 3, 7, 8} {
		n := n
		add(func(c *txCase) { c.nonce = n })
		add(func(c *txCase) { c.gas = n })
	}
	add(func(c *txCase) { c.gas = 1 })
	for _, n := range []int{0, 1, 2, 12, 31, 32} {
		n := n
		add(func(c *txCase) { c.price = n })
		add(func(c *txCase) { c.value = n })
	}
	add(func(c *txCase) { c.to = false })
	add(func(c *txCase) { c.to = false; c.data = 0; c.nonce = 0; c.value = 0 })
	for _, n := range []int{0, 1, 2, 3, 19, 20, 21, 22, 23, 24, 54, 55, 56, 57, 68, 100, 200, 255, 256, 257, 65535, 65536} {
		n := n
		add(func(c *txCase) { c.data = n })
	}
	for _, n := range []int{1, 30, 31} {
		n := n
		add(func(c *txCase) { c.r = n })
		add(func(c *txCase) { c.s = n })
	}
	return out
}

func (t txCase) String() string {
	to := "a recipient"
	if !t.to {
		to = "no recipient"
	}
	return fmt.Sprintf("%d-byte nonce, %d-byte price, %d-byte gas, %s, %d-byte value, %d bytes of data, r and s of %d and %d bytes", t.nonce, t.price, t.gas, to, t.value, t.data, t.r, t.s)
}

func init() {
	checks["C08"] = &CheckDef{
		title:     "Transactions are signed and sent in the standard encoding",
		technique: "static abstract interpretation over SSA with value numbering and constant-trip-count unrolling; finite-domain evaluation of the summary terms against the specification",
		explanation: "Encode, HashToSign and SignTransaction are interpreted on transactions whose fields consist of given numbers of unknown bytes (every length class of the encoding for every field). The content term that is hashed or returned is compared with the specified encoding for the base assignment and all changes of it in one byte. " +
			"SignTransaction is also checked for passing the signer the hash to sign once, and for returning no raw form when signing fails.",
		assumptions: []string{"bytes.Buffer and math/big behave as documented", "the keccak package computes Keccak-256 (see not applicable: hash function)", "bytes of a field are varied one at a time"},
		min:         90,
		run:         runTx,
	}
}

func runTx(c *Check) {
	hts, enc, st := c.fn("", "(*Transaction).HashToSign"), c.fn("", "(*Transaction).Encode"), c.fn("", "SignTransaction")
	if hts == nil || enc == nil || st == nil {
		return
	}
	for i, tc := range txCases() {
		for _, mode := range []string{"hash", "raw", "sign"} {
			if mode == "sign" && i%7 != 0 {
				continue
			}
			c.txCase(tc, mode, map[string]*ssa.Function{"hash": hts, "raw": enc, "sign": st}[mode], st)
		}
	}
	// SignTransaction: a failing signer
	c.fns[fnName(st)] = true
}

func (c *Check) txCase(tc txCase, mode string, fn, stx *ssa.Function) {
	var nums []numVar
	var syms []*T
	var base []byte
	var lead []bool
	fields := map[string]numVar{}
	var data, to []*T
	var v *T
	var signErr *T
	take := func(s []*T, first byte, isNum bool) {
		for i, y := range s {
			syms = append(syms, y)
			if i == 0 && isNum {
				base = append(base, first)
				lead = append(lead, true)
			} else {
				base = append(base, byte(0x30+i))
				lead = append(lead, false)
			}
		}
	}
	r, err := c.w.AnalyzeWith(fn, func(x *Exec) {
		x.ifConvert = true
		x.unrollMax = 300
		x.maxSteps = 600000
		bh := bytesHook(x, func() []numVar { return nums })
		x.hook = func(fr *frame, st *State, callee *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
			if mode == "sign" && callee == nil && len(args) == 2 && args[0].op == "sym" && sig.Params().Len() == 1 && sig.Results().Len() == 2 {
				// the signer
				hash := x.load(st, args[1], deref(sig.Params().At(0).Type()))
				s2 := st.clone()
				s2.ev = s2.ev.push(&Event{kind: "call", name: "signfail", pos: pos, fn: fr.fn, mem: s2.mem})
				st.ev = st.ev.push(&Event{kind: "call", name: "signed", args: []*T{hash}, pos: pos, fn: fr.fn, mem: st.mem})
				signErr = mk("err", "signing failed", errorT)
				sigT := sig.Results().At(0).Type()
				return []outcome{{st: st, rets: []*T{x.newSig(st, sigT, tc, fields, v), mkNil()}}, {st: s2, rets: []*T{mkNil(), signErr}}}, true
			}
			return bh(fr, st, callee, nm, args, sig, pos)
		}
	}, func(x *Exec, st *State, args []*T) {
		tt := deref(fn.Params[0].Type())
		s := tt.Underlying().(*types.Struct)
		tx := x.newAlloc("tx", tt)
		set := func(name string, val *T) {
			a := fieldAddrOf(tx, tt, name)
			if a == nil {
				c.bad("anchor", "seth.Transaction."+name, fn.Pos(), "the transaction has no field %s", name)
				return
			}
			x.store(st, a, val, deref(a.typ))
		}
		ftyp := func(name string) types.Type {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == name {
					return s.Field(i).Type()
				}
			}
			return intT
		}
		num := func(name string, n int) {
			nv := freshNum(st, name, n, ftyp(name))
			fields[name] = nv
			nums = append(nums, nv)
			set(name, nv.leaf)
			take(nv.syms, 1, true)
		}
		// fields that must not matter
		for i := 0; i < s.NumFields(); i++ {
			t := s.Field(i).Type()
			x.store(st, faddr(tx, tt, i), mk("sym", "other."+s.Field(i).Name(), t), t)
		}
		num("Nonce", tc.nonce)
		num("GasPrice", tc.price)
		num("Gas", tc.gas)
		if tc.to {
			to = byteSyms(20, "to")
			take(to, 0, false)
			at := deref(ftyp("To"))
			a := x.newAlloc("to", at)
			x.store(st, a, cVec(to...), at)
			set("To", a)
		} else {
			set("To", mkNil())
		}
		num("Value", tc.value)
		data = byteSyms(tc.data, "data")
		if n := tc.data - 8; n > 1000 {
			// only the ends are unknown
			take(data[:8], 0, false)
			take(data[n:], 0, false)
			for i := 8; i < n; i++ {
				data[i] = mkInt(int64(i % 251))
			}
		} else {
			take(data, 0, false)
		}
		if tc.data == 0 {
			set("Input", mkNil())
		} else {
			set("Input", x.newBytes(st, cVec(data...), ftyp("Input")))
		}
		args[0] = tx
		if mode != "hash" {
			v = mk("sym", "v", byteT)
			st.facts = st.facts.push(leT(v, mkInt(1)))
			for _, n := range []string{"r", "s"} {
				k := tc.r
				if n == "s" {
					k = tc.s
				}
				nv := numVar{syms: byteSyms(k, n)}
				st.facts = st.facts.push(leT(mkInt(1), nv.syms[0]))
				fields[n] = nv
				take(nv.syms, 1, true)
			}
			syms, base, lead = append(syms, v), append(base, 1), append(lead, false)
		}
		if mode == "raw" {
			args[1] = x.newSig(st, fn.Params[1].Type(), tc, fields, v)
		}
	})
	if err != nil {
		c.bad("analysis", fnName(fn), fn.Pos(), "the function could not be analysed (%s): %v", tc, err)
		return
	}
	extra := func(env *evalEnv, val []byte) {
		at := map[*T]byte{}
		for i, y := range syms {
			at[y] = val[i]
		}
		for _, n := range nums {
			if n.leaf != nil && n.leaf.op == "sym" {
				b := make([]byte, len(n.syms))
				for i, y := range n.syms {
					b[i] = at[y]
				}
				env.sym[n.leaf] = new(big.Int).SetBytes(b)
			}
		}
	}
	sweep := func(i int) []byte {
		if syms[i] == v {
			return []byte{0, 1}
		}
		if lead[i] {
			var out []byte
			for b := 1; b < 0x7f; b++ {
				out = append(out, byte(b))
			}
			if syms[i].aux[0] != 'r' && syms[i].aux[0] != 's' {
				out = append(out, 0x7f, 0x80, 0x81, 0xb7, 0xc0, 0xf7, 0xff)
			}
			return out
		}
		if tc.data == 1 && syms[i] == data[0] {
			var out []byte
			for b := 0; b < 256; b++ {
				out = append(out, byte(b))
			}
			return out
		}
		return []byte{0, 1, 0x7f, 0x80, 0xff}
	}
	vals := func(val []byte, s []*T) []byte {
		at := map[*T]byte{}
		for i, y := range syms {
			at[y] = val[i]
		}
		b := []byte{}
		for _, y := range s {
			if n, ok := y.i64(); ok {
				b = append(b, byte(n))
			} else {
				b = append(b, at[y])
			}
		}
		return b
	}
	body := func(val []byte) [][]byte {
		return [][]byte{vals(val, fields["Nonce"].syms), vals(val, fields["GasPrice"].syms), vals(val, fields["Gas"].syms), vals(val, to), vals(val, fields["Value"].syms), vals(val, data)}
	}
	unsigned := func(val []byte) []byte { return rlpList(append(body(val), []byte{1}, nil, nil)...) }
	signed := func(val []byte) []byte {
		vv := vals(val, []*T{v})[0]
		return rlpList(append(body(val), []byte{vv + 37}, vals(val, fields["r"].syms), vals(val, fields["s"].syms))...)
	}
	what := mode + " form, " + tc.String()
	if mode == "sign" {
		var okPaths []*Path
		for _, p := range r.Paths {
			if p.Kind != "return" {
				c.bad("sign", fnName(fn), p.Pos, "signing panics")
				continue
			}
			n, f := len(p.calls("signed")), len(p.calls("signfail"))
			c.ob("sign", fnName(fn)+"/once", p.Pos, n+f == 1, "the signer is called %d times", n+f)
			if f > 0 {
				c.ob("sign", fnName(fn)+"/failure", p.Pos, p.Ret[1] == signErr && (p.Ret[0].isNil() || lenOf(r.X, p.Ret[0]) == 0), "a signing failure is not returned as an error without a raw form")
				continue
			}
			c.ob("sign", fnName(fn)+"/success", p.Pos, p.Ret[1].isNil(), "an error is returned although signing succeeded")
			okPaths = append(okPaths, p)
		}
		r2 := &Result{Fn: fn, Params: r.Params, X: r.X, Paths: okPaths}
		c.evalCases(fn, r2, syms, base, "hash given to the signer, "+tc.String(), extra, sweep, func(h *texts, p *Path) ([]byte, bool) {
			return hashed(p.calls("signed")[0].args[0])(h, p)
		}, unsigned)
		r.Paths = okPaths
	}
	c.evalCases(fn, r, syms, base, what, extra, sweep, func(h *texts, p *Path) ([]byte, bool) {
		if mode == "hash" {
			return hashed(r.X.load(p.St, p.Ret[0], deref(p.Ret[0].typ)))(h, p)
		}
		return h.outBytes(r.X.content(p.St, p.Ret[0]))
	}, func(val []byte) []byte {
		if mode == "hash" {
			return unsigned(val)
		}
		return signed(val)
	})
}

// hashed: what a Keccak-256 hash was computed over
func hashed(t *T) func(h *texts, p *Path) ([]byte, bool) {
	return func(h *texts, p *Path) ([]byte, bool) {
		if t.op != "fn" || t.aux != "keccak256" {
			return nil, false
		}
		return h.outBytes(t.args[0])
	}
}

func lenOf(x *Exec, s *T) int64 {
	n, ok := x.sliceLen(s).i64()
	if !ok {
		return -1
	}
	return n
}

// newSig: a signature with the given parts
func (x *Exec) newSig(st *State, pt types.Type, tc txCase, f map[string]numVar, v *T) *T {
	et := deref(pt)
	a := x.newAlloc("sig", et)
	var el []*T
	pad := func(n numVar) {
		for i := len(n.syms); i < 32; i++ {
			el = append(el, mkInt(0))
		}
		el = append(el, n.syms...)
	}
	pad(f["r"])
	pad(f["s"])
	el = append(el, v)
	x.store(st, a, cVec(el...), et)
	return a
}
