package main

// C14: keys and signatures. The arithmetic of the curve is a specification;
// what is done with it is interpreted into terms over the key, the hash and
// the nonce.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C14"] = &CheckDef{
		title:     "Signatures are valid, canonical and recover the signer's key",
		technique: "static abstract interpretation over SSA into algebraic terms over key, hash and nonce; identity of rational functions modulo the group order; boundary values on both sides of every comparison",
		explanation: "The methods of keys and signatures are interpreted with the key, the hash, the nonces and the parts of signatures unknown; the curve operations, the hash and the cipher are specifications. Comparisons are decided by sample values chosen on both sides and on the boundary of every one of them, with values of full and of shorter length; " +
			"the terms computed on each path are compared with the ECDSA equations at the sample and at fresh values, as identities modulo the order and of points.",
		assumptions: []string{"the curve operations compute the group law of secp256k1", "the Keccak sponge and AES-CTR are functions of their inputs", "math/big behaves as documented"},
		min:         400,
		run:         runSig,
	}
}

// ---- the curve ----

type ecPoint struct{ x, y *big.Int } // nil x: infinity

var ecP, ecN, ecG = func() (*big.Int, *big.Int, ecPoint) {
	h := func(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }
	return h("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F"),
		h("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141"),
		ecPoint{h("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"), h("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")}
}()

func ecAdd(a, b ecPoint) ecPoint {
	if a.x == nil {
		return b
	}
	if b.x == nil {
		return a
	}
	l := new(big.Int)
	if a.x.Cmp(b.x) == 0 {
		if s := new(big.Int).Add(a.y, b.y); s.Mod(s, ecP).Sign() == 0 {
			return ecPoint{}
		}
		l.Mul(a.x, a.x).Mul(l, big.NewInt(3))
		l.Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(a.y, 1), ecP))
	} else {
		d := new(big.Int).Sub(b.x, a.x)
		l.Sub(b.y, a.y).Mul(l, d.ModInverse(d.Mod(d, ecP), ecP))
	}
	l.Mod(l, ecP)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.x).Sub(x, b.x).Mod(x, ecP)
	y := new(big.Int).Sub(a.x, x)
	y.Mul(y, l).Sub(y, a.y).Mod(y, ecP)
	return ecPoint{x, y}
}

func ecMul(p ecPoint, k *big.Int) ecPoint {
	r := ecPoint{}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = ecAdd(r, r)
		if k.Bit(i) == 1 {
			r = ecAdd(r, p)
		}
	}
	return r
}

func ecOn(x, y *big.Int) bool {
	l := new(big.Int).Mul(y, y)
	r := new(big.Int).Mul(x, x)
	r.Mul(r, x).Add(r, big.NewInt(7))
	return l.Sub(l, r).Mod(l, ecP).Sign() == 0
}

// ecLift is the point with an abscissa and the parity of its ordinate
func ecLift(x *big.Int, v uint) (ecPoint, bool) {
	y := new(big.Int).Mul(x, x)
	y.Mul(y, x).Add(y, big.NewInt(7)).Mod(y, ecP)
	e := new(big.Int).Add(ecP, big.NewInt(1))
	y.Exp(y, e.Rsh(e, 2), ecP)
	if !ecOn(x, y) {
		return ecPoint{}, false
	}
	if y.Bit(0) != v {
		y.Sub(ecP, y)
	}
	return ecPoint{x, y}, true
}

// ---- terms and their values ----

type sigRun struct {
	*hist
	val    map[string]*big.Int // the sample
	memo   map[*T]*big.Int
	pts    map[*T]ecPoint
	keyOf  *T // what the nonces are derived from
	nonces int
	rnd    uint64
	taken  []func() bool // do the values lead along the path taken?
	n      int
	fresh  int // samples besides the one that led along the path
	bad    bool
	what   string
	fn     *ssa.Function
	base   *State
}

func (r *sigRun) say(rule, f string, a ...interface{}) bool {
	if !r.bad {
		r.c.bad(rule, fnName(r.fn), r.fn.Pos(), "%s: %s", r.what, fmt.Sprintf(f, a...))
	}
	r.bad = true
	return false
}

// random numbers below the order, reproducible
func (r *sigRun) random() *big.Int {
	b := make([]byte, 40)
	for i := range b {
		r.rnd = r.rnd*6364136223846793005 + 1442695040888963407
		b[i] = byte(r.rnd >> 56)
	}
	v := new(big.Int).SetBytes(b)
	return v.Mod(v, new(big.Int).Sub(ecN, big.NewInt(1))).Add(v, big.NewInt(1))
}

func (r *sigRun) sample(kv ...interface{}) {
	r.val = map[string]*big.Int{}
	for i := 0; i+1 < len(kv); i += 2 {
		r.val[kv[i].(string)] = kv[i+1].(*big.Int)
	}
	r.memo, r.pts = map[*T]*big.Int{}, map[*T]ecPoint{}
}

type evalFail string

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func bigSym(name string) *T { return mk("big", "sym", nil, mkStr(name)) }

// bytesOf: the l bytes of a number that has no more
func bytesOf(v *T, l int) []*T {
	var out []*T
	for i := l - 1; i >= 0; i-- {
		out = append(out, mk("fn", "byteof", byteT, v, mkInt(int64(i)), mkInt(int64(l))))
	}
	return out
}

// number: the value of a number term under the sample
func (r *sigRun) number(t *T) *big.Int {
	if v, ok := r.memo[t]; ok {
		return v
	}
	v := r.number1(t)
	r.memo[t] = v
	return v
}

func (r *sigRun) number1(t *T) *big.Int {
	if c, ok := bigOf(t); ok {
		return c
	}
	if t.op != "big" {
		panic(evalFail("the value of " + clip(t.String(), 60) + " is unknown"))
	}
	n := func(i int) *big.Int { return r.number(t.args[i]) }
	z := new(big.Int)
	switch t.aux {
	case "sym":
		s, _ := t.args[0].str()
		if v := r.val[s]; v != nil {
			return v
		}
	case "xof", "yof":
		p := r.point(t.args[0])
		switch {
		case p.x == nil:
			return z
		case t.aux == "xof":
			return p.x
		}
		return p.y
	case "ofint":
		if b, ok := r.byteVal(t.args[0]); ok {
			return z.SetInt64(int64(b))
		}
	case "ofbytes":
		c := t.args[0]
		n, ok := cLen(c).i64()
		if !ok || n > 200 {
			break
		}
		b := make([]byte, n)
		for i := range b {
			if b[i], ok = r.byteVal(cSel(c, mkInt(int64(i)), byteT)); !ok {
				panic(evalFail("the value of " + clip(c.String(), 60) + " is unknown"))
			}
		}
		return z.SetBytes(b)
	case "add":
		return z.Add(n(0), n(1))
	case "sub":
		return z.Sub(n(0), n(1))
	case "mul":
		return z.Mul(n(0), n(1))
	case "and":
		return z.And(n(0), n(1))
	case "neg":
		return z.Neg(n(0))
	case "abs":
		return z.Abs(n(0))
	case "mod":
		return z.Mod(n(0), n(1))
	case "rem":
		return z.Rem(n(0), n(1))
	case "div":
		return z.Div(n(0), n(1))
	case "quo":
		return z.Quo(n(0), n(1))
	case "exp":
		if n(2).Sign() != 0 {
			return z.Exp(n(0), n(1), n(2))
		}
	case "modinv":
		if z.ModInverse(n(0), n(1)) == nil {
			panic(evalFail("an inverse that does not exist is used"))
		}
		return z
	case "rsh", "lsh":
		if k, ok := t.args[1].i64(); ok && k < 4096 {
			if t.aux == "rsh" {
				return z.Rsh(n(0), uint(k))
			}
			return z.Lsh(n(0), uint(k))
		}
	}
	panic(evalFail("the value of " + clip(t.String(), 60) + " is unknown"))
}

func (r *sigRun) byteVal(t *T) (byte, bool) {
	if v, ok := t.i64(); ok {
		return byte(v), true
	}
	if t.op == "fn" && t.aux == "byteof" {
		v := r.number(t.args[0])
		i, _ := t.args[1].i64()
		l, _ := t.args[2].i64()
		if v.Sign() < 0 || v.BitLen() > 8*int(l) {
			panic(evalFail("a number longer than on this path"))
		}
		return byte(new(big.Int).Rsh(v, uint(8*i)).Uint64()), true
	}
	return 0, false
}

func (r *sigRun) point(t *T) ecPoint {
	if p, ok := r.pts[t]; ok {
		return p
	}
	at := func(i int) ecPoint {
		x, y := r.number(t.args[i]), r.number(t.args[i+1])
		if x.Sign() == 0 && y.Sign() == 0 {
			return ecPoint{}
		}
		if !ecOn(x, y) {
			panic(evalFail("a curve operation on a point that is not on the curve"))
		}
		return ecPoint{new(big.Int).Mod(x, ecP), new(big.Int).Mod(y, ecP)}
	}
	var p ecPoint
	switch t.aux {
	case "smul":
		k := r.number(t.args[2])
		p = ecMul(at(0), new(big.Int).Mod(k, ecN))
	case "padd":
		p = ecAdd(at(0), at(2))
	}
	r.pts[t] = p
	return p
}

// try evaluates; a failure is returned
func try(f func()) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(evalFail); ok {
				err = fmt.Errorf("%s", string(s))
				return
			}
			panic(e)
		}
	}()
	f()
	return nil
}

// ---- the hook ----

func (r *sigRun) intercept(fr *frame, st *State, fn *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
	var outs []outcome
	var ok bool
	if err := try(func() { outs, ok = r.hook1(fr, st, fn, nm, args, sig, pos) }); err != nil {
		r.x.fail("%s", err)
		return nil, true
	}
	return outs, ok
}

// ask evaluates what decides the path
func (r *sigRun) ask(f func() int64) int64 {
	v := f()
	r.taken = append(r.taken, func() bool { return f() == v })
	return v
}

// same: would the sample now set have taken the same path?
func (r *sigRun) same() bool {
	ok := true
	err := try(func() {
		for _, f := range r.taken {
			if !f() {
				ok = false
				return
			}
		}
	})
	return ok && err == nil
}

func (r *sigRun) hook1(fr *frame, st *State, fn *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
	x := r.x
	if i := strings.LastIndex(nm, ".KoblitzCurve)."); i >= 0 {
		st = st.clone()
		pt := func(p *T) []outcome {
			return one(st, x.newBig(st, mk("big", "xof", nil, p)), x.newBig(st, mk("big", "yof", nil, p)))
		}
		v := func(i int) *T { return x.bigVal(st, args[i]) }
		switch nm[i+len(".KoblitzCurve)."):] {
		case "ScalarMult":
			return pt(mk("fn", "smul", nil, v(1), v(2), bigOfBytes(x.content(st, args[3])))), true
		case "ScalarBaseMult":
			return pt(mk("fn", "smul", nil, bigConst(ecG.x), bigConst(ecG.y), bigOfBytes(x.content(st, args[1])))), true
		case "Add":
			return pt(mk("fn", "padd", nil, v(1), v(2), v(3), v(4))), true
		case "Double":
			return pt(mk("fn", "padd", nil, v(1), v(2), v(1), v(2))), true
		case "QPlus1Div4":
			q := plusB(ecP, 1)
			return one(st, x.newBig(st, bigConst(q.Rsh(q, 2)))), true
		case "IsOnCurve":
			px, py := v(1), v(2)
			on := r.ask(func() int64 { return b2i(ecOn(r.number(px), r.number(py))) })
			return one(st, mkBool(on == 1)), true
		}
		return nil, false
	}
	const p = "(*math/big.Int)."
	if strings.HasPrefix(nm, p) && len(args) > 0 {
		v := x.bigVal(st, args[0])
		_, konst := bigOf(v)
		m := nm[len(p):]
		switch m {
		case "Cmp", "CmpAbs":
			w := x.bigVal(st, args[1])
			return one(st, mkInt(r.ask(func() int64 {
				if m == "Cmp" {
					return int64(r.number(v).Cmp(r.number(w)))
				}
				return int64(r.number(v).CmpAbs(r.number(w)))
			}))), true
		}
		if konst && m != "FillBytes" {
			return nil, false
		}
		switch m {
		case "Sign":
			return one(st, mkInt(r.ask(func() int64 { return int64(r.number(v).Sign()) }))), true
		case "BitLen":
			return one(st, mkInt(r.ask(func() int64 { return int64(r.number(v).BitLen()) }))), true
		case "Bit":
			if i, ok := args[1].i64(); ok {
				return one(st, mkInt(r.ask(func() int64 { return int64(r.number(v).Bit(int(i))) }))), true
			}
		case "IsInt64":
			return one(st, mkBool(r.ask(func() int64 { return b2i(r.number(v).IsInt64()) }) == 1)), true
		case "IsUint64":
			return one(st, mkBool(r.ask(func() int64 { return b2i(r.number(v).IsUint64()) }) == 1)), true
		case "Bytes":
			l := r.ask(func() int64 { return int64(r.number(v).BitLen()+7) / 8 })
			return one(st, x.newBytes(st, cVec(bytesOf(bigFn("abs", v), int(l))...), types.NewSlice(byteT))), true
		case "FillBytes":
			st = st.clone()
			d := x.parts(args[1])
			l, ok := d.len.i64()
			if !ok {
				return nil, false
			}
			if r.ask(func() int64 { return b2i(int64(r.number(v).BitLen()) > 8*l) }) == 1 {
				x.fail("FillBytes panics")
				return nil, true
			}
			x.store(st, d.base, cSplice(x.load(st, d.base, nil), d.off, cVec(bytesOf(bigFn("abs", v), int(l))...)), nil)
			return one(st, args[1]), true
		}
		return nil, false
	}
	switch nm {
	case "crypto/aes.NewCipher":
		r.keyOf = x.content(st, args[0])
		b := mk("sym", "block", sig.Results().At(0).Type())
		return one(st, b, mkNil()), true
	case "crypto/cipher.NewCTR":
		return one(st, mk("sym", "stream", sig.Results().At(0).Type())), true
	case "(crypto/cipher.Stream).XORKeyStream":
		st = st.clone()
		d := x.parts(args[1])
		l, ok := d.len.i64()
		if !ok || r.keyOf == nil {
			return nil, false
		}
		r.nonces++
		k := fmt.Sprintf("k%d", r.nonces)
		if l != 32 || r.val[k] == nil {
			x.fail("nonce %d of %d bytes is not one the check knows", r.nonces, l)
			return nil, true
		}
		x.store(st, d.base, cSplice(x.load(st, d.base, nil), d.off, cVec(bytesOf(bigSym(k), 32)...)), nil)
		return one(st), true
	case "crypto/ecdsa.GenerateKey":
		st = st.clone()
		kt := deref(sig.Results().At(0).Type())
		p := x.newAlloc("key", kt)
		fa := fieldAddrOf(p, kt, "D")
		x.store(st, fa, x.newBig(st, bigSym("d")), deref(fa.typ))
		return one(st, p, mkNil()), true
	}
	return nil, false
}

// ---- helpers ----

func (r *sigRun) bytesArg(st *State, typ string, parts ...*T) *T {
	t := r.c.typ("", typ)
	p := r.x.newAlloc(typ, t)
	r.x.store(st, p, cVec(parts...), t)
	return p
}

func (r *sigRun) array(st *State, p *T, typ string) *T { return r.x.load(st, p, r.c.typ("", typ)) }

// value of a content of n bytes as a number
func (r *sigRun) content(c *T, from, n int) *big.Int {
	v := new(big.Int)
	for i := from; i < from+n; i++ {
		e := cSel(c, mkInt(int64(i)), byteT)
		b, ok := r.byteVal(e)
		if !ok {
			panic(evalFail(fmt.Sprintf("byte %d of the result is %s", i, clip(e.String(), 50))))
		}
		v.Lsh(v, 8).Or(v, big.NewInt(int64(b)))
	}
	return v
}

func (r *sigRun) method(name string) bool {
	r.fn = r.c.fn("", name)
	return r.fn != nil
}

func (r *sigRun) run(st *State, args ...*T) (*State, []*T, bool) {
	r.nonces, r.keyOf, r.taken = 0, nil, nil
	s2, rets, ok := r.do(st.clone(), r.fn, args...)
	if !ok {
		if strings.Contains(r.hist.fail, "panics") {
			return nil, nil, r.say("panic", "%s", r.hist.fail)
		}
		return nil, nil, r.say("analysis", "%s", r.hist.fail)
	}
	return s2, rets, true
}

var ecHalf = new(big.Int).Rsh(ecN, 1)

func bi(n int64) *big.Int                { return big.NewInt(n) }
func plusB(a *big.Int, n int64) *big.Int { return new(big.Int).Add(a, bi(n)) }

func modN(v *big.Int) *big.Int { return v.Mod(v, ecN) }
func invN(v *big.Int) *big.Int { return new(big.Int).ModInverse(v, ecN) }

// nonceWith finds a nonce whose point meets a condition
func (r *sigRun) nonceWith(cond func(p ecPoint) bool) *big.Int {
	k := r.random()
	p := ecMul(ecG, k)
	for i := 0; !cond(p); i++ {
		k = modN(plusB(k, 1))
		p = ecAdd(p, ecG)
	}
	return k
}

// signing sets a sample: the key for which signing e with k gives s
func keyFor(k, e, s *big.Int) *big.Int {
	rr := ecMul(ecG, k).x
	d := new(big.Int).Mul(s, k)
	return modN(d.Sub(d, e).Mul(d, invN(rr)))
}

func runSig(c *Check) {
	r := &sigRun{rnd: 42}
	var st *State
	r.hist, st = c.newHist(func(x *Exec) { x.hook = r.intercept })
	r.base = st
	if r.parts() && r.recovers() && r.signs() && r.builds() && r.keys() && r.points() {
		c.notes = append(c.notes, fmt.Sprintf("%d comparisons, %d of results at values that did not choose the path", r.n, r.fresh))
	}
	if !r.bad && r.fresh < 100 {
		c.bad("analysis", "C14", token.NoPos, "only %d results were compared at other values", r.fresh)
	}
	c.obl += r.n
	c.done += r.n
}

func sigBytes(v int64) []*T {
	return append(append(bytesOf(bigSym("r"), 32), bytesOf(bigSym("s"), 32)...), mkInt(v))
}

func validSig(rr, s *big.Int, v int64) bool {
	return rr.Sign() > 0 && rr.Cmp(ecN) < 0 && s.Sign() > 0 && s.Cmp(ecHalf) <= 0 && v <= 1
}

func (r *sigRun) rs() (rs, ss []*big.Int) {
	max := plusB(new(big.Int).Lsh(bi(1), 256), -1)
	rs = []*big.Int{bi(0), bi(1), r.random(), new(big.Int).Rsh(r.random(), 9), plusB(ecN, -1), ecN, plusB(ecN, 1), ecP, max}
	ss = []*big.Int{bi(0), bi(1), new(big.Int).Rsh(r.random(), 2), plusB(ecHalf, -1), ecHalf, plusB(ecHalf, 1), plusB(ecN, -1), ecN, max}
	return
}

var recoveryIDs = []int64{0, 1, 2, 3, 27, 28, 128, 255}

// parts: what is valid, and the parts
func (r *sigRun) parts() bool {
	rs, ss := r.rs()
	for _, name := range []string{"(*Signature).Valid", "(*Signature).Parts"} {
		if !r.method(name) {
			return false
		}
		for _, rr := range rs {
			for _, s := range ss {
				for _, v := range recoveryIDs {
					r.sample("r", rr, "s", s)
					r.what = fmt.Sprintf("a signature with r=%x, s=%x, v=%d", rr, s, v)
					st := r.base.clone()
					z := r.bytesArg(st, "Signature", sigBytes(v)...)
					s2, rets, ok := r.run(st, z)
					if !ok {
						return false
					}
					good := validSig(rr, s, v)
					r.n++
					if strings.HasSuffix(name, "Valid") {
						if rets[0] != mkBool(good) {
							return r.say("validity", "it is valid: %s", clip(rets[0].String(), 30))
						}
						continue
					}
					if !good {
						continue
					}
					if err := try(func() {
						_ = s2
						pr, ps := r.number(rets[0]), r.number(rets[1])
						if n, ok := rets[2].i64(); !ok || n != v || pr.Cmp(rr) != 0 || ps.Cmp(s) != 0 {
							r.say("parts", "its parts are %x, %x, %s", pr, ps, clip(rets[2].String(), 20))
						}
					}); err != nil {
						return r.say("analysis", "%s", err)
					}
					if r.bad {
						return false
					}
				}
			}
		}
	}
	return true
}

// recovered is the key a signature was made with
func recovered(rr, s, e *big.Int, v int64) (ecPoint, bool) {
	R, ok := ecLift(rr, uint(v))
	if !ok {
		return ecPoint{}, false
	}
	ri := invN(rr)
	u2 := modN(new(big.Int).Mul(s, ri))
	u1 := new(big.Int).Mul(e, ri)
	u1 = modN(u1.Neg(u1))
	q := ecAdd(ecMul(R, u2), ecMul(ecG, u1))
	return q, q.x != nil
}

func (r *sigRun) recovers() bool {
	if !r.method("(*Signature).Recover") {
		return false
	}
	type sample struct {
		r, s, e *big.Int
		v       int64
	}
	var list []sample
	rs, ss := r.rs()
	for _, rr := range rs {
		for _, s := range ss {
			for _, v := range []int64{0, 1, 2, 27} {
				list = append(list, sample{rr, s, r.random(), v})
			}
		}
	}
	low := func() *big.Int { return new(big.Int).Rsh(r.random(), 1) }
	short := func(p ecPoint) bool { return p.x.BitLen() <= 248 }
	any := func(p ecPoint) bool { return true }
	max := plusB(new(big.Int).Lsh(bi(1), 256), -1)
	for i := 0; i < 4; i++ {
		k := r.nonceWith(any)
		if i == 3 {
			k = r.nonceWith(short)
		}
		R := ecMul(ecG, k)
		for _, s := range []*big.Int{low(), bi(1), ecHalf, new(big.Int).Rsh(low(), 20)} {
			for _, e := range []*big.Int{r.random(), bi(0), ecN, plusB(ecN, 5), max, bi(77), modN(new(big.Int).Mul(s, k))} {
				list = append(list, sample{R.x, s, e, int64(R.y.Bit(0))}, sample{R.x, s, e, int64(R.y.Bit(0) ^ 1)})
			}
		}
	}
	// keys with leading zero bytes
	for i := 0; i < 2; i++ {
		k := r.nonceWith(any)
		R := ecMul(ecG, k)
		e, d := r.random(), r.nonceWith(func(p ecPoint) bool { return i == 0 && p.x.BitLen() <= 248 || i == 1 && p.y.BitLen() <= 248 })
		s := new(big.Int).Mul(d, R.x)
		s = modN(s.Add(s, e).Mul(s, invN(k)))
		v := int64(R.y.Bit(0))
		if s.Cmp(ecHalf) > 0 {
			s, v = s.Sub(ecN, s), v^1
		}
		list = append(list, sample{R.x, s, e, v})
	}
	for _, p := range list {
		r.sample("r", p.r, "s", p.s, "e", p.e)
		r.what = fmt.Sprintf("recovering the key of r=%x, s=%x, v=%d and hash %x", p.r, p.s, p.v, p.e)
		st := r.base.clone()
		z := r.bytesArg(st, "Signature", sigBytes(p.v)...)
		h := r.bytesArg(st, "Hash", bytesOf(bigSym("e"), 32)...)
		s2, rets, ok := r.run(st, z, h)
		if !ok {
			return false
		}
		good := validSig(p.r, p.s, p.v)
		q := ecPoint{}
		if good {
			q, good = recovered(p.r, p.s, p.e, p.v)
		}
		r.n += 2
		if rets[1].isNil() != good {
			return r.say("validity", "it succeeds: %v", rets[1].isNil())
		}
		if !good {
			if !rets[0].isNil() {
				return r.say("results", "a key is given though it fails")
			}
			continue
		}
		k := r.array(s2, rets[0], "PublicKey")
		if !r.isPoint(k, q) {
			return false
		}
		// the same terms for other signatures
		for i := 0; i < 2; i++ {
			kk := r.nonceWith(func(R ecPoint) bool { return int64(R.y.Bit(0)) == p.v && R.x.BitLen() > 248 })
			rr, s, e := ecMul(ecG, kk).x, low(), r.random()
			r.sample("r", rr, "s", s, "e", e)
			q, good := recovered(rr, s, e, p.v)
			if !good {
				continue
			}
			if !r.same() {
				continue
			}
			r.fresh++
			r.what = fmt.Sprintf("recovering the key of r=%x, s=%x, v=%d and hash %x", rr, s, p.v, e)
			if !r.isPoint(k, q) {
				return false
			}
		}
	}
	return true
}

func (r *sigRun) isPoint(k *T, q ecPoint) bool {
	if err := try(func() {
		r.n++
		if x, y := r.content(k, 0, 32), r.content(k, 32, 32); x.Cmp(q.x) != 0 || y.Cmp(q.y) != 0 {
			r.say("results", "the key is %x %x and not %x %x", x, y, q.x, q.y)
		}
	}); err != nil {
		return r.say("analysis", "%s", err)
	}
	return !r.bad
}

// signs: the signature of every key and hash
func (r *sigRun) signs() bool {
	if !r.method("(*PrivateKey).Sign") {
		return false
	}
	rec := r.c.fn("", "(*Signature).Recover")
	if rec == nil {
		return false
	}
	sign := r.fn
	max := plusB(new(big.Int).Lsh(bi(1), 256), -1)
	var targets []*big.Int
	for i := 0; i < 6; i++ {
		targets = append(targets, r.random())
	}
	targets = append(targets, bi(1), plusB(ecN, -1), ecHalf, plusB(ecHalf, 1), plusB(ecHalf, -1), new(big.Int).Rsh(r.random(), 12), new(big.Int).Sub(ecN, new(big.Int).Rsh(r.random(), 12)), bi(0))
	parity := func(b uint) func(p ecPoint) bool { return func(p ecPoint) bool { return p.y.Bit(0) == b } }
	short := func(p ecPoint) bool { return p.x.BitLen() <= 248 }
	for ti, s := range targets {
		for ki, cond := range []func(p ecPoint) bool{parity(0), parity(1), short} {
			for _, skipped := range [][]*big.Int{nil, {bi(0)}, {ecN}, {plusB(ecN, 7), max, bi(0)}} {
				if skipped != nil && (ti+ki)%4 != 0 {
					continue
				}
				for ei, e := range []*big.Int{r.random(), bi(0), ecN, max} {
					if ei > 0 && (ti+ki+ei)%3 != 0 {
						continue
					}
					k := r.nonceWith(cond)
					d := keyFor(k, e, s)
					if d.Sign() == 0 {
						continue
					}
					kv := []interface{}{"d", d, "e", e}
					i := 1
					for _, b := range skipped {
						kv = append(kv, fmt.Sprintf("k%d", i), b)
						i++
					}
					kv = append(kv, fmt.Sprintf("k%d", i), k)
					used := i
					if s.Sign() == 0 { // another nonce is called for
						k = r.nonceWith(cond)
						used++
						kv = append(kv, fmt.Sprintf("k%d", used), k)
					}
					r.sample(kv...)
					r.fn = sign
					r.what = fmt.Sprintf("signing %x with key %x and nonces %x %x", e, d, skipped, k)
					st := r.base.clone()
					key := r.bytesArg(st, "PrivateKey", bytesOf(bigSym("d"), 32)...)
					h := r.bytesArg(st, "Hash", bytesOf(bigSym("e"), 32)...)
					s2, rets, ok := r.run(st, key, h)
					if !ok {
						return false
					}
					r.n += 2
					if r.nonces != used {
						return r.say("nonce", "it uses nonce %d and not %d", r.nonces, used)
					}
					if !r.derived() {
						return false
					}
					z := r.array(s2, rets[0], "Signature")
					v, err := r.isSig(z, d, e, k, nil)
					if err != nil {
						return r.say("equation", "%s", err)
					}
					// the same terms for other keys and hashes
					for j := 0; j < 2; j++ {
						k2 := r.nonceWith(func(p ecPoint) bool { return p.x.BitLen() > 248 })
						d2, e2 := r.random(), r.random()
						kv := []interface{}{"d", d2, "e", e2}
						for n := 1; n < used; n++ {
							kv = append(kv, fmt.Sprintf("k%d", n), bi(0))
						}
						r.sample(append(kv, fmt.Sprintf("k%d", used), k2)...)
						if !r.same() {
							continue
						}
						r.fresh++
						if _, err := r.isSig(z, d2, e2, k2, &v); err != nil {
							r.what = fmt.Sprintf("signing %x with key %x and nonce %x", e2, d2, k2)
							return r.say("equation", "%s", err)
						}
					}
					// the signature recovers the key
					r.sample(kv...)
					r.fn = rec
					_, rets, ok = r.run(s2, rets[0], h)
					if !ok {
						return false
					}
					r.n++
					if !rets[1].isNil() {
						return r.say("recovery", "the signature is not valid")
					}
				}
			}
		}
	}
	r.fn = sign
	return true
}

// derived: the nonces depend on the whole key and the whole hash
func (r *sigRun) derived() bool {
	for _, a := range []string{"d", "e"} {
		for i := int64(0); i < 32; i++ {
			b := mk("fn", "byteof", byteT, bigSym(a), mkInt(i), mkInt(32))
			r.n++
			if r.keyOf == nil || !r.keyOf.contains(func(t *T) bool { return t == b }) {
				return r.say("nonce", "the nonce does not depend on byte %d of the %s", 31-i, map[string]string{"d": "key", "e": "hash"}[a])
			}
		}
	}
	return true
}

// isSig: is z the signature of e with d and k? With pv, of either sign, in
// agreement with the parity
func (r *sigRun) isSig(z *T, d, e, k *big.Int, pv *int64) (v int64, err error) {
	err = try(func() {
		r.n += 3
		R := ecMul(ecG, k)
		s := new(big.Int).Mul(d, R.x)
		s = modN(s.Add(s, e).Mul(s, invN(k)))
		v = int64(R.y.Bit(0))
		flip := s.Cmp(ecHalf) > 0
		gv, ok := cSel(z, mkInt(64), byteT).i64()
		if !ok {
			panic(evalFail("the recovery id is unknown"))
		}
		if pv != nil {
			flip = *pv != v
		}
		if flip {
			s.Sub(ecN, s)
			v ^= 1
		}
		if g := r.content(z, 0, 32); g.Cmp(R.x) != 0 {
			panic(evalFail(fmt.Sprintf("r is %x and not %x", g, R.x)))
		}
		if g := r.content(z, 32, 32); g.Cmp(s) != 0 {
			panic(evalFail(fmt.Sprintf("s is %x and not %x", g, s)))
		}
		if gv != v {
			panic(evalFail(fmt.Sprintf("the recovery id is %d and not %d", gv, v)))
		}
	})
	return
}

// builds: a signature made from its parts
func (r *sigRun) builds() bool {
	if !r.method("NewSignature") {
		return false
	}
	rs := []*big.Int{bi(1), r.random(), new(big.Int).Rsh(r.random(), 9), plusB(ecN, -1)}
	ss := []*big.Int{bi(1), new(big.Int).Rsh(r.random(), 2), new(big.Int).Rsh(r.random(), 17), plusB(ecHalf, -1), ecHalf, plusB(ecHalf, 1), new(big.Int).Sub(ecN, new(big.Int).Rsh(r.random(), 9)), plusB(ecN, -1)}
	for _, rr := range rs {
		for _, s := range ss {
			for v := int64(0); v < 2; v++ {
				r.sample("r", rr, "s", s)
				r.what = fmt.Sprintf("a signature of r=%x, s=%x, v=%d", rr, s, v)
				st := r.base.clone()
				a, b := r.x.newBig(st, bigSym("r")), r.x.newBig(st, bigSym("s"))
				s2, rets, ok := r.run(st, a, b, mkInt(v))
				if !ok {
					return false
				}
				r.n += 4
				z := r.array(s2, rets[0], "Signature")
				if err := try(func() {
					ws, wv := s, v
					if s.Cmp(ecHalf) > 0 {
						ws, wv = new(big.Int).Sub(ecN, s), v^1
					}
					gv, _ := cSel(z, mkInt(64), byteT).i64()
					if r.content(z, 0, 32).Cmp(rr) != 0 || r.content(z, 32, 32).Cmp(ws) != 0 || gv != wv {
						panic(evalFail(fmt.Sprintf("it has the parts %x, %x, %d", r.content(z, 0, 32), r.content(z, 32, 32), gv)))
					}
					if r.number(r.x.bigVal(s2, a)).Cmp(rr) != 0 || r.number(r.x.bigVal(s2, b)).Cmp(s) != 0 {
						panic(evalFail("the numbers given are changed"))
					}
				}); err != nil {
					return r.say("parts", "%s", err)
				}
			}
		}
	}
	return true
}

// keys: encodings of keys, and addresses
func (r *sigRun) keys() bool {
	ds := []*big.Int{bi(1), r.random(), new(big.Int).Rsh(r.random(), 9), plusB(ecN, -1),
		r.nonceWith(func(p ecPoint) bool { return p.x.BitLen() <= 248 }), r.nonceWith(func(p ecPoint) bool { return p.y.BitLen() <= 248 })}
	for _, d := range ds {
		q := ecMul(ecG, d)
		for _, name := range []string{"NewPrivateKey", "GenPrivateKey", "(*PrivateKey).PublicKey", "(*PrivateKey).Address", "(*PrivateKey).ToECDSA", "NewPublicKey", "(*PublicKey).ToECDSA", "(*PublicKey).Address"} {
			if !r.method(name) {
				return false
			}
			r.sample("d", d, "x", q.x, "y", q.y)
			r.what = fmt.Sprintf("the key %x", d)
			st := r.base.clone()
			pub := append(bytesOf(bigSym("x"), 32), bytesOf(bigSym("y"), 32)...)
			var args []*T
			switch name {
			case "NewPrivateKey":
				args = []*T{r.x.newBig(st, bigSym("d"))}
			case "NewPublicKey":
				args = []*T{r.x.newBig(st, bigSym("x")), r.x.newBig(st, bigSym("y"))}
			case "GenPrivateKey":
			default:
				if strings.HasPrefix(name, "(*PrivateKey)") {
					args = []*T{r.bytesArg(st, "PrivateKey", bytesOf(bigSym("d"), 32)...)}
				} else {
					args = []*T{r.bytesArg(st, "PublicKey", pub...)}
				}
			}
			s2, rets, ok := r.run(st, args...)
			if !ok {
				return false
			}
			r.n++
			if err := try(func() {
				no := func(f string, a ...interface{}) { panic(evalFail(fmt.Sprintf(f, a...))) }
				res := rets[0]
				num := func(p *T, t types.Type, path ...string) *big.Int {
					for i, f := range path {
						fa := fieldAddrOf(p, t, f)
						if fa == nil {
							no("no field %s", f)
						}
						t = deref(fa.typ)
						if i == len(path)-1 {
							return r.number(r.x.bigVal(s2, r.x.load(s2, fa, t)))
						}
						p = fa
					}
					return nil
				}
				switch {
				case strings.HasSuffix(name, "NewPrivateKey") || strings.HasSuffix(name, "GenPrivateKey"):
					if g := r.content(r.array(s2, res, "PrivateKey"), 0, 32); g.Cmp(d) != 0 {
						no("the key is %x", g)
					}
				case strings.HasSuffix(name, "PublicKey"):
					r.isPoint(r.array(s2, res, "PublicKey"), q)
				case strings.HasSuffix(name, "Address"):
					got := r.array(s2, res, "Address")
					for i := 0; i < 20; i++ {
						e := cSel(got, mkInt(int64(i)), byteT)
						if !r.hashByte(e, q, 12+i) {
							no("byte %d of the address is %s", i, clip(e.String(), 80))
						}
					}
				case strings.HasSuffix(name, "ToECDSA"):
					t := deref(r.fn.Signature.Results().At(0).Type())
					pre := []string{}
					if strings.HasPrefix(name, "(*PrivateKey)") {
						if num(res, t, "D").Cmp(d) != 0 {
							no("the private number differs")
						}
						pre = []string{"PublicKey"}
					}
					if num(res, t, append(pre, "X")...).Cmp(q.x) != 0 || num(res, t, append(pre, "Y")...).Cmp(q.y) != 0 {
						no("the point differs")
					}
				}
			}); err != nil {
				return r.say("keys", "%s", err)
			}
			if r.bad {
				return false
			}
		}
	}
	return true
}

// hashByte: is e byte i of the Keccak-256 hash of a point?
func (r *sigRun) hashByte(e *T, q ecPoint, i int) bool {
	var in *T
	e.contains(func(t *T) bool {
		if t.op == "fn" && (t.aux == "sponge" || t.aux == "keccak256") {
			in = t.args[len(t.args)-1]
		}
		return in != nil
	})
	if in == nil || e != cSel(sponge(mkInt(136), mkInt(32), mkInt(1), in), mkInt(int64(i)), byteT) {
		return false
	}
	n, ok := cLen(in).i64()
	return ok && n == 64 && r.isPoint(in, q)
}

// points: the ordinate that goes with an abscissa
func (r *sigRun) points() bool {
	if !r.method("CurvePoint") {
		return false
	}
	for i := 0; i < 4; i++ {
		p := ecMul(ecG, r.random())
		for v := int64(0); v < 2; v++ {
			r.sample("x", p.x)
			r.what = fmt.Sprintf("the point at %x with parity %d", p.x, v)
			st := r.base.clone()
			a, b := r.x.newBig(st, bigSym("x")), r.x.newBig(st, bigConst(bi(3)))
			s2, _, ok := r.run(st, a, b, mkInt(v))
			if !ok {
				return false
			}
			r.n += 2
			if err := try(func() {
				w, _ := ecLift(p.x, uint(v))
				if g := r.number(r.x.bigVal(s2, b)); g.Cmp(w.y) != 0 {
					panic(evalFail(fmt.Sprintf("the ordinate is %x", g)))
				}
				if r.number(r.x.bigVal(s2, a)).Cmp(p.x) != 0 {
					panic(evalFail("the abscissa is changed"))
				}
			}); err != nil {
				return r.say("points", "%s", err)
			}
		}
	}
	return true
}
