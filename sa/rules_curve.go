package main

// C17: arithmetic of the curve: the field's limbs in an algebraic domain
// with carries, the formulas over field elements along chosen paths.

import (
	"bytes"
	"compress/zlib"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"io"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C17"] = &CheckDef{
		title:     "Curve points are added and multiplied exactly",
		technique: "static abstract interpretation over SSA: limbs as polynomials with symbolic carries and intervals, field elements as terms modulo the prime with magnitudes, paths chosen by sample values",
		explanation: "The field's additions, negations, multiplications and squarings are interpreted with unknown limbs of the largest magnitudes they are documented for, for all ways their operands can be the same variable: each limb is a polynomial over the unknown limbs and over carries, and an interval. No intermediate may exceed its word, and the polynomial of the result minus that of the operation must vanish modulo the prime, which shows the operation for every input. " +
			"Normalisation, comparison, packing and unpacking are interpreted on unknown limbs and compared at samples around all edges. Addition, doubling, multiplication and inversion of points are interpreted over unknown field elements; magnitudes must stay within what was shown, only normalised values may be compared, and the results are compared with the group law at points of the curve.",
		assumptions: []string{"math/big behaves as documented", "the formulas of a path are the right ones if they are at the pseudo-random points of the curve on the path"},
		min:         300,
		run:         runCurve,
	}
}

var curveP, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
var curveN, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)

func runCurve(c *Check) {
	f := &limbRun{c: c}
	if !f.all() {
		return
	}
	r := &curveRun{sampleRun: c.newSampleRun(), rng: rand.New(rand.NewSource(1))}
	_ = r.start() && r.packing() && r.formulas() && r.scalars() && r.baseMult()
	c.obl += r.n + f.n
	c.done += r.n + f.n
}

// ---- limbs ----

// poly is a polynomial: monomials are sorted lists of variables
type poly map[string]*big.Int

func pConst(n *big.Int) poly {
	p := poly{}
	if n.Sign() != 0 {
		p[""] = new(big.Int).Set(n)
	}
	return p
}

func pVar(v string) poly { return poly{v + " ": bi(1)} }

func (p poly) addTo(m string, n *big.Int) {
	if o := p[m]; o != nil {
		n = new(big.Int).Add(o, n)
	}
	if n.Sign() == 0 {
		delete(p, m)
		return
	}
	p[m] = n
}

func (p poly) plus(q poly, k *big.Int) poly {
	r := poly{}
	for m, n := range p {
		r[m] = n
	}
	for m, n := range q {
		r.addTo(m, new(big.Int).Mul(n, k))
	}
	return r
}

func (p poly) times(q poly) poly {
	r := poly{}
	for m, n := range p {
		for o, k := range q {
			vs := append(strings.Fields(m), strings.Fields(o)...)
			sort.Strings(vs)
			s := ""
			for _, v := range vs {
				s += v + " "
			}
			r.addTo(s, new(big.Int).Mul(n, k))
		}
	}
	return r
}

func (p poly) key() string {
	var ks []string
	for m, n := range p {
		ks = append(ks, m+"*"+n.String())
	}
	sort.Strings(ks)
	return strings.Join(ks, "+")
}

func (p poly) mod(n *big.Int) poly {
	r := poly{}
	for m, k := range p {
		if k := new(big.Int).Mod(k, n); k.Sign() != 0 {
			r[m] = k
		}
	}
	return r
}

// limbVal is an integer: exactly p, between lo and hi; or a pointer
type limbVal struct {
	p      poly
	lo, hi *big.Int
	ptr    string // the cell or the start of the cells it points at
	agg    map[string]*limbVal
}

type limbRun struct {
	c       *Check
	n       int
	mem     map[string]*limbVal
	carries map[string]*limbVal
	allocs  int
	steps   int
	fail    string
	pos     token.Pos
}

func limbConst(n *big.Int) *limbVal { return &limbVal{p: pConst(n), lo: n, hi: n} }

func (f *limbRun) stop(pos token.Pos, s string, a ...interface{}) *limbVal {
	if f.fail == "" {
		f.fail, f.pos = fmt.Sprintf(s, a...), pos
	}
	return limbConst(new(big.Int))
}

func (v *limbVal) constant() (*big.Int, bool) {
	if v.p == nil || v.lo.Cmp(v.hi) != 0 {
		return nil, false
	}
	return v.lo, true
}

func widthOf(t types.Type) (uint, bool, bool) { // bits, signed, ok
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	s := b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Uint8, types.Int8:
		return 8, s, true
	case types.Uint16, types.Int16:
		return 16, s, true
	case types.Uint32, types.Int32:
		return 32, s, true
	}
	return 64, s, true
}

// split is v = q 2^k + r
func (f *limbRun) split(v *limbVal, k uint) (q, r *limbVal) {
	one := new(big.Int).Lsh(bi(1), k)
	if v.lo.Sign() >= 0 && v.hi.Cmp(one) < 0 {
		return limbConst(new(big.Int)), v
	}
	key := fmt.Sprintf("%d/%s", k, v.p.key())
	q = f.carries[key]
	lo, hi := new(big.Int).Rsh(v.lo, k), new(big.Int).Rsh(v.hi, k)
	if q == nil {
		q = &limbVal{p: pVar(fmt.Sprintf("q%d", len(f.carries))), lo: lo, hi: hi}
		if lo.Cmp(hi) == 0 {
			q = limbConst(lo)
		}
		f.carries[key] = q
	}
	r = &limbVal{p: v.p.plus(q.p, new(big.Int).Neg(one)), lo: new(big.Int), hi: new(big.Int).Sub(one, bi(1))}
	return q, r
}

// within: the value wraps to itself in its type
func (f *limbRun) within(v *limbVal, t types.Type, pos token.Pos) *limbVal {
	w, s, ok := widthOf(t)
	if !ok {
		return f.stop(pos, "a value of type %s", t)
	}
	lo, hi := new(big.Int), new(big.Int).Lsh(bi(1), w)
	if s {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	if v.lo.Cmp(lo) >= 0 && v.hi.Cmp(hi) < 0 {
		return v
	}
	return f.stop(pos, "a value between %v and %v does not fit its %d bits", v.lo, v.hi, w)
}

func (f *limbRun) bin(op token.Token, a, b *limbVal, t types.Type, pos token.Pos) *limbVal {
	if a.p == nil || b.p == nil {
		return f.stop(pos, "an operation on what is no number")
	}
	ca, isA := a.constant()
	cb, isB := b.constant()
	switch op {
	case token.ADD:
		return f.within(&limbVal{p: a.p.plus(b.p, bi(1)), lo: new(big.Int).Add(a.lo, b.lo), hi: new(big.Int).Add(a.hi, b.hi)}, t, pos)
	case token.SUB:
		return f.within(&limbVal{p: a.p.plus(b.p, bi(-1)), lo: new(big.Int).Sub(a.lo, b.hi), hi: new(big.Int).Sub(a.hi, b.lo)}, t, pos)
	case token.MUL:
		v := &limbVal{p: a.p.times(b.p)}
		for _, x := range []*big.Int{a.lo, a.hi} {
			for _, y := range []*big.Int{b.lo, b.hi} {
				n := new(big.Int).Mul(x, y)
				if v.lo == nil || n.Cmp(v.lo) < 0 {
					v.lo = n
				}
				if v.hi == nil || n.Cmp(v.hi) > 0 {
					v.hi = n
				}
			}
		}
		return f.within(v, t, pos)
	case token.SHR:
		if isB && cb.IsInt64() && cb.Sign() >= 0 && a.lo.Sign() >= 0 {
			q, _ := f.split(a, uint(cb.Int64()))
			return q
		}
	case token.SHL:
		if isB && cb.IsInt64() && cb.Sign() >= 0 {
			return f.bin(token.MUL, a, limbConst(new(big.Int).Lsh(bi(1), uint(cb.Int64()))), t, pos)
		}
	case token.AND:
		if isA {
			a, b, cb, isA, isB = b, a, ca, isB, isA
		}
		if isB && a.lo.Sign() >= 0 && cb.Sign() >= 0 {
			if k := uint(cb.BitLen()); new(big.Int).Lsh(bi(1), k).Cmp(new(big.Int).Add(cb, bi(1))) == 0 {
				_, r := f.split(a, k)
				return r
			}
		}
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isA && isB {
			c := ca.Cmp(cb)
			if map[token.Token]bool{token.EQL: c == 0, token.NEQ: c != 0, token.LSS: c < 0, token.LEQ: c <= 0, token.GTR: c > 0, token.GEQ: c >= 0}[op] {
				return limbConst(bi(1))
			}
			return limbConst(new(big.Int))
		}
	}
	return f.stop(pos, "the operation %s on values that are not known", op)
}

func (f *limbRun) load(p string, t types.Type, pos token.Pos) *limbVal {
	switch u := t.Underlying().(type) {
	case *types.Struct, *types.Array:
		_ = u
		v := &limbVal{agg: map[string]*limbVal{}}
		for k, x := range f.mem {
			if strings.HasPrefix(k, p+".") {
				v.agg[k[len(p):]] = x
			}
		}
		return v
	}
	if v := f.mem[p]; v != nil {
		return v
	}
	return limbConst(new(big.Int)) // zero until written
}

func (f *limbRun) store(p string, v *limbVal) {
	if v.agg != nil {
		for k := range f.mem {
			if strings.HasPrefix(k, p+".") {
				delete(f.mem, k)
			}
		}
		for k, x := range v.agg {
			f.mem[p+k] = x
		}
		return
	}
	f.mem[p] = v
}

// run interprets a function that does not branch on unknown values
func (f *limbRun) run(fn *ssa.Function, args []*limbVal) []*limbVal {
	if len(fn.Blocks) == 0 || fn.Recover != nil || f.fail != "" {
		f.stop(fn.Pos(), "%s cannot be interpreted", fnName(fn))
		return nil
	}
	f.c.fns[fnName(fn)] = true
	env := map[ssa.Value]*limbVal{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	get := func(v ssa.Value) *limbVal {
		if k, ok := v.(*ssa.Const); ok {
			if k.Value == nil {
				return &limbVal{agg: map[string]*limbVal{}}
			}
			if k.Value.Kind() == constant.Bool {
				if constant.BoolVal(k.Value) {
					return limbConst(bi(1))
				}
				return limbConst(new(big.Int))
			}
			if n, ok := constant.Val(constant.ToInt(k.Value)).(*big.Int); ok {
				return limbConst(n)
			}
			if n, ok := constant.Int64Val(constant.ToInt(k.Value)); ok {
				return limbConst(bi(n))
			}
		}
		if x := env[v]; x != nil {
			return x
		}
		return f.stop(v.Pos(), "a value %s", v)
	}
	var from *ssa.BasicBlock
	b := fn.Blocks[0]
	for f.fail == "" {
		phis := map[*ssa.Phi]*limbVal{}
		for _, ins := range b.Instrs {
			if p, ok := ins.(*ssa.Phi); ok {
				for i, e := range b.Preds {
					if e == from {
						phis[p] = get(p.Edges[i])
					}
				}
			}
		}
		for p, v := range phis {
			env[p] = v
		}
		for _, ins := range b.Instrs {
			if f.steps++; f.steps > 2000000 {
				f.stop(ins.Pos(), "it does not end")
			}
			if f.fail != "" {
				return nil
			}
			switch i := ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Alloc:
				f.allocs++
				env[i] = &limbVal{ptr: fmt.Sprintf("a%d", f.allocs)}
			case *ssa.FieldAddr:
				env[i] = &limbVal{ptr: fmt.Sprintf("%s.%d", get(i.X).ptr, i.Field)}
			case *ssa.IndexAddr:
				n, ok := get(i.Index).constant()
				at, isP := i.X.Type().Underlying().(*types.Pointer)
				if !ok || !isP {
					f.stop(i.Pos(), "an element that is not known")
					continue
				}
				if arr, ok := at.Elem().Underlying().(*types.Array); !ok || n.Sign() < 0 || n.Cmp(bi(arr.Len())) >= 0 {
					f.stop(i.Pos(), "element %v of %s panics", n, at.Elem())
				}
				env[i] = &limbVal{ptr: fmt.Sprintf("%s.%v", get(i.X).ptr, n)}
			case *ssa.Field:
				x := get(i.X)
				env[i] = f.part(x, i.Field)
			case *ssa.Index:
				n, ok := get(i.Index).constant()
				if !ok {
					f.stop(i.Pos(), "an element that is not known")
					continue
				}
				env[i] = f.part(get(i.X), int(n.Int64()))
			case *ssa.UnOp:
				switch i.Op {
				case token.MUL:
					p := get(i.X)
					if p.ptr == "" {
						f.stop(i.Pos(), "a pointer that is not known")
						continue
					}
					env[i] = f.load(p.ptr, i.Type(), i.Pos())
				case token.NOT:
					env[i] = f.bin(token.SUB, limbConst(bi(1)), get(i.X), types.Typ[types.Int], i.Pos())
				case token.SUB:
					env[i] = f.bin(token.SUB, limbConst(new(big.Int)), get(i.X), i.Type(), i.Pos())
				default:
					f.stop(i.Pos(), "the operation %s", i.Op)
				}
			case *ssa.Store:
				p := get(i.Addr)
				if p.ptr == "" {
					f.stop(i.Pos(), "a pointer that is not known")
					continue
				}
				f.store(p.ptr, get(i.Val))
			case *ssa.BinOp:
				t := i.Type()
				if _, _, ok := widthOf(t); !ok {
					t = types.Typ[types.Int]
				}
				env[i] = f.bin(i.Op, get(i.X), get(i.Y), t, i.Pos())
			case *ssa.Convert:
				v := get(i.X)
				w, s, ok := widthOf(i.Type())
				if !ok || v.p == nil {
					f.stop(i.Pos(), "a conversion to %s", i.Type())
					continue
				}
				if !s && v.lo.Sign() >= 0 {
					_, v = f.split(v, w)
				}
				env[i] = f.within(v, i.Type(), i.Pos())
			case *ssa.ChangeType:
				env[i] = get(i.X)
			case *ssa.Call:
				callee := i.Call.StaticCallee()
				if callee == nil || callee.Pkg == nil || callee.Pkg != fn.Pkg {
					f.stop(i.Pos(), "a call of %s", i.Call.Value)
					continue
				}
				var as []*limbVal
				for _, a := range i.Call.Args {
					as = append(as, get(a))
				}
				rs := f.run(callee, as)
				if len(rs) == 1 {
					env[i] = rs[0]
				}
			case *ssa.If:
				c, ok := get(i.Cond).constant()
				if !ok {
					f.stop(i.Cond.Pos(), "a branch on a value that is not known")
					continue
				}
				from, b = b, b.Succs[1-int(c.Int64())]
				goto next
			case *ssa.Jump:
				from, b = b, b.Succs[0]
				goto next
			case *ssa.Return:
				var out []*limbVal
				for _, v := range i.Results {
					out = append(out, get(v))
				}
				return out
			default:
				f.stop(ins.Pos(), "%T", ins)
			}
		}
	next:
	}
	return nil
}

func (f *limbRun) part(x *limbVal, n int) *limbVal {
	pre := fmt.Sprintf(".%d", n)
	if v := x.agg[pre]; v != nil {
		return v
	}
	v := &limbVal{agg: map[string]*limbVal{}}
	for k, y := range x.agg {
		if strings.HasPrefix(k, pre+".") {
			v.agg[k[len(pre):]] = y
		}
	}
	if len(v.agg) == 0 {
		return limbConst(new(big.Int))
	}
	return v
}

// the largest magnitude
const maxMag = 32

// unit is the largest limb i of a value of magnitude one
func unit(i int) *big.Int {
	switch {
	case i == 9:
		return bi(1<<22 + 1<<4)
	case i > 1:
		return bi(1<<26 + 1<<19) // a multiplication leaves a carry here
	}
	return bi(1<<26 + 1<<8)
}

// input is a field value of unknown limbs
func (f *limbRun) input(name string, mag int64) (*limbVal, poly) {
	val := poly{}
	for i := 0; i < 10; i++ {
		v := &limbVal{p: pVar(fmt.Sprintf("%s%d", name, i)), lo: new(big.Int), hi: new(big.Int).Mul(unit(i), bi(mag))}
		f.mem[fmt.Sprintf("%s.0.%d", name, i)] = v
		val = val.plus(v.p, new(big.Int).Lsh(bi(1), uint(26*i)))
	}
	return &limbVal{ptr: name}, val
}

func (f *limbRun) at(p string) poly {
	val := poly{}
	for i := 0; i < 10; i++ {
		v := f.load(fmt.Sprintf("%s.0.%d", p, i), types.Typ[types.Uint32], token.NoPos)
		if v.p != nil {
			val = val.plus(v.p, new(big.Int).Lsh(bi(1), uint(26*i)))
		}
	}
	return val
}

func (f *limbRun) reset() {
	f.mem, f.carries, f.allocs, f.fail, f.steps = map[string]*limbVal{}, map[string]*limbVal{}, 0, "", 0
}

// holds: the value at p is want modulo the prime and has the magnitude
func (f *limbRun) holds(fn *ssa.Function, what, p string, want poly, mag int64) bool {
	f.n++
	if f.fail != "" {
		pos := f.pos
		if pos == token.NoPos {
			pos = fn.Pos()
		}
		f.c.bad("field", fnName(fn), pos, "%s: %s", what, f.fail)
		return false
	}
	if d := f.at(p).plus(want, bi(-1)).mod(curveP); len(d) != 0 {
		f.c.bad("field", fnName(fn), fn.Pos(), "%s: the result is not the exact one modulo the prime; what remains has %d terms such as %s", what, len(d), clip(d.key(), 120))
		return false
	}
	for i := 0; i < 10; i++ {
		v := f.load(fmt.Sprintf("%s.0.%d", p, i), types.Typ[types.Uint32], token.NoPos)
		if v.p == nil || v.lo.Sign() < 0 || v.hi.Cmp(new(big.Int).Mul(unit(i), bi(mag))) > 0 {
			f.c.bad("field", fnName(fn), fn.Pos(), "%s: limb %d can be %v, which is more than the magnitude %d", what, i, v.hi, mag)
			return false
		}
	}
	return true
}

func (f *limbRun) all() bool {
	method := func(n string) *ssa.Function { return f.c.fn("ec", "(*fieldVal)."+n) }
	type op struct {
		name string
		args int // field values besides the receiver
		num  []int64
		from bool // the receiver is an operand
		mag  int64
		do   func(xs []poly, n int64) poly
		out  func(mag, n int64) int64
	}
	two := func(m, n int64) int64 { return 2 * m }
	fixed := func(m, n int64) int64 { return 1 }
	plus1 := func(m, n int64) int64 { return n + 1 }
	same := func(m, n int64) int64 { return m }
	sq := func(xs []poly, n int64) poly { return xs[0].times(xs[0]) }
	mul := func(xs []poly, n int64) poly { return xs[0].times(xs[1]) }
	neg := func(xs []poly, n int64) poly { return poly{}.plus(xs[0], bi(-1)) }
	add := func(xs []poly, n int64) poly { return xs[0].plus(xs[1], bi(1)) }
	id := func(xs []poly, n int64) poly { return xs[0] }
	num := func(xs []poly, n int64) poly { return pConst(bi(n)) }
	ops := []op{
		{"Add", 1, nil, true, maxMag / 2, add, two}, {"Add2", 2, nil, false, maxMag / 2, add, two},
		{"Mul", 1, nil, true, 8, mul, fixed}, {"Mul2", 2, nil, false, 8, mul, fixed},
		{"Square", 0, nil, true, 8, sq, fixed}, {"SquareVal", 1, nil, false, 8, sq, fixed},
		{"Set", 1, nil, false, 8, id, same},
		{"NegateVal", 1, []int64{1, 2, 3, 5, 8, 16, 18, 31}, false, 0, neg, plus1}, {"Negate", 0, []int64{1, 2, 3, 5, 8, 16, 18, 31}, true, 0, neg, plus1},
		{"MulInt", 0, []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 32}, true, -1, func(xs []poly, n int64) poly { return poly{}.plus(xs[0], bi(n)) }, func(m, n int64) int64 { return m * n }},
		{"AddInt", 0, []int64{0, 1, 7, 1 << 25}, true, 4, func(xs []poly, n int64) poly { return xs[0].plus(pConst(bi(n)), bi(1)) }, func(m, n int64) int64 { return m + 1 }},
		{"SetInt", 0, []int64{0, 1, 7, 1 << 26}, false, 1, num, fixed},
		{"Zero", 0, nil, false, 1, num, fixed},
	}
	for _, o := range ops {
		fn := method(o.name)
		if fn == nil {
			return false
		}
		nums := o.num
		if nums == nil {
			nums = []int64{0}
		}
		// which of the operands are the same variable
		alias := [][]string{{"f", "x", "y"}, {"f", "f", "y"}, {"f", "x", "f"}, {"f", "x", "x"}, {"f", "f", "f"}}
		seen := map[string]bool{}
		for _, al := range alias {
			key := strings.Join(al[:1+o.args], " ")
			if seen[key] {
				continue
			}
			seen[key] = true
			for _, n := range nums {
				f.reset()
				mag := o.mag
				switch {
				case mag == 0:
					mag = n
				case mag < 0 && n < 2:
					mag = maxMag
				case mag < 0:
					mag = maxMag / n
				}
				var args []*limbVal
				vals := map[string]poly{}
				for _, a := range al[:1+o.args] {
					p := &limbVal{ptr: a}
					if vals[a] == nil {
						p, vals[a] = f.input(a, mag)
					}
					args = append(args, p)
				}
				var xs []poly
				for i, a := range al[:1+o.args] {
					if i > 0 || o.from {
						xs = append(xs, vals[a])
					}
				}
				if o.num != nil {
					args = append(args, limbConst(bi(n)))
				}
				want := o.do(xs, n)
				rets := f.run(fn, args)
				what := fmt.Sprintf("%s of magnitude %d with operands %s", o.name, mag, key)
				if o.num != nil {
					what += fmt.Sprintf(" and %d", n)
				}
				if !f.holds(fn, what, "f", want, o.out(mag, n)) {
					return false
				}
				if len(rets) == 1 && rets[0].ptr != "f" {
					f.c.bad("field", fnName(fn), fn.Pos(), "%s: another value is returned", what)
					return false
				}
				// operands that are not the receiver stay as they were
				for _, a := range al[1 : 1+o.args] {
					if a != "f" && f.at(a).key() != vals[a].key() {
						f.c.bad("field", fnName(fn), fn.Pos(), "%s: an operand is changed", what)
						return false
					}
				}
			}
		}
	}
	return true
}

// ---- field elements ----

type curveRun struct {
	*sampleRun
	rng   *rand.Rand
	field types.Type
	init  *State
	curve *T
}

func (r *curveRun) start() bool {
	r.field = r.c.typ("ec", "fieldVal")
	kt := r.c.typ("ec", "KoblitzCurve")
	if r.field == nil || kt == nil {
		return false
	}
	r.extra = func(fr *frame, st *State, fn *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
		if fn != nil && fn.Name() == "loadS256BytePoints" {
			return one(st, mkNil()), true
		}
		return nil, false
	}
	st, ok := r.initPackage(r.base, "ec")
	if !ok {
		return false
	}
	r.init = st
	s256 := r.c.fn("ec", "S256")
	if s256 == nil {
		return false
	}
	r.what = "the curve"
	st, rets, ok := r.call(st, s256)
	if !ok {
		return false
	}
	r.curve = rets[0]
	r.extra = nil
	// the parameters
	g := generator()
	par, quarter := r.c.fn("ec", "(*KoblitzCurve).Params"), r.c.w.Func("ec", "(*KoblitzCurve).QPlus1Div4")
	if par == nil {
		return false
	}
	st, rets, ok = r.call(st, par, r.curve)
	if !ok {
		return false
	}
	pt := deref(par.Signature.Results().At(0).Type())
	for n, want := range map[string]*big.Int{"P": curveP, "N": curveN, "B": bi(7), "Gx": g.x, "Gy": g.y} {
		r.n++
		if v := r.x.fieldVal(st, rets[0], pt, n); v == nil || r.x.bigVal(st, v) != bigConst(want) {
			return r.say("parameters", "%s is not %x", n, want)
		}
	}
	r.n++
	if v := r.x.fieldVal(st, rets[0], pt, "BitSize"); v == nil || v != mkInt(256) {
		return r.say("parameters", "the size is not 256 bits")
	}
	if quarter != nil {
		st, rets, ok := r.call(st, quarter, r.curve)
		if !ok {
			return false
		}
		r.n++
		if q := new(big.Int).Rsh(new(big.Int).Add(curveP, bi(1)), 2); r.x.bigVal(st, rets[0]) != bigConst(q) {
			return r.say("parameters", "(P+1)/4 is %s", r.x.bigVal(st, rets[0]))
		}
	}
	return true
}

// limbs32 are ten unknown words
func limbs32(name string) *T {
	var e []*T
	for i := 0; i < 10; i++ {
		e = append(e, mk("sym", fmt.Sprintf("limb:%s:%d", name, i), types.Typ[types.Uint32]))
	}
	return cVec(e...)
}

// value makes a field value of limbs at a new address
func (r *curveRun) value(st *State, limbs *T) *T {
	p := r.x.newAlloc("fv", r.field)
	r.x.store(st, p, mk("struct", typeKey(r.field), r.field, limbs), r.field)
	return p
}

func (r *curveRun) limbsAt(st *State, p *T) *T { return r.x.fieldVal(st, p, r.field, "n") }

func (r *curveRun) numberAt(st *State, p *T) (*big.Int, []int64, bool) {
	c, n := r.limbsAt(st, p), new(big.Int)
	var l []int64
	for i := 0; i < 10; i++ {
		v, ok := r.env.tryInt(cSel(c, mkInt(int64(i)), types.Typ[types.Uint32]))
		if !ok {
			return nil, nil, false
		}
		l = append(l, v.Int64())
		n.Add(n, new(big.Int).Lsh(v, uint(26*i)))
	}
	return n, l, true
}

func (v sampleVals) limbs(c *T, l []int64) sampleVals {
	for i, s := range c.args {
		v[s] = bi(l[i])
	}
	return v
}

// split is a number in limbs without overflow
func limbsOf(n *big.Int) []int64 {
	var l []int64
	for i := 0; i < 9; i++ {
		l = append(l, new(big.Int).And(new(big.Int).Rsh(n, uint(26*i)), bi(1<<26-1)).Int64())
	}
	return append(l, new(big.Int).Rsh(n, 234).Int64())
}

func limbSum(l []int64) *big.Int {
	n := new(big.Int)
	for i, v := range l {
		n.Add(n, new(big.Int).Lsh(bi(v), uint(26*i)))
	}
	return n
}

func (r *curveRun) rand256() *big.Int {
	b := make([]byte, 32)
	r.rng.Read(b)
	return new(big.Int).SetBytes(b)
}

// edges are numbers around everything that matters
func (r *curveRun) edges() []*big.Int {
	var out []*big.Int
	for _, n := range []*big.Int{bi(0), curveP, new(big.Int).Lsh(bi(1), 256), new(big.Int).Lsh(bi(1), 26), new(big.Int).Lsh(bi(1), 52), new(big.Int).Lsh(bi(1), 234), new(big.Int).Sub(new(big.Int).Lsh(bi(1), 256), bi(1<<32)), new(big.Int).Lsh(curveP, 1)} {
		for _, d := range []int64{-1 << 26, -978, -977, -65, -2, -1, 0, 1, 2, 64, 976, 977, 978, 1<<26 - 1, 1 << 26, 1<<32 + 976, 1<<32 + 977} {
			if m := new(big.Int).Add(n, bi(d)); m.Sign() >= 0 && m.BitLen() <= 257 {
				out = append(out, m)
			}
		}
	}
	for i := 0; i < 30; i++ {
		out = append(out, r.rand256())
	}
	return out
}

func (r *curveRun) packing() bool {
	get := func(n string) *ssa.Function { return r.c.fn("ec", "(*fieldVal)."+n) }
	norm, put, set, sets := get("Normalize"), get("PutBytes"), get("SetBytes"), get("SetByteSlice")
	byt, isZ, isO, eq := get("Bytes"), get("IsZero"), get("IsOdd"), get("Equals")
	for _, f := range []*ssa.Function{norm, put, set, sets, byt, isZ, isO, eq} {
		if f == nil {
			return false
		}
	}
	a, b := limbs32("a"), limbs32("b")
	// normalising
	r.what = "normalising"
	var samples []sampleVals
	add := func(l []int64) { samples = append(samples, sampleVals{}.limbs(a, l)) }
	for _, n := range r.edges() {
		l := limbsOf(n)
		add(l)
		// the same number with bits left in higher limbs' places
		for k := 0; k < 6; k++ {
			m := append([]int64{}, l...)
			for i := 0; i < 9; i++ {
				c := int64(r.rng.Intn(27))
				if k == 0 {
					c = 1
				}
				if m[i+1] >= c && m[i]+c<<26 <= 27*unit(i).Int64() {
					m[i+1] -= c
					m[i] += c << 26
				}
			}
			add(m)
		}
	}
	// numbers whose limbs are those of the greatest but for one
	for _, n := range r.edges() {
		if n.BitLen() < 250 || n.BitLen() > 256 {
			continue
		}
		for i := 0; i < 10; i++ {
			m := limbsOf(n)
			m[i] ^= 1 << uint(r.rng.Intn(22))
			add(m)
		}
	}
	for k := 0; k < 300; k++ {
		l := make([]int64, 10)
		for i := range l {
			top := 27 * unit(i).Int64()
			if i == 9 {
				top = 1<<32 - 1
			}
			switch r.rng.Intn(4) {
			case 0:
				l[i] = top - int64(r.rng.Intn(3))
			case 1:
				l[i] = int64(1<<26 - 1)
				if i == 9 {
					l[i] = 1<<22 - 1
				}
			case 2:
				l[i] = int64(r.rng.Intn(3))
			default:
				l[i] = r.rng.Int63n(top)
			}
			if i == 9 && l[i] > 28<<22 {
				l[i] = 27 * unit(9).Int64()
			}
		}
		add(l)
	}
	if !r.cover(samples, func() (func() error, bool) {
		st := r.init.clone()
		p := r.value(st, a)
		st, rets, ok := r.call(st, norm, p)
		if !ok {
			return nil, false
		}
		return func() error {
			var l []int64
			for _, s := range a.args {
				v, _ := r.env.tryInt(s)
				l = append(l, v.Int64())
			}
			want := new(big.Int).Mod(limbSum(l), curveP)
			_, g, ok := r.numberAt(st, p)
			if !ok || fmt.Sprint(g) != fmt.Sprint(limbsOf(want)) {
				return fmt.Errorf("%x becomes %x and not %x", l, g, limbsOf(want))
			}
			if len(rets) == 1 && rets[0] != p {
				return fmt.Errorf("another value is returned")
			}
			return nil
		}, true
	}) {
		return false
	}
	// bytes
	var nums []*big.Int
	for _, n := range r.edges() {
		if n.Cmp(curveP) < 0 {
			nums = append(nums, n)
		}
	}
	for i := uint(0); i < 256; i++ {
		nums = append(nums, new(big.Int).Lsh(bi(1), i))
	}
	samples = nil
	for _, n := range nums {
		samples = append(samples, sampleVals{}.limbs(a, limbsOf(n)))
	}
	at := func() *big.Int {
		var l []int64
		for _, s := range a.args {
			v, _ := r.env.tryInt(s)
			l = append(l, v.Int64())
		}
		return limbSum(l)
	}
	r.what = "packing and comparing"
	arrT := types.NewArray(byteT, 32)
	if !r.cover(samples, func() (func() error, bool) {
		st := r.init.clone()
		p := r.value(st, a)
		buf := r.x.newAlloc("buf", arrT)
		r.x.store(st, buf, symsOf("old", 32), arrT)
		st1, _, ok := r.call(st, put, p, buf)
		if !ok {
			return nil, false
		}
		st2, rets, ok := r.call(st, byt, p)
		if !ok {
			return nil, false
		}
		_, z, ok := r.call(st, isZ, p)
		if !ok {
			return nil, false
		}
		_, o, ok := r.call(st, isO, p)
		if !ok {
			return nil, false
		}
		return func() error {
			n := at()
			want := n.FillBytes(make([]byte, 32))
			for i, c := range []*T{r.x.load(st1, buf, arrT), r.x.load(st2, rets[0], arrT)} {
				if g, ok := r.env.tryBytes(c); !ok || !bytes.Equal(g, want) {
					return fmt.Errorf("packing %x gives %x (%d)", want, g, i)
				}
			}
			if g, ok := r.env.tryBool(z[0]); !ok || g != (n.Sign() == 0) {
				return fmt.Errorf("%x is zero: %v", want, g)
			}
			if g, ok := r.env.tryBool(o[0]); !ok || g != (n.Bit(0) == 1) {
				return fmt.Errorf("%x is odd: %v", want, g)
			}
			return nil
		}, true
	}) {
		return false
	}
	samples = nil
	for i, n := range nums {
		m := nums[(i*7+1)%len(nums)]
		samples = append(samples, sampleVals{}.limbs(a, limbsOf(n)).limbs(b, limbsOf(n)), sampleVals{}.limbs(a, limbsOf(n)).limbs(b, limbsOf(m)))
		if i >= len(nums)-256 {
			n := r.rand256()
			n.Rsh(n, 1)
			m := new(big.Int).Xor(n, nums[i])
			if m.Cmp(curveP) < 0 {
				samples = append(samples, sampleVals{}.limbs(a, limbsOf(n)).limbs(b, limbsOf(m)))
			}
		}
	}
	r.what = "comparing"
	if !r.cover(samples, func() (func() error, bool) {
		st := r.init.clone()
		_, z, ok := r.call(st, eq, r.value(st, a), r.value(st, b))
		if !ok {
			return nil, false
		}
		return func() error {
			same := true
			for i := range a.args {
				v, _ := r.env.tryInt(a.args[i])
				w, _ := r.env.tryInt(b.args[i])
				same = same && v.Cmp(w) == 0
			}
			if g, ok := r.env.tryBool(z[0]); !ok || g != same {
				return fmt.Errorf("that %x is the other is %v", at(), g)
			}
			return nil
		}, true
	}) {
		return false
	}
	for n := -1; n <= 32; n++ {
		l := n
		if n < 0 {
			l = 32
		}
		c := symsOf("in", l)
		samples = nil
		for k := 0; k < 4+8*l; k++ {
			b := make([]byte, l)
			if k < 4 {
				r.rng.Read(b)
			} else {
				b[(k-4)/8] = 1 << uint((k-4)%8)
			}
			samples = append(samples, sampleVals{}.bytes(c, b))
		}
		r.what = fmt.Sprintf("unpacking %d bytes", l)
		if !r.cover(samples, func() (func() error, bool) {
			st := r.init.clone()
			p := r.value(st, limbs32("a"))
			var ok bool
			if n < 0 {
				buf := r.x.newAlloc("buf", arrT)
				r.x.store(st, buf, c, arrT)
				st, _, ok = r.call(st, set, p, buf)
			} else {
				st, _, ok = r.call(st, sets, p, r.x.newBytes(st, c, types.NewSlice(byteT)))
			}
			if !ok {
				return nil, false
			}
			return func() error {
				in, _ := r.env.tryBytes(c)
				_, g, ok := r.numberAt(st, p)
				if !ok || fmt.Sprint(g) != fmt.Sprint(limbsOf(new(big.Int).SetBytes(in))) {
					return fmt.Errorf("%x becomes %x", in, g)
				}
				return nil
			}, true
		}) {
			return false
		}
	}
	return true
}

// element is a field element as a value in memory: limbs of a number
// modulo the prime, with a magnitude; of magnitude 0 it is normalised
func (r *curveRun) element(e *T, mag int64) *T {
	var l []*T
	if n, ok := bigOf(e); ok && mag == 0 {
		for _, v := range limbsOf(n) {
			l = append(l, mkConst(constant.MakeInt64(v), types.Typ[types.Uint32]))
		}
	} else {
		for i := 0; i < 10; i++ {
			l = append(l, mk("fn", "felimb", types.Typ[types.Uint32], mkInt(int64(i)), e, mkInt(mag)))
		}
	}
	return mk("struct", typeKey(r.field), r.field, cVec(l...))
}

func (r *curveRun) elementAt(st *State, p *T) (*T, int64, bool) {
	c := r.limbsAt(st, p)
	if c == nil {
		return nil, 0, false
	}
	var l []int64
	var e, mag *T
	for i := 0; i < 10; i++ {
		v := cSel(c, mkInt(int64(i)), types.Typ[types.Uint32])
		if n, ok := v.i64(); ok {
			l = append(l, n)
			continue
		}
		if v.op != "fn" || v.aux != "felimb" || v.args[0] != mkInt(int64(i)) || e != nil && (e != v.args[1] || mag != v.args[2]) {
			return nil, 0, false
		}
		e, mag = v.args[1], v.args[2]
	}
	switch {
	case len(l) == 10:
		n := limbSum(l)
		if n.Cmp(curveP) < 0 && fmt.Sprint(limbsOf(n)) == fmt.Sprint(l) {
			return bigConst(n), 0, true
		}
		for m := int64(1); m <= maxMag; m++ {
			fits := true
			for i, v := range l {
				fits = fits && v <= m*unit(i).Int64()
			}
			if fits {
				return bigConst(n.Mod(n, curveP)), m, true
			}
		}
	case l == nil:
		m, _ := mag.i64()
		return e, m, true
	}
	return nil, 0, false
}

func modP(e *T) *T { return bigFn("mod", e, bigConst(curveP)) }

func bytes32(e *T) *T {
	var b []*T
	for i := 31; i >= 0; i-- {
		b = append(b, mk("fn", "big.uint64", byteT, bigFn("and", bigFn("rsh", e, mkInt(int64(8*i))), bigConst(bi(255)))))
	}
	return cVec(b...)
}

// elements stands for the field's methods, as they were shown to be
func (r *curveRun) elements(fr *frame, st *State, fn *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
	if fn == nil || fn.Signature.Recv() == nil || !types.Identical(deref(fn.Signature.Recv().Type()), r.field) {
		return nil, false
	}
	// operands
	var es []*T
	var ms []int64
	for _, a := range args {
		if a.typ == nil || !types.Identical(deref(a.typ), r.field) {
			break
		}
		e, m, ok := r.elementAt(st, a)
		if !ok {
			e, m = nil, 0
		}
		es, ms = append(es, e), append(ms, m)
	}
	no := func(f string, a ...interface{}) ([]outcome, bool) {
		r.x.fail("%s at %s: %s", fn.Name(), fmtPos(r.c.w.prog, pos), fmt.Sprintf(f, a...))
		return nil, true
	}
	give := func(e *T, mag int64) ([]outcome, bool) {
		if e == nil || mag > maxMag {
			return no("magnitude %d, more than %d", mag, maxMag)
		}
		st := st.clone()
		r.x.store(st, args[0], r.element(e, mag), r.field)
		if fn.Signature.Results().Len() == 0 {
			return one(st), true
		}
		return one(st, args[0]), true
	}
	have := func(is ...int) bool {
		for _, i := range is {
			if i >= len(es) || es[i] == nil {
				return false
			}
		}
		return true
	}
	mul := func(i, j int) ([]outcome, bool) {
		if !have(i, j) {
			return no("operands that are not known")
		}
		if ms[i] > 8 || ms[j] > 8 {
			return no("an operand of magnitude %d or %d, more than 8", ms[i], ms[j])
		}
		return give(modP(bigFn("mul", es[i], es[j])), 1)
	}
	neg := func(i int, k *T) ([]outcome, bool) {
		n, ok := k.i64()
		if !have(i) || !ok {
			return no("operands that are not known")
		}
		if ms[i] > n || n >= maxMag {
			return no("an operand of magnitude %d is taken for one of %d", ms[i], n)
		}
		return give(modP(bigFn("sub", bigConst(new(big.Int)), es[i])), n+1)
	}
	add := func(i, j int) ([]outcome, bool) {
		if !have(i, j) {
			return no("operands that are not known")
		}
		a, b := ms[i], ms[j]
		if a < 1 {
			a = 1
		}
		if b < 1 {
			b = 1
		}
		return give(modP(bigFn("add", es[i], es[j])), a+b)
	}
	zero := func(e *T, normal bool) ([]outcome, bool) {
		switch r.judge(mkEq(bigSign(modP(e)), mkInt(0), intT)) {
		case 1:
			if !normal {
				return no("equal values that need not be normalised are compared")
			}
			return one(st, mkBool(true)), true
		case -1:
			return one(st, mkBool(false)), true
		}
		return no("a value that is not known")
	}
	switch fn.Name() {
	case "Mul":
		return mul(0, 1)
	case "Mul2":
		return mul(1, 2)
	case "Square":
		return mul(0, 0)
	case "SquareVal":
		return mul(1, 1)
	case "Add":
		return add(0, 1)
	case "Add2":
		return add(1, 2)
	case "Negate":
		return neg(0, args[1])
	case "NegateVal":
		return neg(1, args[2])
	case "MulInt":
		n, ok := args[1].i64()
		if !ok || !have(0) || n < 0 {
			return no("operands that are not known")
		}
		m := ms[0]
		if m < 1 {
			m = 1
		}
		return give(modP(bigFn("mul", es[0], bigConst(bi(n)))), m*n)
	case "AddInt":
		n, ok := args[1].i64()
		if !ok || !have(0) || n < 0 || n > 1<<25 {
			return no("operands that are not known")
		}
		m := ms[0]
		if m < 1 {
			m = 1
		}
		return give(modP(bigFn("add", es[0], bigConst(bi(n)))), m+1)
	case "Normalize":
		if !have(0) {
			return no("a value that is not known")
		}
		return give(es[0], 0)
	case "Inverse":
		if !have(0) || ms[0] > 8 {
			return no("an operand that is not known, or of magnitude %d", ms[0])
		}
		return give(bigFn("exp", es[0], bigConst(new(big.Int).Sub(curveP, bi(2))), bigConst(curveP)), 1)
	case "IsZero":
		if !have(0) {
			return no("a value that is not known")
		}
		return zero(es[0], ms[0] == 0)
	case "Equals":
		if !have(0, 1) {
			return no("values that are not known")
		}
		return zero(bigFn("sub", es[0], es[1]), ms[0] == 0 && ms[1] == 0)
	case "IsOdd":
		if !have(0) || ms[0] != 0 {
			return no("a value that is not known or not normalised")
		}
		return one(st, mkEq(mk("fn", "big.uint64", intT, bigFn("and", es[0], bigConst(bi(1)))), mkInt(1), intT)), true
	case "PutBytes", "Bytes":
		if !have(0) || ms[0] != 0 {
			return no("a value that is not known or not normalised is packed")
		}
		arrT := types.NewArray(byteT, 32)
		st := st.clone()
		if fn.Name() == "PutBytes" {
			r.x.store(st, args[1], bytes32(es[0]), arrT)
			return one(st), true
		}
		p := r.x.newAlloc("packed", arrT)
		r.x.store(st, p, bytes32(es[0]), arrT)
		return one(st, p), true
	case "SetBytes", "SetByteSlice":
		c := r.x.load(st, args[1], types.NewArray(byteT, 32))
		if fn.Name() == "SetByteSlice" {
			c = r.x.content(st, args[1])
			if n, ok := r.length(c); !ok || n > 32 {
				return no("bytes of an unknown length or of more than 32")
			}
		}
		return give(modP(bigOfBytes(c)), 1)
	}
	return nil, false
}

// ---- the group ----

type affine struct{ x, y *big.Int } // nil for infinity

func inf(p affine) bool { return p.x == nil }

func groupAdd(p, q affine) affine {
	if inf(p) {
		return q
	}
	if inf(q) {
		return p
	}
	m := new(big.Int)
	if p.x.Cmp(q.x) == 0 {
		if m.Add(p.y, q.y).Mod(m, curveP).Sign() == 0 {
			return affine{}
		}
		m.Mul(p.x, p.x).Mul(m, bi(3)).Mul(m, new(big.Int).ModInverse(new(big.Int).Lsh(p.y, 1), curveP))
	} else {
		d := new(big.Int).Sub(q.x, p.x)
		m.Sub(q.y, p.y).Mul(m, d.ModInverse(d.Mod(d, curveP), curveP))
	}
	x := new(big.Int).Mul(m, m)
	x.Sub(x, p.x).Sub(x, q.x).Mod(x, curveP)
	y := new(big.Int).Sub(p.x, x)
	y.Mul(y, m).Sub(y, p.y).Mod(y, curveP)
	return affine{x, y}
}

func groupMul(p affine, k *big.Int) affine {
	var q affine
	for i := k.BitLen() - 1; i >= 0; i-- {
		q = groupAdd(q, q)
		if k.Bit(i) == 1 {
			q = groupAdd(q, p)
		}
	}
	return q
}

func groupNeg(p affine) affine {
	if inf(p) {
		return p
	}
	return affine{p.x, new(big.Int).Sub(curveP, p.y)}
}

func generator() affine {
	x, _ := new(big.Int).SetString("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16)
	y, _ := new(big.Int).SetString("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 16)
	return affine{x, y}
}

var curveLambda, _ = new(big.Int).SetString("5363AD4CC05C30E0A5261C028812645A122E22EA20816678DF02967C1B23BD72", 16)

func (r *curveRun) point() affine { return groupMul(generator(), r.rand256()) }

// pairs of points in all positions to each other
func (r *curveRun) pairs() [][2]affine {
	var out [][2]affine
	for k := 0; k < 5; k++ {
		p := r.point()
		switch k {
		case 3: // its first coordinate is short
			h := new(big.Int).Add(curveN, bi(1))
			p = groupMul(generator(), h.Rsh(h, 1))
		case 4: // its first coordinate is one
			p = affine{bi(1), new(big.Int).ModSqrt(bi(8), curveP)}
		}
		l := groupMul(p, curveLambda)
		ps := []affine{p, groupNeg(p), l, groupMul(l, curveLambda), groupNeg(l), groupAdd(p, p), r.point()}
		for _, q := range ps {
			out = append(out, [2]affine{p, q})
		}
	}
	return out
}

func (v sampleVals) num(c *T, n *big.Int) sampleVals {
	if n == nil {
		n = new(big.Int)
	}
	return v.bytes(c, n.FillBytes(make([]byte, len(c.args))))
}

// bytesNum is the number unknown bytes spell at the sample
func (r *curveRun) num(c *T) *big.Int {
	b, _ := r.env.tryBytes(c)
	return new(big.Int).SetBytes(b)
}

// isPoint: a pair of numbers is the point
func (r *curveRun) isPoint(x, y *T, want affine) error {
	if want.x == nil {
		want = affine{bi(0), bi(0)}
	}
	for i, t := range []*T{x, y} {
		g, ok := r.env.tryInt(t)
		if !ok || g.Cmp([]*big.Int{want.x, want.y}[i]) != 0 {
			return fmt.Errorf("coordinate %d is %x and not %x", i, g, []*big.Int{want.x, want.y}[i])
		}
	}
	return nil
}

func (r *curveRun) pointOf(x, y *T) affine {
	a := affine{r.num(x), r.num(y)}
	if a.x.Sign() == 0 && a.y.Sign() == 0 {
		return affine{}
	}
	return a
}

func (r *curveRun) formulas() bool {
	get := func(n string) *ssa.Function { return r.c.fn("ec", n) }
	inv, add, dbl, on := get("(*fieldVal).Inverse"), get("(*KoblitzCurve).Add"), get("(*KoblitzCurve).Double"), get("(*KoblitzCurve).IsOnCurve")
	if inv == nil || add == nil || dbl == nil || on == nil {
		return false
	}
	x1, y1, x2, y2 := symsOf("x1", 32), symsOf("y1", 32), symsOf("x2", 32), symsOf("y2", 32)
	// inversion is a power
	r.extra = func(fr *frame, st *State, fn *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
		if fn == inv {
			return nil, false
		}
		return r.elements(fr, st, fn, nm, args, sig, pos)
	}
	r.what = "inverting"
	samples := []sampleVals{sampleVals{}.num(x1, bi(0)), sampleVals{}.num(x1, bi(1)), sampleVals{}.num(x1, new(big.Int).Sub(curveP, bi(1)))}
	for i := 0; i < 10; i++ {
		samples = append(samples, sampleVals{}.num(x1, new(big.Int).Mod(r.rand256(), curveP)))
	}
	for _, mag := range []int64{0, 8} {
		if !r.cover(samples, func() (func() error, bool) {
			st := r.init.clone()
			p := r.x.newAlloc("fv", r.field)
			r.x.store(st, p, r.element(bigOfBytes(x1), mag), r.field)
			st, _, ok := r.call(st, inv, p)
			if !ok {
				return nil, false
			}
			return func() error {
				e, m, ok := r.elementAt(st, p)
				if !ok || m > 1 {
					return fmt.Errorf("the result is not known or of magnitude %d", m)
				}
				g, ok := r.env.tryInt(e)
				want := new(big.Int).Exp(r.num(x1), new(big.Int).Sub(curveP, bi(2)), curveP)
				if !ok || g.Cmp(want) != 0 {
					return fmt.Errorf("of %x it is %x", r.num(x1), g)
				}
				return nil
			}, true
		}) {
			return false
		}
	}
	r.extra = r.elements
	if !r.jacobian(x1, y1, x2, y2) {
		return false
	}
	// the exported operations
	samples = nil
	for _, p := range r.pairs() {
		samples = append(samples, sampleVals{}.num(x1, p[0].x).num(y1, p[0].y).num(x2, p[1].x).num(y2, p[1].y))
	}
	o := affine{}
	p := r.point()
	for _, q := range [][2]affine{{o, p}, {p, o}, {o, o}} {
		samples = append(samples, sampleVals{}.num(x1, q[0].x).num(y1, q[0].y).num(x2, q[1].x).num(y2, q[1].y))
	}
	num := func(st *State, c *T) *T { return r.x.newBig(st, bigOfBytes(c)) }
	r.what = "adding points"
	if !r.cover(samples, func() (func() error, bool) {
		st := r.init.clone()
		in := []*T{r.curve, num(st, x1), num(st, y1), num(st, x2), num(st, y2)}
		st, rets, ok := r.call(st, add, in...)
		if !ok {
			return nil, false
		}
		return func() error {
			for i, c := range []*T{x1, y1, x2, y2} {
				if g, ok := r.env.tryInt(r.x.bigVal(st, in[i+1])); !ok || g.Cmp(r.num(c)) != 0 {
					return fmt.Errorf("an operand is changed")
				}
			}
			return r.isPoint(r.x.bigVal(st, rets[0]), r.x.bigVal(st, rets[1]), groupAdd(r.pointOf(x1, y1), r.pointOf(x2, y2)))
		}, true
	}) {
		return false
	}
	r.what = "doubling a point"
	if !r.cover(samples, func() (func() error, bool) {
		st := r.init.clone()
		st, rets, ok := r.call(st, dbl, r.curve, num(st, x1), num(st, y1))
		if !ok {
			return nil, false
		}
		return func() error {
			return r.isPoint(r.x.bigVal(st, rets[0]), r.x.bigVal(st, rets[1]), groupAdd(r.pointOf(x1, y1), r.pointOf(x1, y1)))
		}, true
	}) {
		return false
	}
	r.what = "whether a point is on the curve"
	for k := 0; k < 12; k++ {
		p := r.point()
		samples = append(samples, sampleVals{}.num(x1, p.x).num(y1, new(big.Int).Xor(p.y, new(big.Int).Lsh(bi(1), uint(k*19)))),
			sampleVals{}.num(x1, new(big.Int).Xor(p.x, new(big.Int).Lsh(bi(1), uint(k*19)))).num(y1, p.y), sampleVals{}.num(x1, p.y).num(y1, p.x))
	}
	return r.cover(samples, func() (func() error, bool) {
		st := r.init.clone()
		_, rets, ok := r.call(st, on, r.curve, num(st, x1), num(st, y1))
		if !ok {
			return nil, false
		}
		return func() error {
			x, y := r.num(x1), r.num(y1)
			d := new(big.Int).Exp(x, bi(3), nil)
			d.Add(d, bi(7)).Sub(d, new(big.Int).Mul(y, y)).Mod(d, curveP)
			if g, ok := r.env.tryBool(rets[0]); !ok || g != (d.Sign() == 0) {
				return fmt.Errorf("for %x, %x it is %v", x, y, g)
			}
			return nil
		}, true
	})
}

// jacobian: the formulas on points with any third coordinate
func (r *curveRun) jacobian(x1, y1, x2, y2 *T) bool {
	add, dbl := r.c.w.Func("ec", "(*KoblitzCurve).addJacobian"), r.c.w.Func("ec", "(*KoblitzCurve).doubleJacobian")
	z1, z2 := symsOf("z1", 32), symsOf("z2", 32)
	one := bigConst(bi(1))
	mulE := func(a, b *T) *T { return modP(bigFn("mul", a, b)) }
	three := func(st *State, x, y, z *T, mag int64) []*T {
		X, Y, Z := bigOfBytes(x), bigOfBytes(y), z
		m := mag
		if z != one {
			Z = bigOfBytes(z)
			zz := mulE(Z, Z)
			X, Y = mulE(X, zz), mulE(Y, mulE(zz, Z))
		} else {
			m = 0
		}
		var ps []*T
		for i, e := range []*T{X, Y, Z} {
			k := mag
			if i == 2 {
				k = m
			}
			p := r.x.newAlloc("fv", r.field)
			r.x.store(st, p, r.element(e, k), r.field)
			ps = append(ps, p)
		}
		return ps
	}
	result := func(st *State, p []*T, want affine) error {
		var v []*big.Int
		for i, q := range p {
			e, m, ok := r.elementAt(st, q)
			if !ok || m > 1 {
				return fmt.Errorf("coordinate %d is not known or of magnitude %d", i, m)
			}
			g, ok := r.env.tryInt(e)
			if !ok {
				return fmt.Errorf("coordinate %d is %s", i, clip(e.String(), 80))
			}
			v = append(v, g)
			// infinity is seen by comparison
			if inf(want) && (g.Sign() != 0 || m != 0) {
				return fmt.Errorf("the point at infinity is %x", g)
			}
		}
		if inf(want) {
			return nil
		}
		if v[2].Sign() == 0 {
			return fmt.Errorf("it is the point at infinity")
		}
		i := new(big.Int).ModInverse(v[2], curveP)
		ii := new(big.Int).Mul(i, i)
		x := new(big.Int).Mul(v[0], ii)
		y := new(big.Int).Mul(v[1], ii)
		y.Mul(y, i)
		if x.Mod(x, curveP).Cmp(want.x) != 0 || y.Mod(y, curveP).Cmp(want.y) != 0 {
			return fmt.Errorf("it is %x, %x and not %x, %x", x, y, want.x, want.y)
		}
		return nil
	}
	rz := func() *big.Int {
		return new(big.Int).Add(new(big.Int).Mod(r.rand256(), new(big.Int).Sub(curveP, bi(2))), bi(2))
	}
	for mode, zs := range [][2]*T{{one, one}, {z1, z1}, {z1, one}, {one, z2}, {z1, z2}} {
		var samples []sampleVals
		for _, p := range r.pairs() {
			samples = append(samples, sampleVals{}.num(x1, p[0].x).num(y1, p[0].y).num(x2, p[1].x).num(y2, p[1].y).num(z1, rz()).num(z2, rz()))
		}
		for _, mag := range []int64{0, 1, 2} {
			for alias := 0; alias < 3; alias++ {
				if add != nil && len(add.Params) == 10 {
					r.what = fmt.Sprintf("adding points of magnitude %d (third coordinates %d, result in operand %d)", mag, mode, alias)
					if !r.cover(samples, func() (func() error, bool) {
						st := r.init.clone()
						p, q := three(st, x1, y1, zs[0], mag), three(st, x2, y2, zs[1], mag)
						out := []*T{r.value(st, limbs32("o0")), r.value(st, limbs32("o1")), r.value(st, limbs32("o2"))}
						switch alias {
						case 1:
							out = p
						case 2:
							out = q
						}
						as := append(append(append([]*T{r.curve}, p...), q...), out...)
						st, _, ok := r.call(st, add, as...)
						if !ok {
							return nil, false
						}
						return func() error { return result(st, out, groupAdd(r.pointOf(x1, y1), r.pointOf(x2, y2))) }, true
					}) {
						return false
					}
				}
				if dbl != nil && len(dbl.Params) == 7 && alias < 2 && mode < 3 && mode != 1 {
					r.what = fmt.Sprintf("doubling a point of magnitude %d (third coordinate %d, result in operand %d)", mag, mode, alias)
					z := zs[0]
					if !r.cover(samples, func() (func() error, bool) {
						st := r.init.clone()
						p := three(st, x1, y1, z, mag)
						out := p
						if alias == 0 {
							out = []*T{r.value(st, limbs32("o0")), r.value(st, limbs32("o1")), r.value(st, limbs32("o2"))}
						}
						st, _, ok := r.call(st, dbl, append(append([]*T{r.curve}, p...), out...)...)
						if !ok {
							return nil, false
						}
						return func() error {
							return result(st, out, groupAdd(r.pointOf(x1, y1), r.pointOf(x1, y1)))
						}, true
					}) {
						return false
					}
				}
			}
		}
	}
	return true
}

// ---- multiples ----

func (r *curveRun) scalars() bool {
	fn := r.c.fn("ec", "(*KoblitzCurve).ScalarMult")
	if fn == nil {
		return false
	}
	steps := r.x.maxSteps
	r.x.maxSteps = 5000000
	defer func() { r.x.maxSteps = steps }()
	x1, y1 := symsOf("x1", 32), symsOf("y1", 32)
	num := func(st *State, c *T) *T { return r.x.newBig(st, bigOfBytes(c)) }
	type mult struct {
		p affine
		k []byte
	}
	p := r.point()
	var ms []mult
	for _, k := range []*big.Int{bi(1), bi(3), bi(256), new(big.Int).Sub(curveN, bi(1)), curveN, new(big.Int).Add(curveN, bi(2)), curveLambda, r.rand256(), r.rand256()} {
		ms = append(ms, mult{p, k.Bytes()}, mult{p, k.FillBytes(make([]byte, 32))})
	}
	// sums of small multiples of the point and its image
	for _, a := range []int64{-300, -1, 0, 7} {
		for _, b := range []int64{-300, -1, 1, 7} {
			k := new(big.Int).Mul(curveLambda, bi(b))
			ms = append(ms, mult{p, k.Mod(k.Add(k, bi(a)), curveN).Bytes()})
		}
	}
	ms = append(ms, mult{p, nil}, mult{p, make([]byte, 32)}, mult{p, append(r.rand256().Bytes(), 5, 7)}, mult{p, append(append(r.rand256().Bytes(), r.rand256().Bytes()...), r.rand256().Bytes()...)}, mult{generator(), r.rand256().Bytes()})
	for _, m := range ms {
		k := symsOf("k", len(m.k))
		r.what = fmt.Sprintf("multiplying a point by %x", m.k)
		if !r.cover([]sampleVals{sampleVals{}.num(x1, m.p.x).num(y1, m.p.y).bytes(k, m.k)}, func() (func() error, bool) {
			st := r.init.clone()
			kp := r.x.newBytes(st, k, types.NewSlice(byteT))
			st, rets, ok := r.call(st, fn, r.curve, num(st, x1), num(st, y1), kp)
			if !ok {
				return nil, false
			}
			return func() error {
				if g, ok := r.env.tryBytes(r.x.content(st, kp)); !ok || !bytes.Equal(g, m.k) {
					return fmt.Errorf("the number is changed")
				}
				n := new(big.Int).SetBytes(m.k)
				return r.isPoint(r.x.bigVal(st, rets[0]), r.x.bigVal(st, rets[1]), groupMul(m.p, n.Mod(n, curveN)))
			}, true
		}) {
			return false
		}
	}
	return true
}

// table is the constant of precomputed points: for each byte of a number
// and each of its values, the limbs of the three coordinates
func (r *curveRun) table() (t [32][256][3][10]int64, ok bool) {
	g := r.c.w.pkgs["ec"].Var("secp256k1BytePoints")
	if g == nil {
		return t, false
	}
	var text string
	for _, b := range r.c.w.pkgs["ec"].Func("init").Blocks {
		for _, i := range b.Instrs {
			if s, is := i.(*ssa.Store); is && s.Addr == ssa.Value(g) {
				if k, is := s.Val.(*ssa.Const); is && k.Value != nil && k.Value.Kind() == constant.String {
					text = constant.StringVal(k.Value)
				}
			}
		}
	}
	z, err := zlib.NewReader(base64.NewDecoder(base64.StdEncoding, strings.NewReader(text)))
	if err != nil {
		return t, false
	}
	d, err := io.ReadAll(z)
	if err != nil || len(d) < 32*256*3*10*4 {
		return t, false
	}
	for i := range t {
		for b := range t[i] {
			for c := range t[i][b] {
				for l := range t[i][b][c] {
					t[i][b][c][l] = int64(binary.LittleEndian.Uint32(d))
					d = d[4:]
				}
			}
		}
	}
	return t, true
}

func (r *curveRun) baseMult() bool {
	fn := r.c.fn("ec", "(*KoblitzCurve).ScalarBaseMult")
	if fn == nil {
		return false
	}
	kt := deref(r.curve.typ)
	i := -1
	if u := structOf(kt); u != nil {
		i = fieldIdx(u, "bytePoints")
	}
	if i < 0 {
		return true // no table
	}
	r.fn = fn
	r.what = "the table of precomputed points"
	t, ok := r.table()
	if !ok {
		return r.say("table", "it cannot be decoded")
	}
	g := generator()
	for i := 31; i >= 0; i-- {
		var p affine
		for b := 0; b < 256; b++ {
			e := t[i][b]
			var v [3]*big.Int
			for c := range v {
				v[c] = limbSum(e[c][:])
				v[c].Mod(v[c], curveP)
				for l, n := range e[c] {
					if n > unit(l).Int64() {
						return r.say("table", "limb %d of the point for byte %d of value %d is %d", l, i, b, n)
					}
				}
			}
			q := affine{}
			if v[2].Sign() != 0 && (v[0].Sign() != 0 || v[1].Sign() != 0) {
				n := new(big.Int).ModInverse(v[2], curveP)
				m := new(big.Int).Mul(n, n)
				q.x, q.y = new(big.Int).Mul(v[0], m), m.Mul(m, n)
				q.y = m.Mul(m, v[1])
				q.x.Mod(q.x, curveP)
				q.y.Mod(q.y, curveP)
			}
			if inf(p) != inf(q) || !inf(p) && (p.x.Cmp(q.x) != 0 || p.y.Cmp(q.y) != 0) {
				return r.say("table", "the point for byte %d of value %d is %x", i, b, v)
			}
			r.n++
			p = groupAdd(p, g)
		}
		g = p
	}
	at := fieldAddrOf(r.curve, kt, "bytePoints")
	arrT := deref(deref(at.typ))
	if a := arrayOf(arrT); a == nil || a.Len() != 32 {
		return r.say("analysis", "the table is %s", arrT)
	}
	steps := r.x.maxSteps
	r.x.maxSteps = 5000000
	defer func() { r.x.maxSteps = steps }()
	var ks [][]byte
	for _, k := range []*big.Int{bi(1), bi(255), bi(256), new(big.Int).Sub(curveN, bi(1)), curveN, new(big.Int).Add(curveN, bi(2)), new(big.Int).Lsh(bi(1), 248), r.rand256(), r.rand256()} {
		ks = append(ks, k.Bytes(), k.FillBytes(make([]byte, 32)))
	}
	ks = append(ks, nil, append(r.rand256().Bytes(), 9, 9, 9))
	for _, k := range ks {
		r.what = fmt.Sprintf("multiplying the base point by %x", k)
		red := new(big.Int).SetBytes(k)
		red.Mod(red, curveN)
		kb := k
		if len(k) > 32 {
			kb = red.Bytes()
		}
		v := sampleVals{}
		var rows []*T
		zero := mk("struct", typeKey(r.field), r.field, limbs0())
		inft := cVec(zero, zero, zero)
		for i := 0; i < 32; i++ {
			row := make([]*T, 256)
			for b := range row {
				row[b] = inft
			}
			// the point that is looked up, and its neighbours
			j := i - (32 - len(kb))
			if j >= 0 && kb[j] != 0 {
				for d := -1; d <= 1; d++ {
					b := int(kb[j]) + d
					if b < 1 || b > 255 {
						continue
					}
					var cs []*T
					for c := range t[i][b] {
						l := t[i][b][c]
						n := new(big.Int).Mod(limbSum(l[:]), curveP)
						mag := int64(0)
						if fmt.Sprint(limbsOf(n)) != fmt.Sprint(l[:]) {
							mag = 1
						}
						x := symsOf(fmt.Sprintf("t%d.%d.%d", i, b, c), 32)
						v.num(x, n)
						cs = append(cs, r.element(bigOfBytes(x), mag))
					}
					row[b] = cVec(cs...)
				}
			}
			rows = append(rows, cVec(row...))
		}
		if !r.cover([]sampleVals{v}, func() (func() error, bool) {
			st := r.init.clone()
			p := r.x.newAlloc("table", arrT)
			r.x.store(st, p, cVec(rows...), arrT)
			r.x.store(st, at, p, deref(at.typ))
			kp := r.x.newBytes(st, cLit(string(k)), types.NewSlice(byteT))
			st, rets, ok := r.call(st, fn, r.curve, kp)
			if !ok {
				return nil, false
			}
			return func() error {
				return r.isPoint(r.x.bigVal(st, rets[0]), r.x.bigVal(st, rets[1]), groupMul(generator(), red))
			}, true
		}) {
			return false
		}
	}
	return true
}

func limbs0() *T {
	var l []*T
	for i := 0; i < 10; i++ {
		l = append(l, mkConst(constant.MakeInt64(0), types.Typ[types.Uint32]))
	}
	return cVec(l...)
}
