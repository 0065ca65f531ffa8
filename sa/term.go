package main

// Terms: the hash-consed value numbers of the abstract domain.
//
// A term denotes one fixed (unknown) machine value of a run; two program
// points that hold the same term hold the same value. Integer terms are kept
// in a linear normal form, byte sequences in a segment normal form, so that
// differently written code computing the same value has the same term.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type T struct {
	id   int
	op   string
	aux  string
	args []*T
	val  constant.Value // op == "const"
	lin  *linform       // op == "lin"
	typ  types.Type
	obj  interface{} // extra payload that is determined by op+aux (e.g. *ssa.Function)
}

type interner struct {
	tab map[string]*T
	n   int
}

var in = &interner{tab: map[string]*T{}}

func mk(op, aux string, typ types.Type, args ...*T) *T {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	if (op == "alloc" || op == "sym") && typ != nil {
		// names are reused by separate analyses
		sb.WriteByte('|')
		sb.WriteString(typeStr(typ))
	}
	k := sb.String()
	if t, ok := in.tab[k]; ok {
		return t
	}
	in.n++
	t := &T{id: in.n, op: op, aux: aux, args: append([]*T(nil), args...), typ: typ}
	in.tab[k] = t
	return t
}

var typeStrs = map[types.Type]string{}

func typeStr(t types.Type) string {
	s, ok := typeStrs[t]
	if !ok {
		s = types.TypeString(t, nil)
		typeStrs[t] = s
	}
	return s
}

// ---- constants ----

func mkConst(v constant.Value, typ types.Type) *T {
	k := "const|" + v.Kind().String() + "|" + v.ExactString()
	if t, ok := in.tab[k]; ok {
		return t
	}
	in.n++
	t := &T{id: in.n, op: "const", val: v, typ: typ}
	in.tab[k] = t
	return t
}

func mkInt(i int64) *T    { return mkConst(constant.MakeInt64(i), types.Typ[types.Int]) }
func mkBool(b bool) *T    { return mkConst(constant.MakeBool(b), types.Typ[types.Bool]) }
func mkStr(s string) *T   { return mkConst(constant.MakeString(s), types.Typ[types.String]) }
func mkNil() *T           { return mk("nil", "", nil) }
func mkBig(b *big.Int) *T { return mkConst(constant.Make(b), types.Typ[types.Int]) }

func (t *T) isConst() bool { return t.op == "const" }
func (t *T) isNil() bool   { return t.op == "nil" }
func (t *T) isTrue() bool {
	return t.op == "const" && t.val.Kind() == constant.Bool && constant.BoolVal(t.val)
}
func (t *T) isFalse() bool {
	return t.op == "const" && t.val.Kind() == constant.Bool && !constant.BoolVal(t.val)
}

// intVal returns the integer constant t denotes.
func (t *T) intVal() (*big.Int, bool) {
	if t.op != "const" || t.val.Kind() != constant.Int {
		return nil, false
	}
	switch x := constant.Val(t.val).(type) {
	case int64:
		return big.NewInt(x), true
	case *big.Int:
		return x, true
	}
	return nil, false
}

func (t *T) i64() (int64, bool) {
	b, ok := t.intVal()
	if !ok || !b.IsInt64() {
		return 0, false
	}
	return b.Int64(), true
}

func (t *T) str() (string, bool) {
	if t.op == "const" && t.val.Kind() == constant.String {
		return constant.StringVal(t.val), true
	}
	return "", false
}

// ---- integer kinds ----

type ikind struct {
	bits   int
	signed bool
}

func kindOf(t types.Type) (ikind, bool) {
	if t == nil {
		return ikind{64, true}, false
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return ikind{64, true}, false
	}
	switch b.Kind() {
	case types.Int8:
		return ikind{8, true}, true
	case types.Int16:
		return ikind{16, true}, true
	case types.Int32, types.UntypedRune:
		return ikind{32, true}, true
	case types.Int64, types.Int, types.UntypedInt:
		return ikind{64, true}, true
	case types.Uint8:
		return ikind{8, false}, true
	case types.Uint16:
		return ikind{16, false}, true
	case types.Uint32:
		return ikind{32, false}, true
	}
	return ikind{64, false}, true
}

func (k ikind) String() string {
	if k.signed {
		return fmt.Sprintf("i%d", k.bits)
	}
	return fmt.Sprintf("u%d", k.bits)
}

func (k ikind) min() *big.Int {
	if !k.signed {
		return new(big.Int)
	}
	return new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), uint(k.bits-1)))
}
func (k ikind) max() *big.Int {
	n := uint(k.bits)
	if k.signed {
		n--
	}
	return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), n), big.NewInt(1))
}

func (k ikind) wrap(v *big.Int) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(k.bits))
	r := new(big.Int).Mod(v, m)
	if k.signed && r.Cmp(k.max()) > 0 {
		r.Sub(r, m)
	}
	return r
}

// ---- linear forms ----

// linform is sum(coef*atom) + c, in the ring of integers mod 2^bits
type linform struct {
	k     ikind
	atoms []*T // sorted by id
	coef  []*big.Int
	c     *big.Int
}

func toLin(t *T, k ikind) *linform {
	if t.op == "lin" && t.lin.k == k {
		return t.lin
	}
	if v, ok := t.intVal(); ok {
		return &linform{k: k, c: k.wrap(v)}
	}
	return &linform{k: k, atoms: []*T{t}, coef: []*big.Int{big.NewInt(1)}, c: new(big.Int)}
}

func (a *linform) addScaled(b *linform, s *big.Int) *linform {
	m := map[*T]*big.Int{}
	for i, t := range a.atoms {
		m[t] = new(big.Int).Set(a.coef[i])
	}
	for i, t := range b.atoms {
		x := new(big.Int).Mul(b.coef[i], s)
		if o, ok := m[t]; ok {
			o.Add(o, x)
		} else {
			m[t] = x
		}
	}
	r := &linform{k: a.k, c: new(big.Int).Add(a.c, new(big.Int).Mul(b.c, s))}
	for t, x := range m {
		if x.Sign() != 0 {
			r.atoms = append(r.atoms, t)
		}
	}
	sort.Slice(r.atoms, func(i, j int) bool { return r.atoms[i].id < r.atoms[j].id })
	for _, t := range r.atoms {
		r.coef = append(r.coef, m[t])
	}
	return r
}

func (l *linform) term(typ types.Type) *T {
	l.c = l.k.wrap(l.c)
	if len(l.atoms) == 0 {
		return mkConst(constant.Make(new(big.Int).Set(l.c)), typ)
	}
	if len(l.atoms) == 1 && l.c.Sign() == 0 && l.coef[0].Cmp(big.NewInt(1)) == 0 {
		return l.atoms[0]
	}
	var sb strings.Builder
	sb.WriteString(l.k.String())
	for i := range l.atoms {
		fmt.Fprintf(&sb, ",%s", l.coef[i])
	}
	fmt.Fprintf(&sb, ";%s", l.c)
	t := mk("lin", sb.String(), typ, l.atoms...)
	t.lin = l
	return t
}

func mkAdd(a, b *T, typ types.Type) *T {
	k, _ := kindOf(typ)
	return toLin(a, k).addScaled(toLin(b, k), big.NewInt(1)).term(typ)
}
func mkSub(a, b *T, typ types.Type) *T {
	k, _ := kindOf(typ)
	return toLin(a, k).addScaled(toLin(b, k), big.NewInt(-1)).term(typ)
}
func mkMul(a, b *T, typ types.Type) *T {
	k, _ := kindOf(typ)
	if v, ok := a.intVal(); ok {
		z := &linform{k: k, c: new(big.Int)}
		return z.addScaled(toLin(b, k), v).term(typ)
	}
	if _, ok := b.intVal(); ok {
		return mkMul(b, a, typ)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("mul", k.String(), typ, a, b)
}

var intT = types.Typ[types.Int]

func addI(a *T, i int64) *T { return mkAdd(a, mkInt(i), intT) }
func plus(a, b *T) *T       { return mkAdd(a, b, intT) }
func minus(a, b *T) *T      { return mkSub(a, b, intT) }

// ---- boolean terms ----

func mkNot(c *T) *T {
	switch c.op {
	case "const":
		return mkBool(!constant.BoolVal(c.val))
	case "not":
		return c.args[0]
	case "le0":
		// !(l <= 0)  ==  1-l <= 0
		k := ikind{64, true}
		l := toLin(c.args[0], k)
		one := &linform{k: k, c: big.NewInt(1)}
		return mkLe0(one.addScaled(l, big.NewInt(-1)))
	case "ult":
		// !(a < b) == b <= a ; keep as negation
	}
	return mk("not", "", types.Typ[types.Bool], c)
}

// mkLe0 builds l <= 0 over mathematical integers
func mkLe0(l *linform) *T {
	if len(l.atoms) == 0 {
		return mkBool(l.c.Sign() <= 0)
	}
	// divide by the gcd of the coefficients (integer tightening)
	g := new(big.Int)
	for _, c := range l.coef {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	if g.Cmp(big.NewInt(1)) > 0 {
		r := &linform{k: l.k, atoms: l.atoms}
		for _, c := range l.coef {
			r.coef = append(r.coef, new(big.Int).Quo(c, g))
		}
		// sum + c <= 0  ->  sum/g <= floor(-c/g)
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(new(big.Int).Neg(l.c), g, m)
		r.c = new(big.Int).Neg(q)
		l = r
	}
	return mk("le0", "", types.Typ[types.Bool], l.rawterm())
}

// rawterm is term() without wrapping
func (l *linform) rawterm() *T {
	return l.term(intT)
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isFloatType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

func nonNil(t *T) bool {
	switch t.op {
	case "alloc", "global", "closure", "func", "iface", "mkmap", "mkchan", "obj":
		return true
	case "faddr", "iaddr":
		return true
	case "sbase":
		return false
	case "slice":
		return nonNil(t.args[0])
	case "err":
		return true
	case "conv":
		return t.aux == "ptr" && nonNil(t.args[0])
	}
	return false
}

// rootAlloc returns the allocation a pointer points into, if known
func rootOf(t *T) *T {
	for t.op == "faddr" || t.op == "iaddr" || t.op == "slice" || (t.op == "conv" && t.aux == "ptr") {
		t = t.args[0]
	}
	return t
}

func mkEq(a, b *T, typ types.Type) *T {
	if a == b && !isFloatType(typ) {
		return mkBool(true)
	}
	if a.isConst() && b.isConst() {
		if a.val.Kind() == b.val.Kind() || (a.val.Kind() != constant.String && a.val.Kind() != constant.Bool && b.val.Kind() != constant.String && b.val.Kind() != constant.Bool) {
			return mkBool(constant.Compare(a.val, token.EQL, b.val))
		}
		return mkBool(false)
	}
	if a.isNil() && nonNil(b) || b.isNil() && nonNil(a) {
		return mkBool(false)
	}
	if a.isNil() && b.op == "slice" || b.isNil() && a.op == "slice" {
		// a non-nil base was not established: undecided
	}
	if ra, rb := rootOf(a), rootOf(b); ra.op == "alloc" && rb.op == "alloc" && ra != rb {
		return mkBool(false)
	}
	if a.op == "iface" && b.op == "iface" {
		if a.aux != b.aux {
			return mkBool(false)
		}
		return mkEq(a.args[0], b.args[0], a.args[0].typ)
	}
	if isStringT(typ) {
		for _, p := range [][2]*T{{a, b}, {b, a}} {
			// a JSON object or list is not a literal
			if p[1].isConst() && p[0].op == "string" && p[0].args[0].op == "fn" && (p[0].args[0].aux == "object" || p[0].args[0].aux == "list") {
				if s := constant.StringVal(p[1].val); len(s) == 0 || s[0] != '{' && s[0] != '[' {
					return mkBool(false)
				}
			}
		}
		la, lb := strLen(a), strLen(b)
		if v, ok := lb.i64(); ok && v == 0 {
			return mkEq(la, mkInt(0), intT)
		}
		if v, ok := la.i64(); ok && v == 0 {
			return mkEq(lb, mkInt(0), intT)
		}
		if d, ok := constDiff(la, lb); ok && d != 0 {
			return mkBool(false)
		}
		if n, ok := la.i64(); ok && n <= 64 && (a.op == "string" || a.isConst()) && (b.op == "string" || b.isConst()) {
			ca, cb := strContent(a), strContent(b)
			if bySeg(ca) && bySeg(cb) {
				for i := int64(0); i < n; i++ {
					if mkEq(cSel(ca, mkInt(i), byteT), cSel(cb, mkInt(i), byteT), intT).isFalse() {
						return mkBool(false)
					}
				}
			}
		}
	}
	if isBoolT(typ) {
		if a.isTrue() {
			return b
		}
		if a.isFalse() {
			return mkNot(b)
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return mkNot(a)
		}
	}
	if isIntType(typ) {
		k, _ := kindOf(typ)
		l := toLin(a, k).addScaled(toLin(b, k), big.NewInt(-1))
		if len(l.atoms) == 0 {
			return mkBool(k.wrap(l.c).Sign() == 0)
		}
		// x == const, with unit coefficient: canonical eq(atom, const)
		if len(l.atoms) == 1 {
			if l.coef[0].CmpAbs(big.NewInt(1)) == 0 {
				c := new(big.Int).Neg(l.c)
				if l.coef[0].Sign() < 0 {
					c.Neg(c)
				}
				c = k.wrap(c)
				return mk("eq", "", types.Typ[types.Bool], l.atoms[0], mkConst(constant.Make(c), typ))
			}
		}
		if l.coef[0].Sign() < 0 {
			z := &linform{k: k, c: new(big.Int)}
			l = z.addScaled(l, big.NewInt(-1))
		}
		return mk("eq", "", types.Typ[types.Bool], l.term(typ), mkConst(constant.MakeInt64(0), typ))
	}
	// constants and nil to the right
	if a.isConst() || a.isNil() || (!b.isConst() && !b.isNil() && a.id > b.id) {
		a, b = b, a
	}
	return mk("eq", "", types.Typ[types.Bool], a, b)
}

// bySeg: are some elements of the content known one by one?
func bySeg(c *T) bool {
	if c.op == "seq" {
		for _, s := range c.args {
			if bySeg(s) {
				return true
			}
		}
	}
	return c.op == "vec" || c.op == "zeros"
}

func isBoolT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// mkLt builds a < b for operands of the given type
func mkLt(a, b *T, typ types.Type) *T {
	if a == b && !isFloatType(typ) {
		return mkBool(false)
	}
	if a.isConst() && b.isConst() {
		return mkBool(constant.Compare(a.val, token.LSS, b.val))
	}
	if isIntType(typ) {
		k, _ := kindOf(typ)
		if k.signed {
			k64 := ikind{64, true}
			la, lb := toLin(a, k64), toLin(b, k64)
			if a.op == "lin" {
				la = &linform{k: k64, atoms: a.lin.atoms, coef: a.lin.coef, c: a.lin.c}
			}
			if b.op == "lin" {
				lb = &linform{k: k64, atoms: b.lin.atoms, coef: b.lin.coef, c: b.lin.c}
			}
			l := la.addScaled(lb, big.NewInt(-1))
			l.c.Add(l.c, big.NewInt(1))
			return mkLe0(l)
		}
		// unsigned
		if bv, ok := b.intVal(); ok && bv.Sign() == 0 {
			return mkBool(false)
		}
		if av, ok := a.intVal(); ok && av.Cmp(k.max()) == 0 {
			return mkBool(false)
		}
		la, lb := toLin(a, k), toLin(b, k)
		if simpleUnsigned(la) && simpleUnsigned(lb) {
			k64 := ikind{64, true}
			x := &linform{k: k64, atoms: la.atoms, coef: la.coef, c: la.c}
			y := &linform{k: k64, atoms: lb.atoms, coef: lb.coef, c: lb.c}
			l := x.addScaled(y, big.NewInt(-1))
			l.c.Add(l.c, big.NewInt(1))
			return mkLe0(l)
		}
		return mk("ult", k.String(), types.Typ[types.Bool], a, b)
	}
	return mk("lt", "", types.Typ[types.Bool], a, b)
}

// a single atom or constant: its value is its mathematical value
func simpleUnsigned(l *linform) bool {
	if len(l.atoms) == 0 {
		return true
	}
	return len(l.atoms) == 1 && l.c.Sign() == 0 && l.coef[0].Cmp(big.NewInt(1)) == 0
}

func mkIte(c, a, b *T) *T {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if (a.isTrue() || a.isFalse()) && isBoolish(b) || (b.isTrue() || b.isFalse()) && isBoolish(a) {
		switch {
		case a.isTrue():
			return mkOr(c, b)
		case a.isFalse():
			return mkAnd(mkNot(c), b)
		case b.isTrue():
			return mkOr(mkNot(c), a)
		}
		return mkAnd(c, a)
	}
	return mk("ite", "", a.typ, c, a, b)
}

func isBoolish(t *T) bool {
	return t.isTrue() || t.isFalse() || isBoolT(t.typ) || oneOf(t.op, []string{"andb", "orb", "not", "eq", "le0", "ult"})
}

func mkOr(cs ...*T) *T {
	var out []*T
	for _, c := range cs {
		if c.isTrue() {
			return c
		}
		if c.isFalse() {
			continue
		}
		if c.op == "orb" {
			out = append(out, c.args...)
			continue
		}
		out = append(out, c)
	}
	if len(out) == 0 {
		return mkBool(false)
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("orb", "", types.Typ[types.Bool], out...)
}

// ---- printing ----

func (t *T) String() string { return t.pp(12) }

func (t *T) pp(d int) string {
	if t == nil {
		return "<none>"
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	switch t.op {
	case "const":
		return t.val.ExactString()
	case "nil":
		return "nil"
	case "sym", "alloc", "global", "func":
		return t.aux
	case "lin":
		var p []string
		for i, a := range t.lin.atoms {
			s := a.pp(d - 1)
			if t.lin.coef[i].Cmp(big.NewInt(1)) != 0 {
				s = t.lin.coef[i].String() + "*" + s
			}
			p = append(p, s)
		}
		if t.lin.c.Sign() != 0 {
			p = append(p, t.lin.c.String())
		}
		return "(" + strings.Join(p, "+") + ")"
	case "faddr":
		return "&" + t.args[0].pp(d-1) + "." + fieldName(t.aux)
	case "iaddr":
		return "&" + t.args[0].pp(d-1) + "[" + t.args[1].pp(d-1) + "]"
	case "mem":
		s := t.args[0].pp(d - 1)
		if strings.HasPrefix(s, "&") {
			s = s[1:]
		} else {
			s = "*" + s
		}
		if t.aux != "0" && t.aux != "" {
			s += "'" + t.aux
		}
		return s
	}
	var p []string
	for _, a := range t.args {
		p = append(p, a.pp(d-1))
	}
	n := t.op
	if t.aux != "" {
		n += "{" + t.aux + "}"
	}
	return n + "(" + strings.Join(p, ", ") + ")"
}

func fieldName(aux string) string {
	if i := strings.LastIndexByte(aux, ':'); i >= 0 {
		return aux[i+1:]
	}
	return aux
}

// contains reports whether t has a subterm satisfying f
func (t *T) contains(f func(*T) bool) bool {
	seen := map[*T]bool{}
	var walk func(x *T) bool
	walk = func(x *T) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, a := range x.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

func (t *T) has(x *T) bool { return t.contains(func(y *T) bool { return x == y }) }

func pure(name string, typ types.Type, args ...*T) *T { return mk("fn", name, typ, args...) }
