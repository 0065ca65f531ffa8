package main

// Paths chosen by sample values: where a condition depends on unknown
// values, a sample decides it, and the decision is recorded. What is
// computed along the path stays a term over the unknown values and is
// compared at all samples that lead along the same path; the others choose
// paths of their own.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"reflect"
	"strings"
	"unicode"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type sampleRun struct {
	*hist
	env   *evalEnv
	taken []func() bool
	extra func(fr *frame, st *State, fn *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool)
	rats  map[*T][2]*T
	scans map[string]*scanText
	base  *State
	n     int
	paths int
	bad   bool
	what  string
	fn    *ssa.Function
}

type scanText struct {
	c   *T
	pos int
	n   int
}

// values of the unknown bytes and numbers
type sampleVals map[*T]*big.Int

func (c *Check) newSampleRun() *sampleRun {
	r := &sampleRun{env: newEnv(), rats: map[*T][2]*T{}, scans: map[string]*scanText{}}
	r.hist, r.base = c.newHist(func(x *Exec) { x.hook, x.judge, x.fits = r.intercept, r.judge, r.fits })
	r.types = map[string]types.Type{}
	return r
}

func (r *sampleRun) say(rule, f string, a ...interface{}) bool {
	if !r.bad {
		r.c.bad(rule, fnName(r.fn), r.fn.Pos(), "%s: %s", r.what, fmt.Sprintf(f, a...))
	}
	r.bad = true
	return false
}

func (r *sampleRun) set(v sampleVals) {
	r.env = newEnv()
	for t, n := range v {
		r.env.set(t, n)
	}
}

// cover: paths until every sample has been on one. run interprets and
// returns what compares the result under the sample then set.
func (r *sampleRun) cover(samples []sampleVals, run func() (func() error, bool)) bool {
	left := append([]sampleVals{}, samples...)
	for len(left) > 0 {
		r.set(left[0])
		r.taken = nil
		r.paths++
		check, ok := run()
		if !ok {
			return false
		}
		taken := r.taken
		var other []sampleVals
		for i, s := range left {
			r.set(s)
			same := true
			for _, f := range taken {
				if !f() {
					same = false
					break
				}
			}
			if i > 0 && !same {
				other = append(other, s)
				continue
			}
			r.n++
			if err := check(); err != nil {
				return r.say("value", "%s", err)
			}
		}
		left = other
	}
	return true
}

// ask evaluates what decides the path
func (r *sampleRun) ask(f func() (interface{}, bool)) (interface{}, bool) {
	v, ok := f()
	if ok {
		r.taken = append(r.taken, func() bool {
			w, ok := f()
			return ok && reflect.DeepEqual(v, w)
		})
	}
	return v, ok
}

func (r *sampleRun) judge(c *T) int {
	v, ok := r.ask(func() (interface{}, bool) {
		b, ok := r.env.tryBool(c)
		return b, ok
	})
	if !ok {
		return 0
	}
	if v.(bool) {
		return 1
	}
	return -1
}

func (r *sampleRun) fits(op token.Token, a, b *T, k ikind) bool {
	v, ok := r.ask(func() (interface{}, bool) {
		x, ok1 := r.env.tryInt(a)
		y, ok2 := r.env.tryInt(b)
		if !ok1 || !ok2 {
			return nil, false
		}
		m := new(big.Int)
		switch op {
		case token.ADD:
			m.Add(x, y)
		case token.SUB:
			m.Sub(x, y)
		default:
			m.Mul(x, y)
		}
		return k.wrap(m).Cmp(m) == 0, true
	})
	return !ok || v.(bool)
}

func (r *sampleRun) text(t *T) (string, bool) {
	b, ok := r.env.tryBytes(t)
	return string(b), ok
}

func (r *sampleRun) length(c *T) (int64, bool) {
	if n, ok := cLen(c).i64(); ok {
		return n, true
	}
	v, ok := r.ask(func() (interface{}, bool) {
		v, ok := r.env.tryInt(cLen(c))
		if !ok {
			return nil, false
		}
		return v.Int64(), true
	})
	if !ok {
		return 0, false
	}
	return v.(int64), true
}

// spread is a content as the list of its bytes
func (r *sampleRun) spread(c *T) (*T, bool) {
	n, ok := r.length(c)
	if !ok {
		return nil, false
	}
	var e []*T
	for i := int64(0); i < n; i++ {
		e = append(e, cSel(c, mkInt(i), byteT))
	}
	return cVec(e...), true
}

func (r *sampleRun) intercept(fr *frame, st *State, fn *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
	if r.extra != nil {
		if outs, ok := r.extra(fr, st, fn, nm, args, sig, pos); ok {
			return outs, true
		}
	}
	x := r.x
	if outs, ok := r.stringFunc(st, fn, nm, args); ok {
		return outs, true
	}
	switch nm {
	case "(*math/big.Int).String", "(*math/big.Int).Text", "(*math/big.Int).Append":
		v, base := x.bigVal(st, args[0]), mkInt(10)
		if nm == "(*math/big.Int).Text" {
			base = args[1]
		}
		if nm == "(*math/big.Int).Append" {
			base = args[2]
		}
		if args[0].isNil() {
			return nil, false
		}
		c, ok := r.spread(fmtIntB(v, base))
		if !ok {
			return nil, false
		}
		if nm == "(*math/big.Int).Append" {
			st = st.clone()
			return one(st, x.appendIn(st, args[1], c, args[1].typ)), true
		}
		return one(st, mkString(c)), true
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
		base := mkInt(10)
		if len(args) > 1 {
			base = args[1]
		}
		c, ok := r.spread(fmtIntB(bigOfInt(args[0]), base))
		if !ok {
			return nil, false
		}
		return one(st, mkString(c)), true
	case "(*math/big.Int).Div", "(*math/big.Int).Quo", "(*math/big.Int).Mod", "(*math/big.Int).Rem", "(*math/big.Int).DivMod", "(*math/big.Int).QuoRem":
		d := x.bigVal(st, args[2])
		if r.judge(mkEq(bigSign(d), mkInt(0), intT)) == 1 {
			x.fail("division by zero panics")
			return nil, true
		}
		return nil, false
	case "(*math/big.Rat).SetFloat64", "(*math/big.Rat).SetFrac", "(*math/big.Rat).SetInt", "(*math/big.Rat).SetInt64", "(*math/big.Rat).Mul", "(*math/big.Rat).Quo", "(*math/big.Rat).Inv", "(*math/big.Rat).Set", "(*math/big.Rat).SetFrac64", "math/big.NewRat":
		return r.ratOp(st, nm, args, sig)
	case "(*math/big.Rat).Num", "(*math/big.Rat).Denom":
		q, ok := r.rats[args[0]]
		if !ok {
			return nil, false
		}
		st = st.clone()
		i := 0
		if strings.HasSuffix(nm, "Denom") {
			i = 1
		}
		return one(st, x.newBig(st, q[i])), true
	case "(*math/big.Rat).Float64":
		q, ok := r.rats[args[0]]
		if !ok {
			return nil, false
		}
		return one(st, mk("fn", "ratfloat", types.Typ[types.Float64], q[0], q[1]), mk("sym", "exact", boolT())), true
	case "fmt.Sscanln", "fmt.Sscan":
		return r.scan(fr, st, nm, args)
	case "(fmt.ScanState).Token":
		return r.token(st, args)
	case "(fmt.ScanState).SkipSpace":
		if s := r.scans[args[0].aux]; s != nil {
			return one(st), r.skipSpace(s)
		}
	}
	return nil, false
}

// stringFunc evaluates functions of the strings package: parts of a text
// stay parts of it
func (r *sampleRun) stringFunc(st *State, fn *ssa.Function, nm string, args []*T) ([]outcome, bool) {
	x := r.x
	bytesFn := strings.HasPrefix(nm, "bytes.")
	f, ok := folds["strings."+strings.TrimPrefix(strings.TrimPrefix(nm, "bytes."), "strings.")]
	if !ok || fn == nil || !bytesFn && !strings.HasPrefix(nm, "strings.") {
		return nil, false
	}
	if bytesFn && (strings.HasSuffix(nm, "Split") || strings.HasSuffix(nm, "SplitN") || strings.HasSuffix(nm, "Fields")) {
		return nil, false
	}
	content := make([]*T, len(args))
	ps := fn.Signature.Params()
	known := true
	for i, a := range args {
		switch u := ps.At(i).Type().Underlying().(type) {
		case *types.Slice:
			content[i] = x.content(st, a)
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				content[i] = strContent(a)
			}
		}
		if content[i] != nil {
			_, k := constBytes(content[i])
			known = known && k
		} else {
			known = known && a.isConst()
		}
	}
	if known && !bytesFn {
		return nil, false
	}
	// a result is a number, or a part of the first argument
	type part struct {
		Off, Len int
		Lit      string
	}
	v, ok := r.ask(func() (interface{}, bool) {
		var vs []constant.Value
		var first string
		for i, a := range args {
			if content[i] != nil {
				s, ok := r.text(content[i])
				if !ok {
					return nil, false
				}
				if i == 0 {
					first = s
				}
				vs = append(vs, constant.MakeString(s))
				continue
			}
			n, ok := r.env.tryInt(a)
			if !ok {
				return nil, false
			}
			vs = append(vs, constant.Make(n))
		}
		partOf := func(s string) part {
			if s == "" {
				return part{}
			}
			d := int(uintptr(unsafe.Pointer(unsafe.StringData(s))) - uintptr(unsafe.Pointer(unsafe.StringData(first))))
			if d >= 0 && d+len(s) <= len(first) && len(first) > 0 {
				return part{Off: d, Len: len(s)}
			}
			if i := strings.Index(first, s); i >= 0 && len(s) == len(first) {
				return part{Off: i, Len: len(s)}
			}
			return part{Lit: s}
		}
		var out []interface{}
		for _, v := range f(vs) {
			switch v := v.(type) {
			case string:
				out = append(out, partOf(v))
			case []string:
				var l []part
				for _, s := range v {
					l = append(l, partOf(s))
				}
				out = append(out, l)
			default:
				out = append(out, v)
			}
		}
		return out, true
	})
	if !ok {
		return nil, false
	}
	st = st.clone()
	str := func(p part) *T {
		if p.Lit != "" {
			if bytesFn {
				return x.newBytes(st, cLit(p.Lit), types.NewSlice(byteT))
			}
			return constStr(p.Lit)
		}
		if bytesFn {
			q := x.parts(args[0])
			return mkSlice(q.base, mkAdd(q.off, mkInt(int64(p.Off)), intT), mkInt(int64(p.Len)), minus(q.cap, mkInt(int64(p.Off))), args[0].typ)
		}
		return mkString(cSub(content[0], mkInt(int64(p.Off)), mkInt(int64(p.Len))))
	}
	var out []*T
	for _, v := range v.([]interface{}) {
		switch v := v.(type) {
		case part:
			out = append(out, str(v))
		case []part:
			var el []*T
			for _, p := range v {
				el = append(el, str(p))
			}
			out = append(out, x.newBytes(st, cVec(el...), types.NewSlice(strT())))
		case bool:
			out = append(out, mkBool(v))
		case int:
			out = append(out, mkInt(int64(v)))
		default:
			return nil, false
		}
	}
	return one(st, out...), true
}

func (r *sampleRun) ratOp(st *State, nm string, args []*T, sig *types.Signature) ([]outcome, bool) {
	x := r.x
	st = st.clone()
	set := func(num, den *T) ([]outcome, bool) {
		r.rats[args[0]] = [2]*T{num, den}
		return one(st, args[0]), true
	}
	one1 := bigConst(bi(1))
	op := nm[strings.LastIndex(nm, ".")+1:]
	if nm == "math/big.NewRat" {
		p := x.newAlloc("rat", deref(sig.Results().At(0).Type()))
		r.rats[p] = [2]*T{bigOfInt(args[0]), bigOfInt(args[1])}
		return one(st, p), true
	}
	switch op {
	case "SetFloat64":
		f := args[1]
		if f.op == "sym" {
			return set(bigSym(f.aux+".num"), bigSym(f.aux+".den"))
		}
		if f.isConst() && f.val != nil {
			q, _ := constant.Float64Val(f.val)
			v := new(big.Rat)
			v.SetFloat64(q)
			return set(bigConst(v.Num()), bigConst(v.Denom()))
		}
	case "SetFrac":
		return set(x.bigVal(st, args[1]), x.bigVal(st, args[2]))
	case "SetFrac64":
		return set(bigOfInt(args[1]), bigOfInt(args[2]))
	case "SetInt":
		return set(x.bigVal(st, args[1]), one1)
	case "SetInt64":
		return set(bigOfInt(args[1]), one1)
	case "Set", "Inv", "Mul", "Quo":
		a, ok := r.rats[args[1]]
		if !ok {
			return nil, false
		}
		switch op {
		case "Set":
			return set(a[0], a[1])
		case "Inv":
			return set(a[1], a[0])
		}
		b, ok := r.rats[args[2]]
		if !ok {
			return nil, false
		}
		if op == "Quo" {
			b[0], b[1] = b[1], b[0]
		}
		return set(bigFn("mul", a[0], b[0]), bigFn("mul", a[1], b[1]))
	}
	return nil, false
}

// ---- fmt.Sscanln ----

func (r *sampleRun) at(s *scanText) (rune, int, bool) {
	if s.pos >= s.n {
		return 0, 0, false
	}
	v, ok := r.ask(func() (interface{}, bool) {
		t, ok := r.text(s.c)
		if !ok {
			return nil, false
		}
		c, w := utf8.DecodeRuneInString(t[s.pos:])
		if c >= '0' && c <= '9' {
			c = '0' // any digit
		}
		return [2]int{int(c), w}, true
	})
	if !ok {
		r.x.fail("a scanned text is unknown")
		return 0, 0, false
	}
	p := v.([2]int)
	return rune(p[0]), p[1], true
}

func (r *sampleRun) skipSpace(s *scanText) bool {
	for {
		c, w, ok := r.at(s)
		if !ok || c == '\n' || !unicode.IsSpace(c) {
			return c != '\n'
		}
		s.pos += w
	}
}

func (r *sampleRun) token(st *State, args []*T) ([]outcome, bool) {
	x := r.x
	s := r.scans[args[0].aux]
	if s == nil {
		return nil, false
	}
	st = st.clone()
	bs := types.NewSlice(byteT)
	if args[1].isTrue() && !r.skipSpace(s) {
		return one(st, mkNil(), x.err("unexpected newline")), true
	}
	from := s.pos
	for {
		c, w, ok := r.at(s)
		if !ok {
			break
		}
		if f := args[2]; f.isNil() {
			if unicode.IsSpace(c) {
				break
			}
		} else {
			g, ok := f.obj.(*ssa.Function)
			if !ok {
				return nil, false
			}
			arg := mkConst(constant.MakeInt64(int64(c)), types.Typ[types.Rune])
			if w == 1 {
				arg = intConv(cSel(s.c, mkInt(int64(s.pos)), byteT), byteT, types.Typ[types.Rune])
			}
			outs := x.runFunc(g, []*T{arg}, f.args, st)
			if len(outs) != 1 || outs[0].panic {
				x.fail("what a token may have is unknown")
				return nil, true
			}
			yes := outs[0].rets[0]
			if !yes.isTrue() && !yes.isFalse() {
				if r.judge(yes) == 1 {
					yes = mkBool(true)
				}
			}
			if !yes.isTrue() {
				break
			}
		}
		s.pos += w
	}
	return one(st, x.newBytes(st, cSub(s.c, mkInt(int64(from)), mkInt(int64(s.pos-from))), bs), mkNil()), true
}

// scan: one value that can scan itself
func (r *sampleRun) scan(fr *frame, st *State, nm string, args []*T) ([]outcome, bool) {
	x := r.x
	n, ok := x.sliceLen(args[1]).i64()
	if !ok || n != 1 {
		return nil, false
	}
	v := cSel(x.content(st, args[1]), mkInt(0), nil)
	if v.op != "iface" {
		return nil, false
	}
	m := x.w.prog.LookupMethod(v.obj.(types.Type), nil, "Scan")
	if m == nil {
		return nil, false
	}
	c := strContent(args[0])
	l, ok := r.length(c)
	if !ok {
		return nil, false
	}
	key := fmt.Sprint("scan", len(r.scans))
	s := &scanText{c: c, n: int(l)}
	r.scans[key] = s
	outs := x.runFunc(m, []*T{v.args[0], mk("sym", key, m.Signature.Params().At(0).Type()), mkConst(constant.MakeInt64('v'), types.Typ[types.Rune])}, nil, st)
	if len(outs) != 1 || outs[0].panic {
		return outs, true
	}
	st = outs[0].st
	if !outs[0].rets[0].isNil() {
		return one(st, mkInt(0), outs[0].rets[0]), true
	}
	if nm == "fmt.Sscanln" {
		for {
			c, w, ok := r.at(s)
			if !ok || c == '\n' {
				break
			}
			if !unicode.IsSpace(c) {
				return one(st, mkInt(1), x.err("expected newline")), true
			}
			s.pos += w
		}
	}
	return one(st, mkInt(1), mkNil()), true
}

// ---- helpers ----

// shape is a text with unknown digits where it has a #
func (r *sampleRun) shape(name, s string) (*T, []*T) {
	var e, syms []*T
	for _, b := range []byte(s) {
		if b == '#' {
			d := mk("sym", fmt.Sprintf("dig:%s:%d", name, len(syms)), byteT)
			syms = append(syms, d)
			e = append(e, d)
			continue
		}
		e = append(e, mkConst(constant.MakeInt64(int64(b)), byteT))
	}
	return cVec(e...), syms
}

// fill is a text with its digits
func fill(s, digits string) string {
	b := []byte(s)
	i := 0
	for k, c := range b {
		if c == '#' {
			b[k] = digits[i]
			i++
		}
	}
	return string(b)
}

func digitSample(v sampleVals, syms []*T, digits string) sampleVals {
	if v == nil {
		v = sampleVals{}
	}
	for i, s := range syms {
		v[s] = bi(int64(digits[i]))
	}
	return v
}

func (r *sampleRun) call(st *State, fn *ssa.Function, args ...*T) (*State, []*T, bool) {
	r.fn = fn
	s2, rets, ok := r.do(st.clone(), fn, args...)
	if !ok {
		if strings.Contains(r.hist.fail, "panics") {
			return nil, nil, r.say("panic", "%s", r.hist.fail)
		}
		return nil, nil, r.say("analysis", "%s", r.hist.fail)
	}
	return s2, rets, true
}

// panics: a call that must
func (r *sampleRun) panics(st *State, fn *ssa.Function, args ...*T) bool {
	r.fn = fn
	outs := r.hist.call(st.clone(), fn, args...)
	if r.hist.fail != "" {
		f := r.hist.fail
		r.hist.fail = ""
		if strings.Contains(f, "panics") || strings.Contains(f, "nil pointer is followed") {
			return true
		}
		return r.say("analysis", "%s", f)
	}
	for _, o := range outs {
		if !o.panic {
			return r.say("panic", "it returns")
		}
	}
	return true
}

// initPackage runs the initialisers of a package
func (r *sampleRun) initPackage(st *State, rel string) (*State, bool) {
	p := r.c.w.pkgs[rel]
	if p == nil || p.Func("init") == nil {
		r.c.bad("analysis", rel, token.NoPos, "the package has no initialiser")
		return nil, false
	}
	st = st.clone()
	x := r.x
	x.inInit = true
	defer func() { x.inInit = false }()
	st.mem = st.mem.set(x.w.global(p.Var("init$guard")), mkBool(false))
	max := x.maxSteps
	x.maxSteps = 1000000
	outs := x.runFunc(p.Func("init"), nil, nil, st)
	x.maxSteps = max
	if x.failed != "" || len(outs) != 1 || outs[0].panic {
		r.c.bad("analysis", rel, p.Func("init").Pos(), "initialising the package: %d outcomes %s", len(outs), x.failed)
		return nil, false
	}
	s := outs[0].st
	s.facts, s.ev = nil, nil
	return s, true
}
