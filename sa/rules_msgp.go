package main

// C18: what is stored in the binary form is read back as it was.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C18"] = &CheckDef{
		title:     "Values stored in binary form are read back exactly as they were",
		technique: "static abstract interpretation over SSA of the encoders and decoders against a model of the message stream; every value is unknown, what is read back is compared with it term by term",
		explanation: "For every type with an encoder, values with unknown contents and every pattern of absent pointers and of slice lengths are encoded in both ways and decoded in both ways, into new values and into ones that hold something else. The stream is a list of tokens over the unknown contents. " +
			"What comes back must be the same in every exported field, both streams must be the same, streams cut at any token and writers that fail at any token must give an error, and unknown fields must be skipped.",
		assumptions: []string{"the msgp package writes and reads the tokens it is asked to as its documentation says", "slices longer than three elements behave like those with up to three"},
		min:         2000,
		run:         runMsgp,
	}
}

// a token of a stream: a byte, or a value of a kind
type mtok struct {
	kind string
	val  *T
}

type msgRun struct {
	*sampleRun
	rng     *rand.Rand
	written []mtok
	in      []mtok
	failAt  int
	nwrites int
	vals    sampleVals
	syms    int
}

func runMsgp(c *Check) {
	r := &msgRun{sampleRun: c.newSampleRun(), rng: rand.New(rand.NewSource(1)), failAt: -1, vals: sampleVals{}}
	r.extra = r.hook
	r.x.maxSteps = 3000000
	var names []string
	scope := c.w.pkgs[""].Pkg.Scope()
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		have := 0
		for _, m := range []string{"EncodeMsg", "DecodeMsg", "MarshalMsg", "UnmarshalMsg"} {
			if r.method(tn.Type(), m) != nil {
				have++
			}
		}
		if have == 4 {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range []string{"Address", "Block", "CompiledBundle", "CompiledContract", "Data", "Hash", "Int", "Log", "Receipt", "Transaction", "Uint64"} {
		if !containsStr(names, n) {
			c.bad("msgp", n, token.NoPos, "the type %s has no encoder and decoder", n)
			return
		}
	}
	for _, n := range names {
		if !r.typeCheck(n, scope.Lookup(n).Type()) {
			break
		}
	}
	c.obl += r.n
	c.done += r.n
}

func (r *msgRun) method(t types.Type, m string) *ssa.Function {
	s := types.NewMethodSet(types.NewPointer(t)).Lookup(nil, m)
	if s == nil || len(s.Index()) > 1 { // of an embedded value
		return nil
	}
	f := r.c.w.prog.MethodValue(s)
	if f == nil || len(f.Blocks) == 0 {
		return nil
	}
	return f
}

// sym is a new unknown value with a sample
func (r *msgRun) sym(name string, t types.Type) *T {
	r.syms++
	s := mk("sym", fmt.Sprintf("%s.%d", name, r.syms), t)
	b := t.Underlying().(*types.Basic)
	v := new(big.Int).SetUint64(r.rng.Uint64())
	switch {
	case b.Info()&types.IsBoolean != 0:
		v = bi(int64(r.rng.Intn(2)))
	default:
		if k, ok := kindOf(t); ok {
			v = k.wrap(v)
		}
	}
	r.vals[s] = v
	return s
}

func (r *msgRun) bytesSyms(name string, n int) *T {
	r.syms++
	c := symsOf(fmt.Sprintf("%s.%d", name, r.syms), n)
	b := make([]byte, n)
	r.rng.Read(b)
	if n > 0 && r.rng.Intn(3) == 0 {
		b[0] = 0
	}
	r.vals.bytes(c, b)
	return c
}

// shape decides how many elements and which pointers there are
type mshape struct {
	mode, k int
}

func (s *mshape) next(n int) int {
	s.k++
	switch s.mode {
	case 0:
		return 0
	case 1, 2:
		return s.mode % n
	}
	return (s.k*s.mode + s.k/3 + s.mode/4) % n
}

func (r *msgRun) build(st *State, name string, t types.Type, sh *mshape, depth int) *T {
	x := r.x
	if isBig(t) {
		r.syms++
		v := bigSym(fmt.Sprintf("%s.%d", name, r.syms))
		b := make([]byte, []int{0, 1, 8, 32, 33}[sh.next(5)])
		r.rng.Read(b)
		r.vals[v] = new(big.Int).SetBytes(b)
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return mkString(r.bytesSyms(name, sh.next(4)))
		}
		return r.sym(name, t)
	case *types.Array:
		if types.Identical(u.Elem().Underlying(), byteT) {
			return r.bytesSyms(name, int(u.Len()))
		}
		var el []*T
		for i := int64(0); i < u.Len(); i++ {
			el = append(el, r.build(st, name, u.Elem(), sh, depth+1))
		}
		return cVec(el...)
	case *types.Slice:
		n := sh.next(4)
		if depth > 3 {
			n %= 2
		}
		if depth > 8 {
			n = 0
		}
		if types.Identical(u.Elem().Underlying(), byteT) {
			if n == 0 && sh.mode != 3 {
				return mkNil()
			}
			return x.newBytes(st, r.bytesSyms(name, n*n), t)
		}
		if n == 0 && sh.mode != 3 {
			return mkNil()
		}
		var el []*T
		for i := 0; i < n; i++ {
			el = append(el, r.build(st, fmt.Sprintf("%s[%d]", name, i), u.Elem(), sh, depth+1))
		}
		return x.newBytes(st, cVec(el...), t)
	case *types.Pointer:
		if sh.next(3) == 0 {
			return mkNil()
		}
		p := x.newAlloc(name, u.Elem())
		x.store(st, p, r.build(st, name, u.Elem(), sh, depth), u.Elem())
		return p
	case *types.Struct:
		var fs []*T
		for i := 0; i < u.NumFields(); i++ {
			if !u.Field(i).Exported() {
				fs = append(fs, zeroOf(u.Field(i).Type()))
				continue
			}
			fs = append(fs, r.build(st, name+"."+u.Field(i).Name(), u.Field(i).Type(), sh, depth+1))
		}
		return mk("struct", typeKey(t), t, fs...)
	}
	return zeroOf(t)
}

// same compares what was written with what is read
func (r *msgRun) same(st *State, a, b *T, t types.Type, path string) error {
	x := r.x
	if a == b {
		return nil
	}
	num := func(p, q *T) error {
		v, ok := r.env.tryInt(p)
		w, ok2 := r.env.tryInt(q)
		if !ok || !ok2 || v.Cmp(w) != 0 {
			return fmt.Errorf("%s is read back as %s", path, clip(q.String(), 80))
		}
		return nil
	}
	cont := func(p, q *T) error {
		v, ok := r.text(p)
		w, ok2 := r.text(q)
		if !ok || !ok2 || v != w {
			return fmt.Errorf("%s is read back as %s", path, clip(q.String(), 80))
		}
		return nil
	}
	if isBig(t) {
		return num(a, b)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return cont(strContent(a), strContent(b))
		case u.Info()&types.IsBoolean != 0:
			v, ok := r.env.tryBool(a)
			w, ok2 := r.env.tryBool(b)
			if !ok || !ok2 || v != w {
				return fmt.Errorf("%s is read back as %s", path, clip(b.String(), 80))
			}
			return nil
		}
		return num(a, b)
	case *types.Array:
		if types.Identical(u.Elem().Underlying(), byteT) {
			return cont(a, b)
		}
		for i := int64(0); i < u.Len(); i++ {
			if err := r.same(st, cSel(a, mkInt(i), u.Elem()), cSel(b, mkInt(i), u.Elem()), u.Elem(), fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
		return nil
	case *types.Slice:
		p, q := cVec(), cVec()
		if !a.isNil() {
			p = x.content(st, a)
		}
		if !b.isNil() {
			q = x.content(st, b)
		}
		if types.Identical(u.Elem().Underlying(), byteT) {
			return cont(p, q)
		}
		n, ok := cLen(p).i64()
		m, ok2 := cLen(q).i64()
		if !ok || !ok2 || n != m {
			return fmt.Errorf("%s has %s elements and is read back with %s", path, cLen(p), cLen(q))
		}
		for i := int64(0); i < n; i++ {
			if err := r.same(st, cSel(p, mkInt(i), u.Elem()), cSel(q, mkInt(i), u.Elem()), u.Elem(), fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
		return nil
	case *types.Pointer:
		if a.isNil() != b.isNil() {
			return fmt.Errorf("%s is absent on one side only", path)
		}
		return r.same(st, x.load(st, a, u.Elem()), x.load(st, b, u.Elem()), u.Elem(), path)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !u.Field(i).Exported() {
				continue
			}
			if err := r.same(st, structField(a, t, i), structField(b, t, i), u.Field(i).Type(), path+"."+u.Field(i).Name()); err != nil {
				return err
			}
		}
		return nil
	}
	return fmt.Errorf("%s cannot be compared", path)
}

// normal: headers and other constants as the bytes that stand for them
func (r *msgRun) normal(ts []mtok) []mtok {
	var out []mtok
	raw := func(b ...byte) {
		for _, c := range b {
			out = append(out, mtok{"b", mkInt(int64(c))})
		}
	}
	for _, t := range ts {
		n, known := int64(0), false
		switch t.kind {
		case "map", "array":
			n, known = t.val.i64()
		}
		lit, isLit := []byte(nil), false
		if t.kind == "str" {
			lit, isLit = constBytes(t.val)
		}
		base, wide := byte(0x90), byte(0xdc)
		if t.kind == "map" {
			base, wide = 0x80, 0xde
		}
		switch {
		case known && n < 16:
			raw(base | byte(n))
		case known && n < 1<<16:
			raw(wide, byte(n>>8), byte(n))
		case t.kind == "nil":
			raw(0xc0)
		case isLit && len(lit) < 32:
			raw(append([]byte{0xa0 | byte(len(lit))}, lit...)...)
		default:
			out = append(out, t)
		}
	}
	return out
}

func (r *msgRun) sameStream(a, b []mtok) error {
	a, b = r.normal(a), r.normal(b)
	if len(a) != len(b) {
		return fmt.Errorf("the two encodings have %d and %d tokens", len(a), len(b))
	}
	for i := range a {
		if a[i].kind != b[i].kind {
			return fmt.Errorf("token %d is %s in one encoding and %s in the other", i, a[i].kind, b[i].kind)
		}
		if a[i].val == b[i].val {
			continue
		}
		if a[i].kind == "str" || a[i].kind == "bin" {
			v, ok := r.text(a[i].val)
			w, ok2 := r.text(b[i].val)
			if ok && ok2 && v == w {
				continue
			}
		} else {
			v, ok := r.env.tryInt(a[i].val)
			w, ok2 := r.env.tryInt(b[i].val)
			if ok && ok2 && v.Cmp(w) == 0 {
				continue
			}
		}
		return fmt.Errorf("token %d is %s in one encoding and %s in the other", i, clip(a[i].val.String(), 50), clip(b[i].val.String(), 50))
	}
	return nil
}

func (r *msgRun) writer(st *State) *T { return mk("sym", "msgp writer", nil) }
func (r *msgRun) reader(st *State) *T { return mk("sym", "msgp reader", nil) }

// content of a stream, and back: a token counts as one element
func (r *msgRun) stream(ts []mtok) *T {
	var el []*T
	for _, t := range ts {
		if t.kind == "b" {
			el = append(el, t.val)
		} else {
			el = append(el, mk("fn", "mp:"+t.kind, nil, t.val))
		}
	}
	return cVec(el...)
}

func (r *msgRun) tokens(c *T) ([]mtok, bool) {
	n, ok := cLen(c).i64()
	if !ok {
		return nil, false
	}
	var out []mtok
	for i := int64(0); i < n; i++ {
		e := cSel(c, mkInt(i), byteT)
		if e.op == "fn" && strings.HasPrefix(e.aux, "mp:") {
			out = append(out, mtok{e.aux[3:], e.args[0]})
		} else {
			out = append(out, mtok{"b", e})
		}
	}
	return out, true
}

// one runs a method and says whether it returned an error
func (r *msgRun) one(st *State, t types.Type, m string, args ...*T) (*State, []*T, bool, bool) {
	f := r.method(t, m)
	s2, rets, ok := r.call(st, f, args...)
	if !ok {
		return nil, nil, false, false
	}
	e := rets[len(rets)-1]
	if e.isNil() {
		return s2, rets, false, true
	}
	if e.op == "err" || s2.facts.has(mkNot(mkEq(e, mkNil(), errorT))) {
		return s2, rets, true, true
	}
	return nil, nil, false, r.say("analysis", "it is unknown whether it fails")
}

func (r *msgRun) typeCheck(name string, t types.Type) bool {
	x := r.x
	kinds := 12
	if s := structOf(t); s != nil && !isBig(t) {
		exported := false
		for i := 0; i < s.NumFields(); i++ {
			exported = exported || s.Field(i).Exported()
		}
		if !exported {
			return true
		}
	}
	for mode := 0; mode < kinds; mode++ {
		st := r.base.clone()
		r.vals = sampleVals{}
		sh := &mshape{mode: mode}
		v := r.build(st, name, t, sh, 0)
		p := x.newAlloc(name, t)
		x.store(st, p, v, t)
		used := func(st *State, m int) *T {
			q := x.newAlloc("used", t)
			x.store(st, q, r.build(st, "old"+name, t, &mshape{mode: m}, 0), t)
			return q
		}
		targets := []*T{x.newAlloc("new", t), used(st, 2), used(st, 1), used(st, mode)}
		if mode == 0 {
			targets = append(targets, used(st, 5))
		}
		r.set(r.vals)
		r.what = fmt.Sprintf("a %s, pattern %d", name, mode)

		if os.Getenv("SA_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, time.Now().Format("04:05.000"), r.what, r.n)
		}
		r.written, r.failAt, r.nwrites = nil, -1, 0
		st1, _, failed, ok := r.one(st, t, "EncodeMsg", p, r.writer(st))
		if !ok {
			return false
		}
		if failed {
			return r.say("value", "encoding fails")
		}
		enc := r.written
		writes := r.nwrites
		// what follows an earlier value, and precedes a later one
		pre := x.newBytes(st1, cLit("pq"), types.NewSlice(byteT))
		st2, rets, failed, ok := r.one(st1, t, "MarshalMsg", p, pre)
		if !ok {
			return false
		}
		if failed {
			return r.say("value", "encoding fails")
		}
		mar, ok := r.tokens(x.content(st2, rets[0]))
		if !ok {
			return r.say("analysis", "the encoding is %s", clip(x.content(st2, rets[0]).String(), 80))
		}
		if len(mar) < 2 || !isByte(mar[0], 'p') || !isByte(mar[1], 'q') {
			return r.say("value", "what was in the buffer before is lost")
		}
		mar = mar[2:]
		if err := r.sameStream(enc, mar); err != nil {
			return r.say("value", "%s", err)
		}
		r.n += 2
		st = st2
		orig := x.load(st, p, t)
		tail := []mtok{{"b", mkInt('y')}, {"b", mkInt('z')}}
		for i, q := range targets {
			for _, src := range [][]mtok{enc, mar} {
				r.in = append(append([]mtok{}, src...), tail...)
				s3, _, failed, ok := r.one(st, t, "DecodeMsg", q, r.reader(st))
				if !ok {
					return false
				}
				if failed {
					return r.say("value", "what was encoded cannot be decoded")
				}
				if len(r.in) != 2 {
					return r.say("value", "decoding takes %d tokens too few", len(r.in)-2)
				}
				if err := r.same(s3, orig, x.load(s3, q, t), t, name); err != nil {
					return r.say("value", "decoded into target %d: %s", i, err)
				}
				buf := x.newBytes(st, r.stream(append(append([]mtok{}, src...), tail...)), types.NewSlice(byteT))
				s4, rets, failed, ok := r.one(st, t, "UnmarshalMsg", q, buf)
				if !ok {
					return false
				}
				if failed {
					return r.say("value", "what was marshalled cannot be unmarshalled")
				}
				if rest, ok := constBytes(x.content(s4, rets[0])); !ok || string(rest) != "yz" {
					return r.say("value", "what follows the value in the buffer is lost")
				}
				if err := r.same(s4, orig, x.load(s4, q, t), t, name); err != nil {
					return r.say("value", "unmarshalled into target %d: %s", i, err)
				}
				r.n += 2
			}
		}
		if mode%4 != 2 {
			continue
		}
		q := targets[1]
		// cut streams
		whole := r.normal(enc)
		step := func(n int) int { return n/120 + 1 }
		for i := 0; i < len(whole); i += step(len(whole)) {
			r.what = fmt.Sprintf("a %s, pattern %d, cut after %d tokens", name, mode, i)
			r.in = append([]mtok{}, whole[:i]...)
			_, _, failed, ok := r.one(st, t, "DecodeMsg", q, r.reader(st))
			if !ok {
				return false
			}
			if !failed {
				return r.say("value", "it is decoded without an error")
			}
			_, _, failed, ok = r.one(st, t, "UnmarshalMsg", q, x.newBytes(st, r.stream(whole[:i]), types.NewSlice(byteT)))
			if !ok {
				return false
			}
			if !failed {
				return r.say("value", "it is unmarshalled without an error")
			}
			r.n += 2
		}
		// writers that fail
		for i := 0; i < writes; i += step(writes) {
			r.what = fmt.Sprintf("a %s, pattern %d, a writer that fails after %d writes", name, mode, i)
			r.written, r.failAt, r.nwrites = nil, i, 0
			_, _, failed, ok := r.one(st, t, "EncodeMsg", p, r.writer(st))
			r.failAt = -1
			if !ok {
				return false
			}
			if !failed {
				return r.say("value", "it is encoded without an error")
			}
			r.n++
		}
		// a field that is not known
		in := append([]mtok{}, whole...)
		if n, ok := r.head(&in, "map"); ok {
			extra := r.normal([]mtok{{"map", mkInt(n + 1)}, {"str", cLit("~new~")}, {"array", mkInt(2)}, {"str", cLit("x")}, {"map", mkInt(1)}, {"str", cLit("y")}, {"nil", mkNil()}})
			more := append(extra, in...)
			r.what = fmt.Sprintf("a %s, pattern %d, with a field that is not known", name, mode)
			r.in = append([]mtok{}, more...)
			s3, _, failed, ok := r.one(st, t, "DecodeMsg", q, r.reader(st))
			if !ok {
				return false
			}
			if failed || len(r.in) > 0 {
				return r.say("value", "it cannot be decoded")
			}
			if err := r.same(s3, orig, x.load(s3, q, t), t, name); err != nil {
				return r.say("value", "%s", err)
			}
			s4, _, failed, ok := r.one(st, t, "UnmarshalMsg", q, x.newBytes(st, r.stream(more), types.NewSlice(byteT)))
			if !ok {
				return false
			}
			if failed {
				return r.say("value", "it cannot be unmarshalled")
			}
			if err := r.same(s4, orig, x.load(s4, q, t), t, name); err != nil {
				return r.say("value", "%s", err)
			}
			r.n += 2
		}
	}
	return true
}

func isByte(t mtok, c byte) bool {
	v, ok := t.val.i64()
	return t.kind == "b" && ok && v == int64(c)
}

// take removes n raw bytes from a stream
func take(ts *[]mtok, n int) ([]byte, bool) {
	if len(*ts) < n {
		return nil, false
	}
	b := make([]byte, n)
	for i := range b {
		v, ok := (*ts)[i].val.i64()
		if (*ts)[i].kind != "b" || !ok {
			return nil, false
		}
		b[i] = byte(v)
	}
	*ts = (*ts)[n:]
	return b, true
}

// head reads a header
func (r *msgRun) head(ts *[]mtok, kind string) (int64, bool) {
	if len(*ts) == 0 {
		return 0, false
	}
	old := *ts
	if t := old[0]; t.kind == kind {
		n, ok := t.val.i64()
		*ts = old[1:]
		return n, ok
	}
	b, ok := take(ts, 1)
	if !ok {
		return 0, false
	}
	wide := func(n int) (int64, bool) {
		w, ok := take(ts, n)
		if !ok {
			*ts = old
			return 0, false
		}
		return new(big.Int).SetBytes(w).Int64(), true
	}
	c := b[0]
	switch {
	case kind == "map" && c&0xf0 == 0x80, kind == "array" && c&0xf0 == 0x90:
		return int64(c & 15), true
	case kind == "str" && c&0xe0 == 0xa0:
		return int64(c & 31), true
	case kind == "nil" && c == 0xc0:
		return 0, true
	case kind == "bool" && (c == 0xc2 || c == 0xc3):
		return int64(c & 1), true
	case kind == "map" && c == 0xde, kind == "array" && c == 0xdc, kind == "str" && c == 0xda, kind == "bin" && c == 0xc5:
		return wide(2)
	case kind == "map" && c == 0xdf, kind == "array" && c == 0xdd, kind == "str" && c == 0xdb, kind == "bin" && c == 0xc6:
		return wide(4)
	case kind == "str" && c == 0xd9, kind == "bin" && c == 0xc4:
		return wide(1)
	case (kind == "uint" || kind == "int") && c < 0x80:
		return int64(c), true
	}
	*ts = old
	return 0, false
}

// next reads a value of a kind
func (r *msgRun) next(ts *[]mtok, kind string) (*T, bool) {
	if len(*ts) == 0 {
		return nil, false
	}
	if t := (*ts)[0]; t.kind == kind {
		*ts = (*ts)[1:]
		return t.val, true
	} else if kind == "uint" && t.kind == "int" || kind == "int" && t.kind == "uint" {
		v, ok := r.env.tryInt(t.val)
		if !ok || v.Sign() < 0 || v.BitLen() > 63 {
			return nil, false
		}
		*ts = (*ts)[1:]
		return t.val, true
	}
	old := *ts
	n, ok := r.head(ts, kind)
	if !ok {
		return nil, false
	}
	switch kind {
	case "str", "bin":
		b, ok := take(ts, int(n))
		if !ok {
			*ts = old
			return nil, false
		}
		return cLit(string(b)), true
	case "bool":
		return mkBool(n == 1), true
	case "nil":
		return mkNil(), true
	}
	return mkInt(n), true
}

func (r *msgRun) skip(ts *[]mtok) bool {
	if len(*ts) == 0 {
		return false
	}
	if n, ok := r.head(ts, "map"); ok {
		for i := int64(0); i < 2*n; i++ {
			if !r.skip(ts) {
				return false
			}
		}
		return true
	}
	if n, ok := r.head(ts, "array"); ok {
		for i := int64(0); i < n; i++ {
			if !r.skip(ts) {
				return false
			}
		}
		return true
	}
	for _, k := range []string{"str", "bin", "nil", "bool", "uint", "int"} {
		if _, ok := r.next(ts, k); ok {
			return true
		}
	}
	return false
}

// msgKind is the kind of token a function of the msgp package is about
func msgKind(s string) string {
	switch {
	case strings.HasPrefix(s, "Uint"), s == "Byte":
		return "uint"
	case strings.HasPrefix(s, "Int") && s != "Intf":
		return "int"
	case s == "String" || s == "StringFromBytes" || s == "StringAsBytes" || s == "StringZC":
		return "str"
	case s == "Bytes" || s == "BytesZC":
		return "bin"
	case s == "MapHeader":
		return "map"
	case s == "ArrayHeader":
		return "array"
	case s == "Bool":
		return "bool"
	case s == "Nil":
		return "nil"
	}
	return ""
}

func (r *msgRun) hook(fr *frame, st *State, fn *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
	i := strings.Index(nm, "msgp.")
	if i < 0 || !strings.Contains(nm, "tinylib/msgp/") {
		return nil, false
	}
	x := r.x
	st = st.clone()
	bytesT := types.NewSlice(byteT)
	f := nm[i+5:]
	// what a value is in the program
	fail := func(rets ...*T) ([]outcome, bool) {
		e := x.err(nm)
		st.facts = st.facts.push(mkNot(mkEq(e, mkNil(), errorT)))
		return one(st, append(rets, e)...), true
	}
	content := func(kind string, a *T, t types.Type) *T {
		switch kind {
		case "str":
			if isStringT(t) {
				return strContent(a)
			}
			return x.content(st, a)
		case "bin":
			return x.content(st, a)
		}
		return a
	}
	value := func(kind string, v *T, t types.Type) *T {
		switch {
		case kind == "str" && isStringT(t):
			return mkString(v)
		case kind == "str" || kind == "bin":
			return x.newBytes(st, v, t)
		}
		return v
	}
	zero := func(t types.Type) *T { return zeroOf(t) }
	exact := func(ts *[]mtok, into *T) bool {
		d := x.parts(into)
		v, ok := r.next(ts, "bin")
		if !ok {
			return false
		}
		n, ok1 := cLen(v).i64()
		m, ok2 := d.len.i64()
		if !ok1 || !ok2 {
			x.fail("a length is unknown")
			return false
		}
		if n != m {
			return false
		}
		x.store(st, d.base, cSplice(x.load(st, d.base, nil), d.off, v), nil)
		return true
	}
	switch {
	case strings.HasPrefix(f, "Writer)."):
		m := f[len("Writer)."):]
		r.nwrites++
		if r.failAt >= 0 && r.nwrites > r.failAt {
			return fail()
		}
		switch {
		case m == "Append":
			c := x.content(st, args[1])
			ts, ok := r.tokens(c)
			if !ok {
				return nil, false
			}
			r.written = append(r.written, ts...)
			return one(st, mkNil()), true
		case m == "Flush":
			return one(st, mkNil()), true
		case strings.HasPrefix(m, "Write"):
			k := msgKind(m[5:])
			if k == "" {
				return nil, false
			}
			v := mkNil()
			if len(args) > 1 {
				v = content(k, args[1], sig.Params().At(sig.Params().Len()-1).Type())
			}
			r.written = append(r.written, mtok{k, v})
			return one(st, mkNil()), true
		}
	case strings.HasPrefix(f, "Reader)."):
		m := f[len("Reader)."):]
		switch {
		case m == "IsNil":
			ts := r.in
			_, ok := r.next(&ts, "nil")
			return one(st, mkBool(ok)), true
		case m == "Skip":
			if !r.skip(&r.in) {
				return fail()
			}
			return one(st, mkNil()), true
		case m == "ReadExactBytes":
			if !exact(&r.in, args[1]) {
				return fail()
			}
			return one(st, mkNil()), true
		case m == "ReadNil":
			if _, ok := r.next(&r.in, "nil"); !ok {
				return fail()
			}
			return one(st, mkNil()), true
		case m == "ReadMapKeyPtr" || m == "ReadMapKey":
			v, ok := r.next(&r.in, "str")
			if !ok {
				if v, ok = r.next(&r.in, "bin"); !ok {
					return fail(mkNil())
				}
			}
			return one(st, x.newBytes(st, v, bytesT), mkNil()), true
		case strings.HasPrefix(m, "Read"):
			k := msgKind(m[4:])
			if k == "" {
				return nil, false
			}
			t := sig.Results().At(0).Type()
			v, ok := r.next(&r.in, k)
			if !ok {
				return fail(zero(t))
			}
			return one(st, value(k, v, t), mkNil()), true
		}
	case strings.HasPrefix(f, "Append"):
		k := msgKind(f[6:])
		if k == "" {
			return nil, false
		}
		v := mkNil()
		if len(args) > 1 {
			v = content(k, args[1], sig.Params().At(1).Type())
		}
		return one(st, x.newBytes(st, cCat(x.content(st, args[0]), cVec(mk("fn", "mp:"+k, nil, v))), bytesT)), true
	case f == "Require":
		return one(st, x.newBytes(st, x.content(st, args[0]), bytesT)), true
	case f == "UnsafeString":
		return one(st, mkString(x.content(st, args[0]))), true
	case f == "IsNil" || f == "Skip" || f == "ReadExactBytes" || strings.HasPrefix(f, "Read"):
		ts, ok := r.tokens(x.content(st, args[0]))
		if !ok {
			return nil, false
		}
		rest := func() *T { return x.newBytes(st, r.stream(ts), bytesT) }
		m := strings.TrimSuffix(strings.TrimPrefix(f, "Read"), "Bytes")
		if f == "ReadBytesBytes" || f == "ReadBytesZC" {
			m = "Bytes"
		}
		switch {
		case f == "IsNil":
			_, ok := r.next(&ts, "nil")
			return one(st, mkBool(ok)), true
		case f == "Skip":
			if !r.skip(&ts) {
				return fail(args[0])
			}
			return one(st, rest(), mkNil()), true
		case f == "ReadExactBytes":
			if !exact(&ts, args[1]) {
				return fail(args[0])
			}
			return one(st, rest(), mkNil()), true
		case f == "ReadNilBytes":
			if _, ok := r.next(&ts, "nil"); !ok {
				return fail(args[0])
			}
			return one(st, rest(), mkNil()), true
		case f == "ReadMapKeyZC":
			v, ok := r.next(&ts, "str")
			if !ok {
				if v, ok = r.next(&ts, "bin"); !ok {
					return fail(mkNil(), args[0])
				}
			}
			return one(st, x.newBytes(st, v, bytesT), rest(), mkNil()), true
		}
		k := msgKind(m)
		if k == "" {
			return nil, false
		}
		t := sig.Results().At(0).Type()
		v, ok := r.next(&ts, k)
		if !ok {
			return fail(zero(t), args[0])
		}
		return one(st, value(k, v, t), rest(), mkNil()), true
	}
	return nil, false
}
