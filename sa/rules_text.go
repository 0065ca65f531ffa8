package main

// C06, C07: the text forms of data and of quantities. The decoders and
// encoders are interpreted on texts of a fixed length whose characters are
// unknown; the resulting summaries (branch conditions and the term of every
// output byte) are compared with the specification for every value of every
// character.

import (
	"bytes"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// texts evaluates a set of path summaries over an assignment of bytes
type texts struct {
	paths  []*Path
	leaves []*T // the unknown bytes
	val    []byte
	idx    map[*T]int
	lv     map[*T][]*T
	shape  map[*T]int
	shapes map[string]int
	cache  map[textKey]interface{}
	extra  func(env *evalEnv, val []byte) // other leaves
	base   []byte
	env    *evalEnv      // of the current assignment
	falseB []map[*T]bool // per path: facts false in the base assignment
	byLeaf []map[int][]*T
	wild   [][]*T // per path: facts that need full evaluation
}

type textKey struct {
	shape int
	a, b  int16
}

func newTexts(r *Result, syms []*T, extra func(env *evalEnv, val []byte)) *texts {
	h := &texts{leaves: syms, idx: map[*T]int{}, lv: map[*T][]*T{}, shape: map[*T]int{}, shapes: map[string]int{}, cache: map[textKey]interface{}{}, extra: extra}
	for i, s := range syms {
		h.idx[s] = i
	}
	h.paths = r.Paths
	return h
}

// ev evaluates t under the current assignment; nil if it has no value
func (h *texts) ev(t *T) interface{} {
	v, small := h.evSmall(t)
	if small {
		return v
	}
	if h.env == nil {
		h.env = newEnv()
		for i, a := range h.leaves {
			h.env.sym[a] = byteVals[h.val[i]]
		}
		if h.extra != nil {
			h.extra(h.env, h.val)
		}
		h.env.sub = h.evSmall
	}
	v, ok := h.env.try(t)
	if !ok {
		return nil
	}
	return v
}

// evSmall evaluates terms over at most two of the bytes
func (h *texts) evSmall(t *T) (interface{}, bool) {
	ls, ok := h.lv[t]
	if !ok {
		s, l := shapeOf(t)
		for _, a := range l {
			if _, ok := h.idx[a]; !ok {
				l = append(append([]*T(nil), l...), nil, nil, nil) // foreign leaf: evaluate in full
				break
			}
		}
		id, ok := h.shapes[s]
		if !ok {
			id = len(h.shapes)
			h.shapes[s] = id
		}
		h.lv[t], h.shape[t] = l, id
		ls = l
	}
	if len(ls) <= 2 {
		k := textKey{h.shape[t], -1, -1}
		if len(ls) > 0 {
			k.a = int16(h.val[h.idx[ls[0]]])
		}
		if len(ls) > 1 {
			k.b = int16(h.val[h.idx[ls[1]]])
		}
		if v, ok := h.cache[k]; ok {
			return v, true
		}
		env := newEnv()
		for _, a := range ls {
			env.sym[a] = big.NewInt(int64(h.val[h.idx[a]]))
		}
		v, ok := env.try(t)
		if !ok {
			v = nil
		}
		h.cache[k] = v
		return v, true
	}
	return nil, false
}

var byteVals = func() (v [256]*big.Int) {
	for i := range v {
		v[i] = big.NewInt(int64(i))
	}
	return
}()

// rebase sets the assignment other assignments are small changes of
func (h *texts) rebase(b []byte) {
	h.env = nil
	h.base = append([]byte(nil), b...)
	h.val = append([]byte(nil), b...)
	h.falseB, h.byLeaf, h.wild = nil, nil, nil
	for _, p := range h.paths {
		f := map[*T]bool{}
		bl := map[int][]*T{}
		var wild []*T
		for _, t := range p.Facts {
			v := h.ev(t)
			if v != true {
				f[t] = true
			}
			ls := h.lv[t]
			if len(ls) > 2 {
				wild = append(wild, t)
				continue
			}
			for _, a := range ls {
				bl[h.idx[a]] = append(bl[h.idx[a]], t)
			}
		}
		h.falseB = append(h.falseB, f)
		h.byLeaf = append(h.byLeaf, bl)
		h.wild = append(h.wild, wild)
	}
}

// path finds the path taken when the characters at the positions have the
// values set in h.val (the others are as in the base)
func (h *texts) path(pos ...int) (*Path, string) {
	var got *Path
	h.env = nil
	for i, p := range h.paths {
		ok := true
		fixed := 0
		check := func(t *T) {
			if h.falseB[i][t] {
				fixed++
			}
			if ok {
				v := h.ev(t)
				if v == nil {
					ok = false
				} else if v != true {
					ok = false
				}
			}
		}
		seen := map[*T]bool{}
		for _, k := range pos {
			for _, t := range h.byLeaf[i][k] {
				if !seen[t] {
					seen[t] = true
					check(t)
				}
			}
		}
		for _, t := range h.wild[i] {
			check(t)
		}
		if !ok || fixed != len(h.falseB[i]) {
			continue
		}
		if got != nil {
			return nil, "two paths are possible"
		}
		got = p
	}
	if got == nil {
		if os.Getenv("SA_DEBUG") != "" {
			for i, p := range h.paths {
				for _, t := range p.Facts {
					if v := h.ev(t); v != true {
						fmt.Fprintln(os.Stderr, "path", i, p.Kind, v, t.pp(9))
					}
				}
			}
		}
		return nil, "the outcome could not be determined"
	}
	return got, ""
}

// outBytes evaluates a content term under the current assignment
func (h *texts) outBytes(c *T) ([]byte, bool) {
	if c.op == "vec" {
		out := make([]byte, len(c.args))
		for i, a := range c.args {
			v, ok := h.ev(a).(*big.Int)
			if !ok || !v.IsInt64() || v.Int64() < 0 || v.Int64() > 255 {
				return nil, false
			}
			out[i] = byte(v.Int64())
		}
		return out, true
	}
	b, ok := h.ev(c).([]byte)
	return b, ok
}

func byteSyms(n int, name string) []*T {
	var out []*T
	for i := 0; i < n; i++ {
		out = append(out, mk("sym", fmt.Sprintf("%s%d", name, i), byteT))
	}
	return out
}

// codec describes one decoder or encoder
type codec struct {
	name  string
	fixed int  // bytes of the value; -1: any
	str   bool // the text is a string
	tok   bool // the text is a token read from a scanner
	ret   bool // the value is returned
	wrap  func(text []*T) []*T
}

// textPrep replaces the text parameter of fn by the given characters
func textInput(x *Exec, st *State, fn *ssa.Function, args []*T, chars []*T) bool {
	for i, p := range fn.Params {
		if isStringT(p.Type()) {
			args[i] = mkString(cVec(chars...))
			return true
		}
		if sl, ok := p.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), byteT) && (i > 0 || fn.Signature.Recv() == nil) {
			args[i] = x.newBytes(st, cVec(chars...), p.Type())
			return true
		}
	}
	return false
}

func (c *Check) decodeRun(fn *ssa.Function, chars []*T, scan bool, verb rune) *Result {
	c.fns[fnName(fn)] = true
	r, err := c.w.AnalyzeWith(fn, func(x *Exec) {
		x.ifConvert = true
		x.maxSteps = 600000
		x.unrollMax = 160
		x.hook = func(fr *frame, st *State, callee *ssa.Function, name string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
			if scan && strings.HasSuffix(name, ".Token") && sig.Results().Len() == 2 {
				return one(st, x.newBytes(st, cVec(chars...), sig.Results().At(0).Type()), mkNil()), true
			}
			return nil, false
		}
	}, func(x *Exec, st *State, args []*T) {
		if scan {
			args[2] = mkInt(int64(verb))
			return
		}
		textInput(x, st, fn, args, chars)
	})
	if err != nil {
		c.bad("analysis", fnName(fn), fn.Pos(), "the function could not be analysed: %v", err)
		return nil
	}
	return r
}

// failed: does the path report an error? known is false if that is not known
func failed(p *Path, fn *ssa.Function) (bad, known bool) {
	i := errIdx(fn.Signature)
	if i < 0 || p.Kind != "return" {
		return false, false
	}
	e := p.Ret[i]
	if e.isNil() {
		return false, true
	}
	if nonNil(e) || e.op == "err" || e.op == "iface" {
		return true, true
	}
	return false, false
}

const hexLower = "0123456789abcdef"

// specHex is the specification: the bytes a text denotes
func specHex(s []byte) ([]byte, bool) {
	if len(s) < 2 || s[0] != '0' || s[1] != 'x' {
		return nil, false
	}
	s = s[2:]
	for _, c := range s {
		if !isHexByte(c) {
			return nil, false
		}
	}
	if len(s)%2 == 1 {
		s = append([]byte{'0'}, s...)
	}
	out := make([]byte, len(s)/2)
	for i := range out {
		out[i] = unhex(s[2*i])<<4 | unhex(s[2*i+1])
	}
	return out, true
}

// decodeCases runs a decoder's summaries over all single characters and all
// pairs of neighbouring digits
func (c *Check) decodeCases(fn *ssa.Function, r *Result, chars []*T, off, end int, base []byte, what string, value func(h *texts, p *Path) (interface{}, bool), spec func(text []byte) (interface{}, bool)) {
	h := newTexts(r, chars, nil)
	var syms []*T
	_ = syms
	h.rebase(base)
	n := 0
	check := func(pos ...int) bool {
		n++
		p, why := h.path(pos...)
		text := string(h.val)
		if p == nil {
			c.bad("decides", fnName(fn), fn.Pos(), "%s %q: %s", what, text, why)
			return false
		}
		if p.Kind == "panic" {
			c.bad("decode", fnName(fn), p.Pos, "%s %q makes it panic", what, text)
			return false
		}
		bad, known := failed(p, fn)
		if !known {
			c.bad("decides", fnName(fn), p.Pos, "%s %q: it is not known whether this is accepted", what, text)
			return false
		}
		want, ok := spec(h.val)
		if !ok {
			if !bad {
				c.bad("rejects", fnName(fn), p.Pos, "%s %q is accepted", what, text)
				return false
			}
			return true
		}
		if bad {
			c.bad("accepts", fnName(fn), p.Pos, "%s %q is rejected", what, text)
			return false
		}
		got, known := value(h, p)
		if !known {
			c.bad("decides", fnName(fn), p.Pos, "%s %q: the value is not determined by the text", what, text)
			return false
		}
		same := false
		switch w := want.(type) {
		case []byte:
			g, _ := got.([]byte)
			same = bytes.Equal(g, w)
		case *big.Int:
			g, isb := got.(*big.Int)
			same = isb && g.Cmp(w) == 0
		}
		if !same {
			c.bad("value", fnName(fn), p.Pos, "%s %q is decoded as %s, not %s", what, text, showVal(got), showVal(want))
			return false
		}
		return true
	}
	fine := check()
	for i := off; i < end && fine; i++ {
		for v := 0; v < 256 && fine; v++ {
			h.val[i] = byte(v)
			fine = check(i)
		}
		h.val[i] = base[i]
		if i+1 < end && i >= off+2 {
			for _, a := range []byte("0123456789abcdefABCDEF") {
				for _, b := range []byte("0123456789abcdefABCDEF") {
					if !fine {
						break
					}
					h.val[i], h.val[i+1] = a, b
					fine = check(i, i+1)
				}
			}
			h.val[i], h.val[i+1] = base[i], base[i+1]
		}
	}
	c.ob("text", fmt.Sprintf("%s/%s/%d", fnName(fn), what, len(chars)), fn.Pos(), fine, "%s of %d characters are not decoded as specified", what, len(chars))
}

func showVal(v interface{}) string {
	switch v := v.(type) {
	case []byte:
		return fmt.Sprintf("%x", v)
	case *big.Int:
		return v.String()
	}
	return fmt.Sprint(v)
}

// recvBytes: the byte content of the decoded value at address a
func recvBytes(x *Exec, fn *ssa.Function, r *Result, ret bool) func(h *texts, p *Path) (interface{}, bool) {
	return func(h *texts, p *Path) (interface{}, bool) {
		a := r.Params[0]
		if ret {
			a = p.Ret[0]
		}
		if a.typ == nil || deref(a.typ) == nil {
			return nil, false
		}
		et := deref(a.typ)
		var cont *T
		if arrayOf(et) != nil {
			cont = x.load(p.St, a, et)
		} else {
			v := x.load(p.St, a, et)
			if v.isNil() {
				return []byte{}, true
			}
			cont = x.content(p.St, v)
		}
		b, ok := h.outBytes(cont)
		return b, ok
	}
}

func recvInt(x *Exec, fn *ssa.Function, r *Result, ret bool) func(h *texts, p *Path) (interface{}, bool) {
	return func(h *texts, p *Path) (interface{}, bool) {
		a := r.Params[0]
		if ret {
			a = p.Ret[0]
		}
		et := deref(a.typ)
		if et == nil {
			return nil, false
		}
		v, ok := h.ev(x.load(p.St, a, et)).(*big.Int)
		return v, ok
	}
}

func hexBase(n int) []byte {
	b := bytes.Repeat([]byte{'0'}, n)
	if n > 1 {
		b[1] = 'x'
	}
	return b
}

func init() {
	checks["C06"] = &CheckDef{
		title:     "Hex text stands for exactly the bytes it spells",
		technique: "abstract interpretation with loops unrolled for fixed text lengths and branches joined by if-conversion; finite-domain evaluation of the output terms",
		explanation: "Every decoder and encoder of addresses, hashes and byte strings is interpreted on texts (values) of given lengths whose characters (bytes) are unknown. " +
			"For every character position and each of its 256 values, and for every pair of neighbouring hex digits, the path condition and the output terms of the summary are evaluated and compared with the specification: 0x and hex digits of fitting length are accepted, an odd number of digits has an implied leading zero, everything else is an error; encoding is lower case and full width. " +
			"Lengths: for addresses and hashes every length around the exact one; for byte strings 0 to 12 and 66, 67, 131 characters.",
		assumptions: []string{"encoding/hex, fmt and bytes behave as documented", "texts longer than those analysed are handled by the same loops"},
		min:         120,
		run:         runHex,
	}
	checks["C07"] = &CheckDef{
		title:     "Quantity text stands for exactly one number",
		technique: "abstract interpretation with loops unrolled for fixed text lengths and branches joined by if-conversion; finite-domain evaluation of the output terms",
		explanation: "Every decoder and encoder of quantities (big and 64-bit integers) is interpreted on texts of given lengths whose characters are unknown, or on numbers of given byte lengths whose bytes are unknown. " +
			"For every position and each of its 256 values the path condition and the result term are evaluated and compared with the specification: 0x and hex digits denote that number, decimal digits the decimal number, a number that does not fit 64 bits is an error for the 64-bit type, null leaves the value alone; encoding is 0x and hex digits without leading zeros, 0x0 for zero.",
		assumptions: []string{"math/big, encoding/hex, fmt and bytes behave as documented", "texts longer than those analysed are handled by the same loops"},
		min:         100,
		run:         runQuantity,
	}
}

type decoder struct {
	name  string
	fixed int
	scan  rune
	ret   bool
}

func runHex(c *Check) {
	ds := []decoder{
		{"(*Address).UnmarshalText", 20, 0, false}, {"(*Address).FromString", 20, 0, false}, {"(*Address).Scan", 20, 'a', false}, {"ParseAddress", 20, 0, true},
		{"(*Hash).UnmarshalText", 32, 0, false}, {"(*Hash).FromString", 32, 0, false}, {"(*Hash).Scan", 32, 'h', false}, {"ParseHash", 32, 0, true},
		{"(*Data).UnmarshalText", -1, 0, false}, {"(*Bytes).UnmarshalText", -1, 0, false},
		{"(*PrivateKey).UnmarshalText", 32, 0, false}, {"(*PrivateKey).FromString", 32, 0, false}, {"ParsePrivateKey", 32, 0, true},
		{"(*PublicKey).UnmarshalText", 64, 0, false}, {"(*PublicKey).FromString", 64, 0, false}, {"ParsePublicKey", 64, 0, true},
		{"(*Signature).UnmarshalText", 65, 0, false}, {"(*Signature).FromString", 65, 0, false},
	}
	for _, d := range ds {
		fn := c.fn("", d.name)
		if fn == nil {
			continue
		}
		var lens []int
		if d.fixed < 0 {
			for i := 0; i <= 12; i++ {
				lens = append(lens, i)
			}
			lens = append(lens, 66, 67, 131)
		} else {
			n := 2 * d.fixed
			lens = []int{0, 1, 2, 3, n - 1, n, n + 1, n + 2, n + 3, n + 4}
			if d.fixed > 32 {
				lens = []int{0, 2, n, n + 1, n + 2, n + 3}
			}
		}
		for _, l := range lens {
			chars := byteSyms(l, "t")
			r := c.decodeRun(fn, chars, d.scan != 0, d.scan)
			if r == nil {
				continue
			}
			c.decodeCases(fn, r, chars, 0, l, hexBase(l), "text", recvBytes(r.X, fn, r, d.ret), func(t []byte) (interface{}, bool) {
				b, ok := specHex(t)
				if !ok || d.fixed >= 0 && len(b) != d.fixed {
					return nil, false
				}
				return b, true
			})
		}
		if d.scan != 0 {
			// another verb is an error
			if r := c.decodeRun(fn, byteSyms(2*d.fixed+2, "t"), true, 'v'); r != nil {
				for _, p := range r.Paths {
					bad, known := failed(p, fn)
					c.ob("verb", fnName(fn), p.Pos, known && bad, "another verb than %q is accepted", d.scan)
				}
			}
		}
	}
	es := []struct {
		name string
		n    []int
	}{
		{"(Address).MarshalText", []int{20}}, {"(*Address).String", []int{20}},
		{"(Hash).MarshalText", []int{32}}, {"(*Hash).String", []int{32}},
		{"(Data).MarshalText", []int{0, 1, 2, 3, 33, 65}}, {"(*Data).String", []int{0, 1, 2, 3, 33, 65}},
		{"(Bytes).MarshalText", []int{0, 1, 2, 3, 33, 65}}, {"(*Bytes).String", []int{0, 1, 2, 3, 33, 65}},
		{"(*PrivateKey).MarshalText", []int{32}}, {"(*PrivateKey).String", []int{32}},
		{"(*PublicKey).MarshalText", []int{64}}, {"(*PublicKey).String", []int{64}},
		{"(*Signature).MarshalText", []int{65}}, {"(*Signature).String", []int{65}},
	}
	for _, e := range es {
		fn := c.fn("", e.name)
		if fn == nil {
			continue
		}
		for _, n := range e.n {
			syms := byteSyms(n, "b")
			r, err := c.w.AnalyzeWith(fn, func(x *Exec) { x.ifConvert = true; x.unrollMax = 160; x.maxSteps = 600000 }, func(x *Exec, st *State, args []*T) {
				t := fn.Params[0].Type()
				p, isPtr := t.Underlying().(*types.Pointer)
				if isPtr {
					t = p.Elem()
				}
				var v *T
				if arrayOf(t) != nil {
					v = cVec(syms...)
				} else {
					v = x.newBytes(st, cVec(syms...), t)
				}
				if isPtr {
					a := x.newAlloc("recv", t)
					x.store(st, a, v, t)
					v = a
				}
				args[0] = v
			})
			if err != nil {
				c.bad("analysis", fnName(fn), fn.Pos(), "the function could not be analysed: %v", err)
				continue
			}
			c.encodeCases(fn, r, syms, make([]byte, n), 0, nil, func(v []byte) string { return fmt.Sprintf("0x%x", v) })
		}
	}
}

// encodeCases compares the text an encoder returns with the specification
func (c *Check) encodeCases(fn *ssa.Function, r *Result, syms []*T, base []byte, lead int, extra func(env *evalEnv, val []byte), spec func(v []byte) string) {
	h := newTexts(r, syms, extra)
	h.rebase(base)
	fine := true
	check := func(pos ...int) {
		p, why := h.path(pos...)
		if p == nil || p.Kind != "return" {
			fine = false
			c.bad("decides", fnName(fn), fn.Pos(), "value %x: %s", h.val, why)
			return
		}
		if errIdx(fn.Signature) >= 0 {
			if bad, known := failed(p, fn); !known || bad {
				fine = false
				c.bad("encode", fnName(fn), p.Pos, "value %x is not encoded", h.val)
				return
			}
		}
		var got []byte
		ok := false
		if isStringT(fn.Signature.Results().At(0).Type()) {
			got, ok = h.outBytes(strContent(p.Ret[0]))
		} else {
			got, ok = h.outBytes(r.X.content(p.St, p.Ret[0]))
		}
		if want := spec(h.val); !ok || string(got) != want {
			fine = false
			c.bad("encode", fnName(fn), p.Pos, "value %x is written as %q, not %q", h.val, got, want)
		}
	}
	check()
	for i := range syms {
		for v := 0; v < 256 && fine; v++ {
			if i == 0 && v < lead {
				continue
			}
			h.val[i] = byte(v)
			check(i)
		}
		h.val[i] = base[i]
	}
	c.ob("text", fmt.Sprintf("%s/%d", fnName(fn), len(base)), fn.Pos(), fine, "values of %d bytes are not encoded as specified", len(base))
}

func specQuantity(t []byte, max int) (interface{}, bool) {
	if len(t) >= 2 && t[0] == '0' && t[1] == 'x' {
		b, ok := specHex(t)
		if !ok {
			return nil, false
		}
		v := new(big.Int).SetBytes(b)
		if max > 0 && v.BitLen() > max {
			return nil, false
		}
		return v, true
	}
	for _, ch := range t {
		if ch < '0' || ch > '9' {
			return nil, false
		}
	}
	v, ok := new(big.Int).SetString(string(t), 10)
	if !ok || max > 0 && v.BitLen() > max {
		return nil, false
	}
	return v, true
}

func runQuantity(c *Check) {
	ds := []struct {
		decoder
		max  int
		json bool
	}{
		{decoder{"(*Int).UnmarshalText", 0, 0, false}, 0, false},
		{decoder{"(*Int).FromString", 0, 0, false}, 0, false},
		{decoder{"ParseInt", 0, 0, true}, 0, false},
		{decoder{"(*Int).UnmarshalJSON", 0, 0, false}, 0, true},
		{decoder{"(*Uint64).UnmarshalText", 0, 0, false}, 64, false},
		{decoder{"(*Uint64).UnmarshalJSON", 0, 0, false}, 64, true},
	}
	for _, d := range ds {
		fn := c.fn("", d.name)
		if fn == nil {
			continue
		}
		value := func(r *Result) func(h *texts, p *Path) (interface{}, bool) { return recvInt(r.X, fn, r, d.ret) }
		// hexadecimal
		for _, l := range []int{2, 3, 4, 5, 6, 7, 17, 18, 19, 20, 66, 68, 131} {
			chars := byteSyms(l, "t")
			all := chars
			if d.json {
				all = append(append([]*T{mkInt('"')}, chars...), mkInt('"'))
			}
			r := c.decodeRun(fn, all, d.scan != 0, d.scan)
			if r == nil {
				continue
			}
			c.decodeCasesFrom(fn, r, chars, 2, hexBase(l), "hexadecimal text", value(r), func(t []byte) (interface{}, bool) { return specQuantity(t, d.max) })
		}
		// decimal: no prefix
		for _, l := range []int{1, 2, 3, 10, 19, 20, 21, 30, 79} {
			chars := byteSyms(l, "t")
			for _, quoted := range []bool{false, true} {
				all := chars
				if quoted {
					if !d.json {
						continue
					}
					all = append(append([]*T{mkInt('"')}, chars...), mkInt('"'))
				}
				r := c.decodeRun(fn, all, d.scan != 0, d.scan)
				if r == nil {
					continue
				}
				h := newTexts(r, chars, nil)
				base := bytes.Repeat([]byte{'1'}, l)
				h.rebase(base)
				val := value(r)
				fine := true
				one := func(pos ...int) {
					if !fine {
						return
					}
					p, why := h.path(pos...)
					want, ok := specQuantity(h.val, d.max)
					if p == nil {
						fine = false
						c.bad("decides", fnName(fn), fn.Pos(), "decimal text %q: %s", h.val, why)
						return
					}
					bad, known := failed(p, fn)
					if !known || bad == ok {
						fine = false
						c.bad("decimal", fnName(fn), p.Pos, "decimal text %q: rejected %v, should be accepted %v", h.val, bad, ok)
						return
					}
					if !ok {
						return
					}
					got, known := val(h, p)
					g, _ := got.(*big.Int)
					if !known || g.Cmp(want.(*big.Int)) != 0 {
						fine = false
						c.bad("decimal", fnName(fn), p.Pos, "decimal text %q is decoded as %s", h.val, showVal(got))
					}
				}
				one()
				for i := range base {
					for ch := byte('0'); ch <= '9'; ch++ {
						if i == 0 && l > 1 && ch == '0' {
							continue // not a decimal number in canonical form
						}
						h.val[i] = ch
						one(i)
					}
					for _, ch := range []byte("gz.!#") {
						h.val[i] = ch
						one(i)
					}
					h.val[i] = base[i]
				}
				c.ob("text", fmt.Sprintf("%s/decimal/%d", fnName(fn), l), fn.Pos(), fine, "decimal texts of %d digits are not decoded as specified", l)
			}
		}
		if d.scan != 0 {
			if r := c.decodeRun(fn, byteSyms(4, "t"), true, 'q'); r != nil {
				for _, p := range r.Paths {
					bad, known := failed(p, fn)
					c.ob("verb", fnName(fn), p.Pos, known && bad, "another verb is accepted")
				}
			}
		}
		if d.json {
			r := c.decodeRun(fn, cLit("null").args, false, 0)
			if r == nil {
				continue
			}
			for _, p := range r.Paths {
				bad, known := failed(p, fn)
				a := r.Params[0]
				before := r.X.load(&State{mem: c.w.globalInit}, a, deref(a.typ))
				c.ob("null", fnName(fn), p.Pos, known && !bad && r.X.load(p.St.clone(), a, deref(a.typ)) == before, "null is not taken as leaving the value alone")
			}
			c.ob("null", fnName(fn)+"/paths", fn.Pos(), len(r.Paths) > 0, "no path for null")
		}
	}
	for _, name := range []string{"(Int).MarshalText", "(*Int).String", "(Uint64).MarshalText"} {
		fn := c.fn("", name)
		if fn == nil {
			continue
		}
		lens := []int{0, 1, 2, 3, 7, 8}
		if !strings.Contains(name, "Uint64") {
			lens = append(lens, 9, 20, 31, 32, 33, 65)
		}
		for _, n := range lens {
			syms := byteSyms(n, "b")
			var leaf *T
			r, err := c.w.AnalyzeWith(fn, func(x *Exec) {
				x.ifConvert = true
				x.unrollMax = 160
				x.maxSteps = 600000
				x.hook = func(fr *frame, st *State, callee *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
					if nm == "(*math/big.Int).Bytes" {
						v := x.bigVal(st, args[0])
						if v == leaf || v.op == "big" && v.aux == "ofint" && v.args[0] == leaf {
							return one(st, x.newBytes(st, cVec(syms...), types.NewSlice(byteT))), true
						}
					}
					return nil, false
				}
			}, func(x *Exec, st *State, args []*T) {
				t := fn.Params[0].Type()
				p, isPtr := t.Underlying().(*types.Pointer)
				if isPtr {
					t = p.Elem()
				}
				leaf = mk("sym", "value", t)
				v := leaf
				if isPtr {
					a := x.newAlloc("recv", t)
					x.store(st, a, v, t)
					v = a
				}
				args[0] = v
			})
			if err != nil {
				c.bad("analysis", fnName(fn), fn.Pos(), "the function could not be analysed: %v", err)
				continue
			}
			base := make([]byte, n)
			if n > 0 {
				base[0] = 1
			}
			c.encodeCases(fn, r, syms, base, 1, func(env *evalEnv, val []byte) {
				env.sym[leaf] = new(big.Int).SetBytes(val)
			}, func(v []byte) string { return "0x" + new(big.Int).SetBytes(v).Text(16) })
		}
	}
}

// decodeCasesFrom is decodeCases for the characters from position off on
func (c *Check) decodeCasesFrom(fn *ssa.Function, r *Result, chars []*T, off int, base []byte, what string, value func(h *texts, p *Path) (interface{}, bool), spec func(text []byte) (interface{}, bool)) {
	c.decodeCases(fn, r, chars, off, len(chars), base, what, value, spec)
}
