package main

// C10: decoding what a contract returns.

import (
	"bytes"
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// a word of an answer: unknown (nil) or given
type abiAnswer struct {
	what string
	args []string // kinds of the destinations
	data []*big.Int
	cut  int // bytes missing at the end
	// bounds of the unknown words (by index): they hold at most so many bits
	bits map[int]int
}

var decKinds = []string{"Data", "Address", "Int", "big", "string", "rawbytes", "Bytes", "IntSlice", "AddrSlice", "DataSlice", "bool", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "int", "uint"}

func decBits(k string) int {
	switch k {
	case "uint8":
		return 8
	case "uint16":
		return 16
	case "uint32":
		return 32
	case "uint64", "uint":
		return 64
	case "int8":
		return 7
	case "int16":
		return 15
	case "int32":
		return 31
	case "int64", "int":
		return 63
	}
	return 0
}

func decDynamic(k string) bool {
	return k == "string" || k == "rawbytes" || k == "Bytes" || strings.HasSuffix(k, "Slice")
}

func decCases() (out []abiAnswer) {
	n := func(v int64) *big.Int { return big.NewInt(v) }
	pow := func(k uint, d int64) *big.Int {
		return new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), k), big.NewInt(d))
	}
	pad := func(ws ...*big.Int) []*big.Int { return ws }
	for _, k := range decKinds {
		if decDynamic(k) {
			continue
		}
		b := map[int]int{}
		if decBits(k) > 0 {
			b[0] = decBits(k)
		}
		out = append(out,
			abiAnswer{"one word", []string{k}, pad(nil), 0, b},
			abiAnswer{"a word and more", []string{k}, pad(nil, nil), 0, b},
			abiAnswer{"no words", []string{k}, nil, 0, nil},
			abiAnswer{"a cut word", []string{k}, pad(n(1)), 1, nil},
			abiAnswer{"a cut word", []string{k}, pad(n(1)), 31, nil},
			abiAnswer{"a cut word", []string{k}, pad(n(1)), 13, nil},
			abiAnswer{"one word for two", []string{k, k}, pad(n(1)), 0, nil},
		)
	}
	for _, k := range decKinds {
		if !decDynamic(k) {
			continue
		}
		a := func(what string, d ...*big.Int) { out = append(out, abiAnswer{what, []string{k}, d, 0, nil}) }
		unit := int64(1)
		if strings.HasSuffix(k, "Slice") {
			unit = 32
		}
		a("empty", n(32), n(0))
		if unit == 1 {
			for _, l := range []int64{1, 5, 31, 32} {
				a(fmt.Sprintf("%d bytes", l), n(32), n(l), nil)
			}
			a("33 bytes", n(32), n(33), nil, nil)
			a("64 bytes", n(32), n(64), nil, nil)
		}
		for l := int64(1); l <= 3; l++ {
			d := pad(n(32), n(l*32/(32/unit)))
			for i := int64(0); i < l; i++ {
				d = append(d, nil)
			}
			if unit == 32 {
				a(fmt.Sprintf("%d elements", l), d...)
			}
		}
		a("a later offset", n(64), nil, n(1), nil)
		a("a later offset", n(96), nil, nil, n(1), nil)
		a("an offset that is no multiple of a word", n(33), n(0), n(0))
		a("an offset that is no multiple of a word", n(33), n(0), pow(249, 0), nil, nil, nil)
		// bounds
		for _, o := range []*big.Int{n(33), n(64), n(65), n(95), n(96), n(97), n(128), pow(31, 0), pow(32, 0), pow(32, 32), pow(63, -32), pow(63, -31), pow(63, -1), pow(63, 0), pow(63, 32), pow(64, -32), pow(64, -1), pow(64, 0), pow(64, 32), pow(128, 32), pow(255, 0), pow(256, -32), pow(256, -1)} {
			a("offset "+o.String(), o, n(0), nil)
		}
		for _, l := range []*big.Int{n(2 * 32 / unit), n(2*32/unit + 1), n(3 * 32 / unit), n(1 << 20), pow(31, 0), pow(32, 0), pow(32, 1), pow(58, 0), pow(58, -1), pow(59, 0), pow(59, 1), pow(60, 1), pow(63, -33), pow(63, -32), pow(63, -1), pow(63, 0), pow(63, 1), pow(64, -1), pow(64, 0), pow(64, 1), pow(128, 1), pow(255, 0), pow(256, -1)} {
			a("length "+l.String(), n(32), l, nil, nil)
		}
		a("no words")
		a("no length", n(32))
		a("no length", n(32), nil)
		for _, cut := range []int{1, 16, 31} {
			out = append(out, abiAnswer{"a cut end", []string{k}, pad(n(32), n(32/unit), nil), cut, nil})
			out = append(out, abiAnswer{"a cut length", []string{k}, pad(n(32), n(0)), cut, nil})
			out = append(out, abiAnswer{"a cut offset", []string{k}, pad(n(32)), cut, nil})
		}
	}
	m := func(what string, args string, d ...*big.Int) {
		ks := strings.Split(args, " ")
		b := map[int]int{}
		for i, k := range ks {
			if decBits(k) > 0 {
				b[i] = decBits(k)
			}
		}
		out = append(out, abiAnswer{what, ks, d, 0, b})
	}
	for _, k := range decKinds {
		if !decDynamic(k) {
			m("second", "Int "+k, nil, nil)
			m("third", "bool Address "+k, nil, nil, nil)
			continue
		}
		u := int64(32)
		if strings.HasSuffix(k, "Slice") {
			u = 1
		}
		m("second", "Int "+k, nil, n(64), n(2*u), nil, nil)
		m("second, later", "Data "+k, nil, n(96), nil, n(1), nil)
		m("third", "bool Address "+k, nil, nil, n(96), n(1), nil)
		m("last of five", "bool Address uint8 int64 "+k, nil, nil, nil, nil, n(160), n(2*u), nil, nil)
		m("two", k+" "+k, n(64), n(128), n(1), nil, n(2*u), nil, nil)
		m("two, swapped", k+" "+k, n(128), n(64), n(1), nil, n(u), nil)
		m("second beyond", "Int "+k, nil, n(96), n(0))
		m("second too long", "Int "+k, nil, n(64), n(u+1), nil)
		m("third too long", "Int Int "+k, nil, nil, n(96), n(2*u+1), nil, nil)
	}
	m("several words", "Address Int bool uint64 Data", nil, nil, nil, nil, nil)
	m("several words", "int64 Address Address int uint8 big", nil, nil, nil, nil, nil, nil)
	m("two tails", "string Bytes", n(64), n(128), n(7), nil, n(40), nil, nil)
	m("two tails, swapped", "string rawbytes", n(128), n(64), n(7), nil, n(30), nil)
	m("mixed", "Address string uint64 IntSlice bool", nil, n(160), nil, n(224), nil, n(3), nil, n(2), nil, nil)
	m("mixed", "AddrSlice Int DataSlice", n(96), nil, n(192), n(2), nil, nil, n(1), nil)
	m("second out of bounds", "string Bytes", n(64), n(256), n(7), nil, n(40), nil, nil)
	m("second too long", "Int IntSlice", nil, n(64), n(3), nil, nil)
	// far away and long
	far := func(d []*big.Int, words int) []*big.Int {
		for i := len(d); i < words; i++ {
			d = append(d, pow(251, int64(i)))
		}
		return d
	}
	m("a far tail", "Bytes string", append(far(pad(n(64), n(65600), n(3), nil), 2050), n(5), nil)...)
	m("a long tail", "Int rawbytes Bytes", append(far(pad(nil, n(96), n(65824), n(65650), nil), 2057), n(33), nil, nil)...)
	m("tail missing", "Address DataSlice Int", nil, n(96))
	return
}

func init() {
	checks["C10"] = &CheckDef{
		title:     "Contract answers are decoded within their bounds",
		technique: "static abstract interpretation over SSA with value numbering and constant-trip-count unrolling; finite-domain evaluation of the summary terms against the specification",
		explanation: "DecodeABI is interpreted for every destination type on answers with given offset and length words (valid ones, all edges of the answer's size and of 32-, 63-, 64- and 256-bit numbers, cut answers) and unknown bytes elsewhere. " +
			"No path may panic; what the destinations hold on success is compared with the specified decoding for changes of every unknown byte, and what lies outside the answer has to be an error. ABIDecoder is interpreted on hex text.",
		assumptions: []string{"math/big behaves as documented", "bytes are varied one at a time"},
		min:         200,
		run:         runABIDecode,
	}
}

// decType is the type a destination of kind k points to
func (c *Check) decType(k string, x *Exec) types.Type {
	switch k {
	case "big":
		return x.bigType()
	case "rawbytes":
		return types.NewSlice(byteT)
	}
	for _, b := range types.Typ {
		if b.Name() == k {
			return b
		}
	}
	return c.w.Type("", k)
}

func runABIDecode(c *Check) {
	dec, um := c.fn("", "DecodeABI"), c.fn("", "(*ABIDecoder).UnmarshalText")
	if dec == nil || um == nil {
		return
	}
	for _, k := range decKinds {
		if k[0] >= 'A' && k[0] <= 'Z' && c.typ("", k) == nil {
			return
		}
	}
	for i, a := range decCases() {
		c.decCase(dec, a, i, false)
	}
	n := 0
	for i, a := range decCases() {
		if len(a.data) > 0 && len(a.data) < 100 && a.cut == 0 && (len(a.args) > 1 || n < 40 && i%7 == 0) {
			n++
			c.decCase(um, a, i, true)
		}
	}
}

// decoded: what the destination of the kind has to hold; ok: it can be
// decoded; spec: the statement says what happens
func decoded(k string, i int, args int, d []byte) (val [][]byte, ok, spec bool) {
	if 32*i >= len(d) {
		return nil, false, true
	}
	if 32*i+32 > len(d) {
		return nil, false, false
	}
	w := d[32*i : 32*i+32]
	if !decDynamic(k) {
		return [][]byte{w}, true, true
	}
	o := new(big.Int).SetBytes(w)
	if o.Cmp(big.NewInt(int64(len(d)-32))) > 0 {
		return nil, false, true
	}
	off := int(o.Int64())
	if off < 32*args {
		return nil, false, false
	}
	l := new(big.Int).SetBytes(d[off : off+32])
	size := new(big.Int).Set(l)
	if strings.HasSuffix(k, "Slice") {
		size.Mul(size, big.NewInt(32))
	}
	t := d[off+32:]
	if size.Cmp(big.NewInt(int64(len(t)))) > 0 {
		return nil, false, true
	}
	t = t[:size.Int64()]
	if !strings.HasSuffix(k, "Slice") {
		return [][]byte{t}, true, true
	}
	val = [][]byte{}
	for len(t) > 0 {
		val = append(val, t[:32])
		t = t[32:]
	}
	return val, true, true
}

func (c *Check) decCase(fn *ssa.Function, a abiAnswer, no int, text bool) {
	what := fmt.Sprintf("%v from an answer with %s", a.args, a.what)
	cons := fmt.Sprintf("%s/%s #%d", fnName(fn), what, no)
	var data, syms []*T
	val := map[*T]byte{}
	top := map[*T]byte{}
	for i, w := range a.data {
		b := make([]byte, 32)
		if w != nil {
			w.FillBytes(b)
		}
		for j := 0; j < 32; j++ {
			if w != nil || text {
				if text && w == nil && (a.bits[i] == 0 || 8*(31-j) < a.bits[i]) {
					b[j] = byte(0x11*(i+1) + 7*j)
					if 8*(32-j) > a.bits[i] && a.bits[i] > 0 {
						b[j] = 1
					}
				}
				data = append(data, mkInt(int64(b[j])))
				continue
			}
			if n := a.bits[i]; n > 0 && 8*(31-j) >= n {
				data = append(data, mkInt(0))
				continue
			}
			s := mk("sym", fmt.Sprintf("w%d.%d", i, j), byteT)
			data = append(data, s)
			syms = append(syms, s)
			val[s] = byte(0x11*(i+1) + 3*j)
			if n := a.bits[i]; n > 0 && 8*(32-j) > n {
				top[s] = byte(1<<uint(n%8) - 1)
				val[s] &= top[s]
			} else {
				top[s] = 0xff
			}
		}
	}
	data = data[:len(data)-a.cut]
	var dst []*T
	var typs []types.Type
	r, err := c.w.AnalyzeWith(fn, func(x *Exec) {
		x.ifConvert = true
		x.unrollMax = 300
		x.unrollStates = 20
		x.maxSteps = 900000
		if text {
			x.unrollMax = 2000
			x.maxSteps = 3000000
		}
	}, func(x *Exec, st *State, args []*T) {
		var el []*T
		for i, k := range a.args {
			t := c.decType(k, x)
			p := x.newAlloc("dst", t)
			if arrayOf(t) != nil {
				x.store(st, p, cVec(byteSyms(20, fmt.Sprintf("old%d.", i))...), t)
			} else {
				x.store(st, p, mk("sym", fmt.Sprintf("old%d", i), t), t)
			}
			dst = append(dst, p)
			typs = append(typs, t)
			el = append(el, mkIface(types.NewPointer(t), p))
		}
		if text {
			dt := deref(fn.Params[0].Type())
			p := x.newAlloc("dec", dt)
			x.store(st, p, x.newBytes(st, cVec(el...), dt), dt)
			args[0] = p
			ch := []*T{mkInt('0'), mkInt('x')}
			for _, b := range data {
				v, _ := b.i64()
				for _, h := range fmt.Sprintf("%02x", v) {
					ch = append(ch, mkInt(int64(h)))
				}
			}
			args[1] = x.newBytes(st, cVec(ch...), fn.Params[1].Type())
			return
		}
		args[0] = x.newBytes(st, cVec(data...), fn.Params[0].Type())
		if len(data) == 0 {
			args[0] = mkNil()
		}
		args[1] = x.newBytes(st, cVec(el...), fn.Params[1].Type())
	})
	if err != nil {
		c.bad("analysis", cons, fn.Pos(), "%s: the function could not be analysed: %v", what, err)
		return
	}
	fine := true
	for _, p := range r.Paths {
		if p.Kind != "return" {
			c.bad("panic", cons, p.Pos, "%s: decoding can panic", what)
			return
		}
	}
	check := func() {
		if !fine {
			return
		}
		env := newEnv()
		for t, v := range val {
			env.sym[t] = byteVals[v]
		}
		d := make([]byte, len(data))
		for i, t := range data {
			if v, ok := t.i64(); ok {
				d[i] = byte(v)
			} else {
				d[i] = val[t]
			}
		}
		p, why := evalPath(r, env)
		if p == nil {
			fine = false
			c.bad("decides", cons, fn.Pos(), "%s, answer %x: %s", what, d, why)
			return
		}
		all, spec := true, true
		var want [][][]byte
		for i, k := range a.args {
			v, ok, s := decoded(k, i, len(a.args), d)
			want = append(want, v)
			if !ok && s {
				all = false
				spec = true
				break
			}
			if !s {
				spec = false
				break
			}
		}
		if !spec {
			return
		}
		if !all {
			if !p.isNonNil(p.Ret[0]) {
				fine = false
				c.bad("bounds", cons, p.Pos, "%s, answer %x: no error although a value reaches outside the answer", what, d)
			}
			return
		}
		if !p.Ret[0].isNil() {
			fine = false
			c.bad("decoding", cons, p.Pos, "%s, answer %x: an error although every value lies within the answer", what, d)
			return
		}
		for i, k := range a.args {
			v := r.X.load(p.St, dst[i], typs[i])
			var got [][]byte
			bytesOf := func(t *T) []byte {
				b, ok := env.tryBytes(t)
				if !ok {
					return []byte("undetermined: " + clip(env.why(t), 100))
				}
				return b
			}
			intOf := func(t *T) []byte {
				n, ok := env.tryInt(t)
				if !ok {
					return []byte("undetermined: " + clip(env.why(t), 100))
				}
				if n.Sign() < 0 || n.BitLen() > 256 {
					return []byte(n.String())
				}
				return abiPadLeft(n.Bytes())
			}
			w := want[i]
			switch k {
			case "Data", "rawbytes", "Bytes":
				got = [][]byte{bytesOf(r.X.content(p.St, v))}
			case "string":
				got = [][]byte{bytesOf(strContent(v))}
			case "Address":
				got = [][]byte{bytesOf(v)}
				w = [][]byte{w[0][12:]}
			case "bool":
				b, ok := env.tryBool(v)
				if !ok {
					got = [][]byte{[]byte("undetermined")}
				} else if b {
					got = [][]byte{{1}}
				} else {
					got = [][]byte{{0}}
				}
				if new(big.Int).SetBytes(w[0]).Sign() != 0 {
					w = [][]byte{{1}}
				} else {
					w = [][]byte{{0}}
				}
			case "IntSlice", "AddrSlice", "DataSlice":
				sc := r.X.content(p.St, v)
				n, ok := env.tryInt(cLen(sc))
				if !ok || !n.IsInt64() || n.Int64() > 1000 {
					got = [][]byte{[]byte("undetermined length")}
					break
				}
				got = [][]byte{}
				for j := int64(0); j < n.Int64(); j++ {
					e := cSel(sc, mkInt(j), typs[i].Underlying().(*types.Slice).Elem())
					switch k {
					case "IntSlice":
						got = append(got, intOf(e))
					case "AddrSlice":
						got = append(got, bytesOf(e))
						if int(j) < len(w) && len(w[j]) == 32 {
							w = append([][]byte{}, w...)
							w[j] = w[j][12:]
						}
					default:
						got = append(got, bytesOf(r.X.content(p.St, e)))
					}
				}
			default:
				got = [][]byte{intOf(v)}
			}
			same := len(got) == len(w)
			for j := 0; same && j < len(w); j++ {
				same = bytes.Equal(got[j], w[j])
			}
			if !same {
				fine = false
				c.bad("decoding", cons, p.Pos, "%s, answer %x: the %s at position %d is %x (%s), not %x", what, d, k, i, got, clip(fmt.Sprintf("%q", got), 120), w)
				return
			}
		}
	}
	check()
	for _, t := range syms {
		old := val[t]
		for _, v := range []byte{0, 1, 0x7f, 0x80, 0xff} {
			val[t] = v & top[t]
			check()
		}
		val[t] = old
	}
	for _, v := range []byte{0, 0xff} {
		for _, t := range syms {
			val[t] = v & top[t]
		}
		check()
	}
	c.ob("decoding", cons, fn.Pos(), fine, "%s: the values are not those of the answer", what)
}
