package main

// C30: what is known about compiled code: source positions, signatures,
// metadata.

import (
	"bytes"
	"fmt"
	"go/types"
	"math/big"
	"math/rand"
	"strings"
)

func init() {
	checks["C30"] = &CheckDef{
		title:     "Compiled code is matched to its source, signatures and metadata exactly",
		technique: "static abstract interpretation over SSA along paths chosen by sample values: unknown code, source maps with unknown numbers and unknown source text, compared with the format's definition",
		explanation: "SourceOf is interpreted for every program counter of code with unknown bytes and source maps with unknown numbers, in several calls on the same contract; sample values choose paths, and the text that is returned, a term over the unknown source, is compared at every sample on the path with what the format of source maps says. " +
			"Contract, Find, Signature, MetadataHash and StripBytecode are interpreted on unknown names and code.",
		assumptions: []string{"strconv and strings behave as documented", "values between the samples of a path behave as the samples do"},
		min:         1500,
		run:         runSource,
	}
}

type sourceRun struct {
	*sampleRun
	contract, bundle, desc, param types.Type
	rng                           *rand.Rand
}

func runSource(c *Check) {
	r := &sourceRun{sampleRun: c.newSampleRun(), rng: rand.New(rand.NewSource(1))}
	r.contract, r.bundle, r.desc, r.param = c.typ("", "CompiledContract"), c.typ("", "CompiledBundle"), c.typ("", "ABIDescriptor"), c.typ("", "ABIParam")
	if r.contract == nil || r.bundle == nil || r.desc == nil || r.param == nil {
		return
	}
	_ = r.positions() && r.names() && r.metadata()
	c.obl += r.n
	c.done += r.n
}

// put makes a value of a struct type at a new address
func (r *sampleRun) put(st *State, typ types.Type, fields map[string]*T) *T {
	p := r.x.newAlloc("v", typ)
	r.putAt(st, p, typ, fields)
	return p
}

func (r *sampleRun) putAt(st *State, p *T, typ types.Type, fields map[string]*T) {
	r.x.store(st, p, zeroOf(typ), typ)
	for n, v := range fields {
		a := fieldAddrOf(p, typ, n)
		if a == nil {
			r.say("analysis", "no field %s", n)
			return
		}
		r.x.store(st, a, v, deref(a.typ))
	}
}

// list makes a slice of struct values
func (r *sampleRun) list(st *State, typ types.Type, elems ...map[string]*T) *T {
	var vs []*T
	for _, f := range elems {
		p := r.put(st, typ, f)
		vs = append(vs, r.x.load(st, p, typ))
	}
	return r.x.newBytes(st, cVec(vs...), types.NewSlice(typ))
}

func (r *sampleRun) strs(st *State, s ...*T) *T {
	return r.x.newBytes(st, cVec(s...), types.NewSlice(strT()))
}

// symsOf is n unknown bytes
func symsOf(name string, n int) *T {
	var e []*T
	for i := 0; i < n; i++ {
		e = append(e, mk("sym", fmt.Sprintf("byte:%s:%d", name, i), byteT))
	}
	return cVec(e...)
}

func (v sampleVals) bytes(c *T, b []byte) sampleVals {
	for i, s := range c.args {
		v[s] = bi(int64(b[i]))
	}
	return v
}

// sourcePos is the source range of the instruction at pc
func sourcePos(code []byte, srcmap string, pc int) (s, l, f int, ok bool) {
	if pc < 0 || pc >= len(code) {
		// past the code, but within the data of a cut instruction, or not
		return 0, 0, 0, false
	}
	op, n := 0, 0
	for i := 0; i < len(code); op++ {
		w := 1
		if code[i] >= 0x60 && code[i] < 0x80 {
			w += int(code[i]) - 0x5f
		}
		if pc < i+w {
			n = op
			break
		}
		i += w
	}
	es := strings.Split(srcmap, ";")
	if n >= len(es) {
		return 0, 0, 0, false
	}
	v := [3]int{}
	for _, e := range es[:n+1] {
		for i, x := range strings.Split(e, ":") {
			if i < 3 && x != "" {
				b, _ := new(big.Int).SetString(x, 10)
				v[i] = 1 << 40
				if b != nil && b.IsInt64() && b.Int64() < 1<<40 {
					v[i] = int(b.Int64())
				}
			}
		}
	}
	return v[0], v[1], v[2], true
}

func sourceText(sources []string, s, l, f int, ok bool) string {
	if !ok || f < 0 || f >= len(sources) || s < 0 || l < 0 || s+l > len(sources[f]) {
		return ""
	}
	return sources[f][s : s+l]
}

func (r *sourceRun) positions() bool {
	of := r.c.fn("", "(*CompiledBundle).SourceOf")
	if of == nil {
		return false
	}
	r.fn = of
	maps := []string{
		"##:##:#:-;##:#:#:-;#:#:#:i;##:##:#:o;#:#:#:-",
		"##:##:#:-;;;##;:##",
		"#:##:#:-;:#:;::#;:::o;##:#",
		"#:#:#;:#:-1;#:#:#;;#",
		"##:##:#:-",
		"",
		";##:##:#",
		"#:####################:#;####################:#:#;#:#:####################;#:9223372036854775807:#;9223372036854775807:9223372036854775807:0",
		"#:-#:#;-#:#:#;#:#:-#",
	}
	lens := []int{0, 1, 2, 5, 36}
	srcs := []int{31, 12}
	var src []*T
	for i, n := range srcs {
		src = append(src, symsOf(fmt.Sprint("src", i), n))
	}
	for mi, m := range maps {
		text, digs := r.shape(fmt.Sprint("map", mi), m)
		for _, n := range lens {
			r.what = fmt.Sprintf("%d bytes of code with the source map %q", n, m)
			code := symsOf("code", n)
			var samples []sampleVals
			for k := 0; k < 14; k++ {
				v := sampleVals{}
				b := make([]byte, n)
				for i := range b {
					switch r.rng.Intn(5) {
					case 0:
						b[i] = 0x60 + byte(r.rng.Intn(3))
					case 1:
						b[i] = 0x60 + byte(r.rng.Intn(32))
					case 2:
						b[i] = []byte{0x5f, 0x80, 0x7f, 0x60, 0x00, 0xff}[r.rng.Intn(6)]
					default:
						b[i] = byte(r.rng.Intn(256))
					}
				}
				v.bytes(code, b)
				d := make([]byte, len(digs))
				for i := range d {
					d[i] = '0' + byte(r.rng.Intn(2+k%9))
				}
				digitSample(v, digs, string(d))
				for i, c := range src {
					s := make([]byte, srcs[i])
					r.rng.Read(s)
					v.bytes(c, s)
				}
				samples = append(samples, v)
			}
			if !r.cover(samples, func() (func() error, bool) {
				st := r.base.clone()
				cf := map[string]*T{"Code": r.x.newBytes(st, code, types.NewSlice(byteT)), "Sourcemap": mkString(text)}
				b := r.put(st, r.bundle, map[string]*T{
					"Sources":   r.strs(st, mkString(src[0]), mkString(src[1])),
					"Filenames": r.strs(st, constStr("a"), constStr("b")),
					"Contracts": r.list(st, r.contract, cf),
				})
				p := r.put(st, r.contract, cf)
				type res struct {
					pc int
					t  *T
				}
				var got []res
				// in an order that starts somewhere inside
				for i := -2; i <= n+2; i++ {
					pc := i
					if n > 2 {
						pc = (i+2+n/2)%(n+5) - 2
					}
					s2, rets, ok := r.call(st, of, b, p, mkInt(int64(pc)))
					if !ok {
						return nil, false
					}
					st = s2
					got = append(got, res{pc, rets[0]})
				}
				return func() error {
					cb, _ := r.text(code)
					mb, ok := r.text(text)
					var ss []string
					for _, c := range src {
						s, _ := r.text(c)
						ss = append(ss, s)
					}
					if !ok {
						return fmt.Errorf("unknown map")
					}
					for _, g := range got {
						if g.pc >= n && n > 0 && g.pc < n+33 {
							// inside data that is cut off: either way
							if cut(cb, g.pc) {
								continue
							}
						}
						s, l, f, ok := sourcePos([]byte(cb), mb, g.pc)
						want := sourceText(ss, s, l, f, ok)
						have, ok := r.text(strContent(g.t))
						if !ok {
							return fmt.Errorf("the source at %d is unknown: %s", g.pc, clip(g.t.String(), 200))
						}
						if have != want {
							return fmt.Errorf("with the map %q, the source of %x at %d is not %d bytes at %d of file %d", mb, cb, g.pc, l, s, f)
						}
					}
					return nil
				}, true
			}) {
				return false
			}
		}
	}
	return true
}

// cut: does the data of the last instruction end past pc?
func cut(code string, pc int) bool {
	for i := 0; i < len(code); {
		w := 1
		if code[i] >= 0x60 && code[i] < 0x80 {
			w += int(code[i]) - 0x5f
		}
		i += w
		if i > pc {
			return true
		}
	}
	return false
}

// ---- names ----

func (r *sourceRun) names() bool {
	find, sig, con := r.c.fn("", "(*CompiledContract).Find"), r.c.fn("", "(*ABIDescriptor).Signature"), r.c.fn("", "(*CompiledBundle).Contract")
	if find == nil || sig == nil || con == nil {
		return false
	}
	type d struct {
		name  string
		types []string
	}
	sigOf := func(x d) string { return x.name + "(" + strings.Join(x.types, ",") + ")" }
	lists := [][]d{
		{},
		{{"", nil}},
		{{"#", nil}, {"#", []string{"uint256"}}, {"##", []string{"uint256", "address"}}},
		{{"a#", []string{"uint#"}}, {"a#", []string{"uint#"}}, {"a", []string{"uint##", "bytes"}}, {"a", []string{"uint##,bytes"}}},
		{{"f", []string{"uint256[]", "bytes32[#]"}}, {"f", []string{"uint256[]", "bytes32[#]", "string"}}, {"f", nil}},
	}
	for li, l := range lists {
		var syms []*T
		conv := func(key, s string) *T {
			c, ss := r.shape(key, s)
			syms = append(syms, ss...)
			return mkString(c)
		}
		var samples []sampleVals
		type ent struct{ f map[string]*T }
		var fs [][2]interface{}
		all := ""
		for i, x := range l {
			var ts []*T
			name := conv(fmt.Sprintf("n%d.%d", li, i), x.name)
			all += x.name
			for j, t := range x.types {
				ts = append(ts, conv(fmt.Sprintf("t%d.%d.%d", li, i, j), t))
				all += t
			}
			fs = append(fs, [2]interface{}{name, ts})
		}
		for k := 0; k < 12; k++ {
			b := make([]byte, len(syms))
			for i := range b {
				b[i] = '0' + byte(r.rng.Intn(2))
			}
			samples = append(samples, digitSample(nil, syms, string(b)))
		}
		// the descriptors at the sample that is set
		now := func() []string {
			v := make([]byte, len(syms))
			for i, s := range syms {
				n, _ := r.env.tryInt(s)
				v[i] = byte(n.Int64())
			}
			at := 0
			get := func(s string) string {
				n := strings.Count(s, "#")
				at += n
				return fill(s, string(v[at-n:at]))
			}
			var out []string
			for _, x := range l {
				y := d{name: get(x.name)}
				for _, t := range x.types {
					y.types = append(y.types, get(t))
				}
				out = append(out, sigOf(y))
			}
			return out
		}
		for _, q := range []string{"0()", "1()", "0(uint256)", "11(uint256,address)", "01(uint256,address)", "a0(uint1)", "a1(uint1)", "a(uint01,bytes)", "a(uint01, bytes)", "f(uint256[],bytes32[1])", "f()", "f", "", "()", "nothing()", "f(uint256[],bytes32[0],string)"} {
			r.what = fmt.Sprintf("finding %q", q)
			if !r.cover(samples, func() (func() error, bool) {
				st := r.base.clone()
				var es []map[string]*T
				for _, f := range fs {
					var ps []map[string]*T
					for j, t := range f[1].([]*T) {
						ps = append(ps, map[string]*T{"Type": t, "Name": constStr(fmt.Sprint("p", j))})
					}
					es = append(es, map[string]*T{"Name": f[0].(*T), "Inputs": r.list(st, r.param, ps...), "Type": constStr("function"),
						"Outputs": r.list(st, r.param, map[string]*T{"Type": constStr("bool")})})
				}
				abi := r.list(st, r.desc, es...)
				p := r.put(st, r.contract, map[string]*T{"ABI": abi, "Name": constStr("c")})
				st, rets, ok := r.call(st, find, p, constStr(q))
				if !ok {
					return nil, false
				}
				found := rets[0]
				var sigs []*T
				for i := range es {
					a := r.put(st, r.desc, es[i])
					_, rets, ok := r.call(st, sig, a)
					if !ok {
						return nil, false
					}
					sigs = append(sigs, rets[0])
				}
				return func() error {
					want := -1
					have := now()
					for i, s := range have {
						g, ok := r.text(strContent(sigs[i]))
						if !ok || g != s {
							return fmt.Errorf("the signature of %s is %q", s, g)
						}
						if s == q && want < 0 {
							want = i
						}
					}
					if want < 0 {
						if !found.isNil() {
							return fmt.Errorf("it is found among %q", have)
						}
						return nil
					}
					if found.isNil() {
						return fmt.Errorf("it is not found among %q", have)
					}
					n, ok := r.text(strContent(r.x.fieldVal(st, found, r.desc, "Name")))
					if k, isN := cLen(r.x.content(st, r.x.fieldVal(st, found, r.desc, "Inputs"))).i64(); !ok || n != q[:strings.IndexByte(q, '(')] || !isN || int(k) != len(l[want].types) {
						return fmt.Errorf("another one, %q, is found among %q", n, have)
					}
					// what is found is the contract's own
					if root := rootOf(found); root != abi.args[0] {
						return fmt.Errorf("a copy is found")
					}
					return nil
				}, true
			}) {
				return false
			}
		}
	}
	// contracts by name
	for _, q := range []string{"a", "b", "ab", "", "c"} {
		name := symsOf("cname", 2)
		r.what = fmt.Sprintf("the contract %q", q)
		var samples []sampleVals
		for _, s := range []string{"ab", "ba", "aa", "b0"} {
			samples = append(samples, sampleVals{}.bytes(name, []byte(s)))
		}
		if !r.cover(samples, func() (func() error, bool) {
			st := r.base.clone()
			p := r.put(st, r.bundle, map[string]*T{"Contracts": r.list(st, r.contract,
				map[string]*T{"Name": mkString(cSub(name, mkInt(0), mkInt(1))), "Sourcemap": constStr("0")},
				map[string]*T{"Name": mkString(name), "Sourcemap": constStr("1")},
				map[string]*T{"Name": constStr("b"), "Sourcemap": constStr("2")})})
			st, rets, ok := r.call(st, con, p, constStr(q))
			if !ok {
				return nil, false
			}
			return func() error {
				n, _ := r.text(name)
				want := -1
				for i, s := range []string{n[:1], n, "b"} {
					if s == q && want < 0 {
						want = i
					}
				}
				if want < 0 || rets[0].isNil() {
					if want >= 0 || !rets[0].isNil() {
						return fmt.Errorf("among %q, %q and \"b\" it is %s", n[:1], n, clip(rets[0].String(), 40))
					}
					return nil
				}
				g, _ := r.text(strContent(r.x.fieldVal(st, rets[0], r.contract, "Name")))
				m, _ := r.text(strContent(r.x.fieldVal(st, rets[0], r.contract, "Sourcemap")))
				// several of a name: any of them
				if g != q || m == "1" && n != q {
					return fmt.Errorf("among %q, %q and \"b\" it is %q", n[:1], n, g)
				}
				return nil
			}, true
		}) {
			return false
		}
	}
	return true
}

// ---- metadata ----

func metaHash(b []byte) []byte {
	if len(b) < 43 {
		return nil
	}
	s := b[len(b)-43:]
	if !bytes.HasPrefix(s, []byte("\xa1\x65bzzr0\x58\x20")) || !bytes.HasSuffix(s, []byte("\x00\x29")) {
		return nil
	}
	return s[9:41]
}

func (r *sourceRun) metadata() bool {
	hash, strip := r.c.fn("", "MetadataHash"), r.c.fn("", "StripBytecode")
	if hash == nil || strip == nil {
		return false
	}
	for _, n := range []int{0, 1, 2, 9, 32, 41, 42, 43, 44, 86, 100} {
		r.what = fmt.Sprintf("the metadata of %d bytes", n)
		code := symsOf("meta", n)
		var samples []sampleVals
		add := func(b []byte) { samples = append(samples, sampleVals{}.bytes(code, b)) }
		rnd := make([]byte, n)
		r.rng.Read(rnd)
		add(rnd)
		if n >= 43 {
			good := append([]byte{}, rnd...)
			copy(good[n-43:], "\xa1\x65bzzr0\x58\x20")
			copy(good[n-2:], "\x00\x29")
			add(good)
			for _, i := range []int{0, 1, 2, 5, 6, 7, 8, 41, 42} {
				b := append([]byte{}, good...)
				b[n-43+i] ^= 1
				add(b)
			}
			// metadata that is not at the end
			if n > 50 {
				b := append([]byte{}, rnd...)
				copy(b[n-44:], good[n-43:])
				add(b)
			}
		}
		if !r.cover(samples, func() (func() error, bool) {
			st := r.base.clone()
			p := r.x.newBytes(st, code, types.NewSlice(byteT))
			s2, h, ok := r.call(st, hash, p)
			if !ok {
				return nil, false
			}
			s3, s, ok := r.call(st, strip, p)
			if !ok {
				return nil, false
			}
			return func() error {
				b, _ := r.text(code)
				want := metaHash([]byte(b))
				got, ok := r.env.tryBytes(r.x.content(s2, h[0]))
				if !ok || !bytes.Equal(got, want) || (want == nil) != h[0].isNil() {
					return fmt.Errorf("the hash in %x is %x", b, got)
				}
				rest := b
				if want != nil {
					rest = b[:n-43]
				}
				got, ok = r.env.tryBytes(r.x.content(s3, s[0]))
				if !ok || string(got) != rest {
					return fmt.Errorf("without metadata, %x is %x", b, got)
				}
				for _, st := range []*State{s2, s3} {
					if g, ok := r.text(r.x.content(st, p)); !ok || g != b {
						return fmt.Errorf("the code is changed")
					}
				}
				return nil
			}, true
		}) {
			return false
		}
	}
	return true
}
