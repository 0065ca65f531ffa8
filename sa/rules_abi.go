package main

// C09: the contract ABI encoding of calls.

import (
	"bytes"
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// evalPath finds the path an assignment takes
func evalPath(r *Result, env *evalEnv) (*Path, string) {
	var found *Path
	for _, p := range r.Paths {
		ok := true
		for _, f := range p.Facts {
			v, known := env.tryBool(f)
			if !known {
				return nil, "a condition is not determined: " + clip(env.why(f), 200)
			}
			if !v {
				ok = false
				break
			}
		}
		if ok {
			if found != nil {
				return nil, "two paths are possible"
			}
			found = p
		}
	}
	if found == nil {
		return nil, "no path is possible"
	}
	return found, ""
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// an argument of a call: its Go type and the sizes of its parts
type abiArg struct {
	kind string // address, int, data, bytes, ints, addrs, datas
	n    []int
}

func (a abiArg) String() string {
	if a.kind == "address" || a.kind == "int" {
		return a.kind
	}
	return strings.ReplaceAll(fmt.Sprintf("%s%v", a.kind, a.n), " ", ",")
}

var abiGo = map[string]string{"address": "Address", "int": "Int", "data": "Data", "bytes": "Bytes", "ints": "IntSlice", "addrs": "AddrSlice", "datas": "DataSlice"}

func (a abiArg) dynamic() bool {
	return a.kind == "bytes" || a.kind[len(a.kind)-1] == 's' && a.kind != "address"
}

// the Solidity type an argument of this kind is declared with
func (a abiArg) sol(i int) string {
	switch a.kind {
	case "address":
		return "address"
	case "int":
		return []string{"uint256", "int256", "uint", "int", "uint8", "int64"}[i%6]
	case "data":
		return "bytes32"
	case "bytes":
		return "bytes"
	case "ints":
		return []string{"uint256[]", "int256[]"}[i%2]
	case "addrs":
		return "address[]"
	}
	return "bytes32[]"
}

// a value with unknown parts
type abiVal struct {
	abiArg
	ints  []*T
	bytes [][]*T
}

// build makes the unknown value of one argument
func (x *Exec) abiBuild(st *State, a abiArg, name string, t types.Type) (*T, *abiVal) {
	v := &abiVal{abiArg: a}
	p := x.newAlloc("arg", t)
	mkBytes := func(n int, i int, typ types.Type) *T {
		b := byteSyms(n, fmt.Sprintf("%s.%d.", name, i))
		if n > 200 {
			// only the ends are unknown
			for j := 8; j < n-8; j++ {
				b[j] = mkInt(int64(j % 251))
			}
		}
		v.bytes = append(v.bytes, b)
		if typ == nil {
			return cVec(b...)
		}
		if n == 0 {
			return mkNil()
		}
		return x.newBytes(st, cVec(b...), typ)
	}
	slice := func(el []*T) *T {
		if len(el) == 0 {
			return mkNil()
		}
		return x.newBytes(st, cVec(el...), t)
	}
	var el []*T
	var val *T
	switch a.kind {
	case "address":
		val = mkBytes(20, 0, nil)
	case "int":
		val = mk("sym", name+".int", t)
		v.ints = []*T{val}
	case "data", "bytes":
		val = mkBytes(a.n[0], 0, t)
	case "ints":
		et := t.Underlying().(*types.Slice).Elem()
		for i := 0; i < a.n[0]; i++ {
			e := mk("sym", fmt.Sprintf("%s.int%d", name, i), et)
			v.ints = append(v.ints, e)
			el = append(el, e)
		}
		val = slice(el)
	case "addrs":
		for i := 0; i < a.n[0]; i++ {
			el = append(el, mkBytes(20, i, nil))
		}
		val = slice(el)
	case "datas":
		et := t.Underlying().(*types.Slice).Elem()
		for i, n := range a.n {
			el = append(el, mkBytes(n, i, et))
		}
		val = slice(el)
	}
	x.store(st, p, val, t)
	return mkIface(types.NewPointer(t), p), v
}

func abiPadLeft(b []byte) []byte { return append(make([]byte, 32-len(b)), b...) }
func abiPadRight(b []byte) []byte {
	return append(append([]byte{}, b...), make([]byte, (32-len(b)%32)%32)...)
}

var two256 = new(big.Int).Lsh(big.NewInt(1), 256)

// the word of an integer; nil if it has none
func abiWord(v *big.Int) []byte {
	if v.Sign() < 0 {
		v = new(big.Int).Add(v, two256)
		if v.Sign() < 0 || v.BitLen() < 256 {
			return nil
		}
	}
	if v.BitLen() > 256 {
		return nil
	}
	return abiPadLeft(v.Bytes())
}

// spec: the encoding of the argument's own words; nil if it has none
func (v *abiVal) spec(ints map[*T]*big.Int, bs map[*T]byte) []byte {
	out := []byte{}
	for _, t := range v.ints {
		w := abiWord(ints[t])
		if w == nil {
			return nil
		}
		out = append(out, w...)
	}
	for _, b := range v.bytes {
		val := []byte{}
		for _, s := range b {
			val = append(val, bs[s])
		}
		switch v.kind {
		case "address", "addrs":
			out = append(out, abiPadLeft(val)...)
		case "bytes":
			out = append(out, abiPadRight(val)...)
		default:
			if len(val) > 32 {
				return nil
			}
			out = append(out, append(val, make([]byte, 32-len(val))...)...)
		}
	}
	return out
}

func (v *abiVal) count() int {
	switch v.kind {
	case "datas":
		return len(v.n)
	}
	return v.n[0]
}

func abiCall(vals []*abiVal, ints map[*T]*big.Int, bs map[*T]byte) []byte {
	head, tail := []byte{}, []byte{}
	for _, v := range vals {
		s := v.spec(ints, bs)
		if s == nil {
			return nil
		}
		if v.dynamic() {
			head = append(head, abiPadLeft(big.NewInt(int64(32*len(vals)+len(tail))).Bytes())...)
			tail = append(tail, abiPadLeft(big.NewInt(int64(v.count())).Bytes())...)
			tail = append(tail, s...)
		} else {
			head = append(head, s...)
		}
	}
	return append(head, tail...)
}

// the numbers that are tried
func abiInts() (out []*big.Int) {
	for _, n := range []int64{0, 1, -1, 2, 127, 128, 255, 256, -128, -256} {
		out = append(out, big.NewInt(n))
	}
	for _, k := range []uint{15, 63, 64, 127, 128, 247, 248, 254, 255, 256, 257, 264, 300} {
		b := new(big.Int).Lsh(big.NewInt(1), k)
		for d := int64(-1); d <= 1; d++ {
			v := new(big.Int).Add(b, big.NewInt(d))
			out = append(out, v, new(big.Int).Neg(v))
		}
	}
	for k := uint(1); k < 32; k++ {
		b := make([]byte, k)
		for i := range b {
			b[i] = byte(0x91 + 7*i)
		}
		v := new(big.Int).SetBytes(b)
		out = append(out, v, new(big.Int).Neg(v))
	}
	return
}

func abiCases() (out [][]abiArg) {
	a := func(k string, n ...int) abiArg { return abiArg{k, n} }
	add := func(as ...abiArg) { out = append(out, as) }
	add()
	add(a("address"))
	add(a("int"))
	for _, n := range []int{0, 1, 2, 20, 31, 32, 33, 40} {
		add(a("data", n))
	}
	for _, n := range []int{0, 1, 2, 31, 32, 33, 63, 64, 65, 96, 100} {
		add(a("bytes", n))
	}
	for n := 0; n < 5; n++ {
		add(a("ints", n))
		add(a("addrs", n))
	}
	add(a("datas"))
	add(a("datas", 32))
	add(a("datas", 0))
	add(a("datas", 5, 0, 32))
	add(a("datas", 32, 33))
	base := []abiArg{a("address"), a("int"), a("data", 32), a("bytes", 5), a("ints", 2), a("addrs", 1), a("datas", 3, 32)}
	for _, p := range base {
		for _, q := range base {
			add(p, q)
		}
	}
	add(a("bytes", 0), a("bytes", 33), a("bytes", 32))
	add(a("ints", 0), a("address"), a("ints", 3))
	add(a("address"), a("int"), a("bytes", 1), a("int"))
	add(a("addrs", 3), a("ints", 2), a("address"), a("data", 7), a("bytes", 40))
	add(a("int"), a("int"), a("int"))
	add(a("bytes", 300), a("bytes", 3))
	add(a("bytes", 65600), a("ints", 1))
	add(a("addrs", 258))
	add(a("bytes", 4), a("address"), a("bytes", 65))
	add(a("int"), a("address"), a("address"), a("data", 1), a("int"), a("bytes", 1), a("address"), a("bytes", 2), a("address"))
	return
}

func init() {
	checks["C09"] = &CheckDef{
		title:     "Calls are encoded as the contract ABI prescribes",
		technique: "static abstract interpretation over SSA with value numbering and constant-trip-count unrolling; finite-domain evaluation of the summary terms against the specification",
		explanation: "ABIEncode and CallOpts.EncodeCall are interpreted on signatures and argument lists of given shapes (every argument type alone in several sizes, all pairs of types, some longer lists) whose contents are unknown integers and bytes. " +
			"The content term of the result is compared with the specified encoding for the edges of the integers' ranges and for changes of every byte; values without an encoding have to panic.",
		assumptions: []string{"math/big and encoding/binary behave as documented", "the keccak package computes Keccak-256", "parts are varied one at a time"},
		min:         60,
		run:         runABIEncode,
	}
}

func runABIEncode(c *Check) {
	enc, ec := c.fn("", "ABIEncode"), c.fn("", "(*CallOpts).EncodeCall")
	if enc == nil || ec == nil {
		return
	}
	typs := map[string]types.Type{}
	for k, n := range abiGo {
		t := c.typ("", n)
		if t == nil {
			return
		}
		typs[k] = t
	}
	for i, as := range abiCases() {
		c.abiCase(enc, false, as, i, typs)
		if i%9 == 0 {
			c.abiCase(ec, true, as, i, typs)
		}
	}
}

// abiInterp interprets the encoder on the signature and arguments
func (c *Check) abiInterp(fn *ssa.Function, call bool, sig string, as []abiArg, typs map[string]types.Type) (*Result, []*abiVal, *T, error) {
	var vals []*abiVal
	var opts *T
	r, err := c.w.AnalyzeWith(fn, func(x *Exec) {
		x.ifConvert = true
		x.unrollMax = 300
		x.unrollStates = 100
		x.maxSteps = 600000
	}, func(x *Exec, st *State, args []*T) {
		var el []*T
		for i, a := range as {
			e, v := x.abiBuild(st, a, fmt.Sprintf("a%d", i), typs[a.kind])
			el = append(el, e)
			vals = append(vals, v)
		}
		k := 0
		if call {
			ot := deref(fn.Params[0].Type())
			opts = x.newAlloc("opts", ot)
			args[0] = opts
			k = 1
		}
		args[k] = constStr(sig)
		if len(el) == 0 {
			args[k+1] = mkNil()
		} else {
			args[k+1] = x.newBytes(st, cVec(el...), fn.Params[k+1].Type())
		}
	})
	return r, vals, opts, err
}

func (c *Check) abiCase(fn *ssa.Function, call bool, as []abiArg, no int, typs map[string]types.Type) {
	var sol []string
	for i, a := range as {
		sol = append(sol, a.sol(no+i))
	}
	sig := fmt.Sprintf("fn%d(%s)", no, strings.Join(sol, ","))
	what := fmt.Sprintf("%s with %v", sig, as)
	cons := fnName(fn) + "/" + what
	r, vals, opts, err := c.abiInterp(fn, call, sig, as, typs)
	if err != nil {
		c.bad("analysis", cons, fn.Pos(), "%s: the function could not be analysed: %v", what, err)
		return
	}
	ints := map[*T]*big.Int{}
	bs := map[*T]byte{}
	var is, ys []*T
	for _, v := range vals {
		for _, t := range v.ints {
			ints[t] = big.NewInt(int64(1000 + len(is)))
			is = append(is, t)
		}
		for _, b := range v.bytes {
			for _, s := range b {
				if n, ok := s.i64(); ok {
					bs[s] = byte(n)
					continue
				}
				bs[s] = byte(0x11 + 3*len(ys))
				ys = append(ys, s)
			}
		}
	}
	fine := true
	check := func() {
		if !fine {
			return
		}
		env := newEnv()
		for t, v := range ints {
			env.sym[t] = v
		}
		for t, v := range bs {
			env.sym[t] = byteVals[v]
		}
		desc := func() string {
			s := ""
			for _, t := range is {
				s += " " + ints[t].String()
			}
			return what + ", integers" + s
		}
		want := abiCall(vals, ints, bs)
		p, why := evalPath(r, env)
		if p == nil {
			fine = false
			c.bad("decides", cons, fn.Pos(), "%s: %s", desc(), why)
			return
		}
		if want == nil {
			if p.Kind == "return" {
				fine = false
				c.bad("overflow", cons, p.Pos, "%s: a value that has no encoding is encoded", desc())
			}
			return
		}
		if p.Kind != "return" {
			fine = false
			c.bad("encoding", cons, p.Pos, "%s: the encoder panics", desc())
			return
		}
		var out *T
		if call {
			d := fieldAddrOf(opts, deref(fn.Params[0].Type()), "Data")
			if d == nil {
				fine = false
				c.bad("anchor", "seth.CallOpts.Data", fn.Pos(), "a call has no data")
				return
			}
			out = r.X.content(p.St, r.X.load(p.St, d, deref(d.typ)))
		} else {
			out = r.X.content(p.St, p.Ret[0])
		}
		n, ok := env.tryInt(cLen(out))
		if !ok || n.Cmp(big.NewInt(int64(4+len(want)))) != 0 {
			fine = false
			c.bad("encoding", cons, p.Pos, "%s: the encoding has %v bytes, not %d", desc(), n, 4+len(want))
			return
		}
		h := keccakSum([]byte(sig))
		want = append(append([]byte{}, h[:4]...), want...)
		got, ok := env.tryBytes(out)
		if !ok {
			fine = false
			c.bad("decides", cons, p.Pos, "%s: the encoding is not determined: %s", desc(), clip(env.why(out)+" | "+out.String(), 900))
		} else if !bytes.Equal(got[:4], want[:4]) {
			fine = false
			c.bad("selector", cons, p.Pos, "%s: the call does not start with the first four bytes of the hash of the signature", desc())
		} else if !bytes.Equal(got, want) {
			fine = false
			c.bad("encoding", cons, p.Pos, "%s: the arguments are encoded as %x, not %x", desc(), got[4:], want[4:])
		}
	}
	check()
	for _, t := range is {
		old := ints[t]
		for _, v := range abiInts() {
			ints[t] = v
			check()
		}
		ints[t] = old
	}
	for _, t := range ys {
		old := bs[t]
		for _, v := range []byte{0, 1, 0x80, 0xff} {
			bs[t] = v
			check()
		}
		bs[t] = old
	}
	c.ob("encoding", cons, fn.Pos(), fine, "%s: the call is not encoded as prescribed", what)
}

// C11: arguments that do not fit the signature

func init() {
	checks["C11"] = &CheckDef{
		title:     "Calls whose arguments do not fit the signature are refused",
		technique: "static abstract interpretation over SSA with constant folding of the signature text; decision table over argument types",
		explanation: "ABIEncode and CallOpts.EncodeCall are interpreted on signature texts and argument lists: every argument type for every declared type (alone, second of two, last of three), missing and surplus arguments, and malformed signatures. " +
			"Combinations the documentation calls wrong must end in a panic on every path; the matching ones must return on every path.",
		assumptions: []string{"the string functions of the standard library, evaluated on constant text, behave as documented"},
		min:         200,
		run:         runTypecheck,
	}
}

func runTypecheck(c *Check) {
	enc, ec := c.fn("", "ABIEncode"), c.fn("", "(*CallOpts).EncodeCall")
	if enc == nil || ec == nil {
		return
	}
	typs := map[string]types.Type{}
	for k, n := range abiGo {
		t := c.typ("", n)
		if t == nil {
			return
		}
		typs[k] = t
	}
	vals := []abiArg{{"address", nil}, {"int", nil}, {"data", []int{4}}, {"bytes", []int{3}}, {"ints", []int{1}}, {"addrs", []int{1}}, {"datas", []int{2}}}
	// what fits: 1 has to be accepted, -1 has to be refused, 0 unspecified
	fits := func(sol, kind string) int {
		b := func(ok bool) int {
			if ok {
				return 1
			}
			return -1
		}
		switch sol {
		case "address":
			return b(kind == "address")
		case "uint", "uint256", "int", "int256":
			return b(kind == "int")
		case "bytes32":
			return b(kind == "data" || kind == "int")
		case "uint256[]", "int256[]", "address[]", "bytes32[]":
			if kind == abiFor[sol] {
				return 1
			}
			if kind == "address" || kind == "int" || kind == "data" {
				return -1
			}
		case "bytes", "string":
			if kind == "bytes" {
				return 1
			}
		}
		return 0
	}
	try := func(fn *ssa.Function, call bool, sig string, want int, as ...abiArg) {
		if want == 0 {
			return
		}
		cons := fmt.Sprintf("%s/%s with %v", fnName(fn), sig, as)
		r, avs, _, err := c.abiInterp(fn, call, sig, as, typs)
		if err != nil {
			c.bad("analysis", cons, fn.Pos(), "%s: the function could not be analysed: %v", cons, err)
			return
		}
		env := newEnv()
		for _, v := range avs {
			for _, t := range v.ints {
				env.sym[t] = big.NewInt(7)
			}
			for _, b := range v.bytes {
				for _, s := range b {
					env.sym[s] = byteVals[5]
				}
			}
		}
		p, why := evalPath(r, env)
		if p == nil {
			c.bad("decides", cons, fn.Pos(), "%s: %s", cons, why)
			return
		}
		if want > 0 {
			c.ob("accepts", cons, p.Pos, p.Kind == "return", "%s: fitting arguments are refused", cons)
			return
		}
		for _, p := range r.Paths {
			c.ob("refuses", cons, p.Pos, p.Kind == "panic", "%s: arguments that do not fit are encoded", cons)
		}
	}
	sols := []string{"address", "uint", "uint256", "int", "int256", "bytes32", "uint256[]", "int256[]", "address[]", "bytes32[]", "bytes", "string"}
	A, I := vals[0], vals[1]
	for _, s := range sols {
		for _, v := range vals {
			f := fits(s, v.kind)
			try(enc, false, "f("+s+")", f, v)
			try(enc, false, "transfer(address,"+s+")", f, A, v)
			try(enc, false, "transfer("+s+",uint256)", f, v, I)
			try(enc, false, "g(uint256,address,"+s+")", f, I, A, v)
			try(ec, true, "f("+s+")", f, v)
		}
	}
	no := func(sig string, as ...abiArg) {
		try(enc, false, sig, -1, as...)
		try(ec, true, sig, -1, as...)
	}
	try(enc, false, "f()", 1)
	try(ec, true, "f()", 1)
	no("f()", A)
	no("f()", A, I)
	for _, s := range sols {
		no("f(" + s + ")")
		no("f("+s+")", A, I)
		no("f("+s+",address)", A)
		no("f(address,"+s+")", A)
		no("f(address," + s + ")")
		no("f("+s+",address,uint256)", A, I)
	}
	no("f(address,uint256)", I, A)
	no("f(address,uint256)", A, A)
	no("f(uint256,address,bytes32)", A, I, vals[2])
	// malformed signatures
	no("f")
	no("")
	no("f", A)
	no("f(")
	no("f)")
	no("f(address", A)
	no("faddress)", A)
	no("f(address)x", A)
	no("f(address)()", A)
	no("f(address);", A)
	no("f(address )", A)
	no("f( address)", A)
	no("f (address)", A)
	no("f(address, uint256)", A, I)
	for _, ch := range "\t\n-+/~!@#$%^&*=|;:\"<>?\\" {
		no("f"+string(ch)+"(address)", A)
		no("f(address"+string(ch)+")", A)
	}
}

var abiFor = map[string]string{"uint256[]": "ints", "int256[]": "ints", "address[]": "addrs", "bytes32[]": "datas"}
