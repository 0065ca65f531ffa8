package main

// Models of library functions the analysed code calls. Anything not listed
// is an opaque call: fresh results, and everything it can reach forgotten.

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(fr *frame, st *State, fn *ssa.Function, args []*T, pos token.Pos) []outcome

// ---- big integers as terms ----

func bigConst(b *big.Int) *T {
	t := mk("bigc", b.String(), nil)
	t.obj = new(big.Int).Set(b)
	return t
}

func bigOf(t *T) (*big.Int, bool) {
	if t.op != "bigc" {
		return nil, false
	}
	b, ok := new(big.Int).SetString(t.aux, 10)
	return b, ok
}

func bigFn(op string, args ...*T) *T {
	var cs []*big.Int
	for _, a := range args {
		if c, ok := bigOf(a); ok {
			cs = append(cs, c)
		} else {
			cs = nil
			break
		}
	}
	if cs != nil && len(cs) == len(args) {
		r := new(big.Int)
		switch op {
		case "add":
			return bigConst(r.Add(cs[0], cs[1]))
		case "sub":
			return bigConst(r.Sub(cs[0], cs[1]))
		case "mul":
			return bigConst(r.Mul(cs[0], cs[1]))
		case "neg":
			return bigConst(r.Neg(cs[0]))
		case "not":
			return bigConst(r.Not(cs[0]))
		case "div":
			if cs[1].Sign() != 0 {
				return bigConst(r.Div(cs[0], cs[1]))
			}
		case "mod":
			if cs[1].Sign() != 0 {
				return bigConst(r.Mod(cs[0], cs[1]))
			}
		case "quo":
			if cs[1].Sign() != 0 {
				return bigConst(r.Quo(cs[0], cs[1]))
			}
		case "rem":
			if cs[1].Sign() != 0 {
				return bigConst(r.Rem(cs[0], cs[1]))
			}
		case "exp":
			if cs[2].Sign() == 0 && cs[1].BitLen() < 12 || cs[2].Sign() != 0 {
				return bigConst(r.Exp(cs[0], cs[1], cs[2]))
			}
		}
	}
	switch op {
	case "add", "mul", "and", "or", "xor":
		if args[0].id > args[1].id {
			args = []*T{args[1], args[0]}
		}
	}
	switch op {
	case "add":
		if args[0].op == "bigc" && args[0].aux == "0" {
			return args[1]
		}
		if args[1].op == "bigc" && args[1].aux == "0" {
			return args[0]
		}
	case "sub":
		if args[1].op == "bigc" && args[1].aux == "0" {
			return args[0]
		}
	case "abs":
		if args[0].op == "big" && (args[0].aux == "ofbytes" || args[0].aux == "mod" || args[0].aux == "abs") {
			return args[0]
		}
	}
	return mk("big", op, nil, args...)
}

func bigOfInt(v *T) *T {
	if c, ok := v.intVal(); ok {
		return bigConst(c)
	}
	return mk("big", "ofint", nil, v)
}

func bigSign(v *T) *T {
	if c, ok := bigOf(v); ok {
		return mkInt(int64(c.Sign()))
	}
	return pure("big.sign", intT, v)
}

func bigCmp(a, b *T) *T {
	if x, ok := bigOf(a); ok {
		if y, ok := bigOf(b); ok {
			return mkInt(int64(x.Cmp(y)))
		}
	}
	if a == b {
		return mkInt(0)
	}
	if b.op == "bigc" && b.aux == "0" {
		return bigSign(a)
	}
	if a.op == "bigc" && a.aux == "0" {
		return mkSub(mkInt(0), bigSign(b), intT)
	}
	if a.id > b.id {
		return mkSub(mkInt(0), pure("big.cmp", intT, b, a), intT)
	}
	return pure("big.cmp", intT, a, b)
}

func bigBytes(v *T) *T {
	if c, ok := bigOf(v); ok {
		return cLit(string(c.Bytes()))
	}
	return mk("fn", "big.bytes", nil, v)
}

var bigT types.Type

func (x *Exec) bigVal(st *State, p *T) *T {
	if p.isNil() {
		return bigConst(new(big.Int))
	}
	if x.words != nil {
		x.words.inModel = true
		defer func() { x.words.inModel = false }()
	}
	return x.load(st, p, x.bigType())
}

func (x *Exec) bigType() types.Type {
	if bigT == nil {
		for _, p := range x.w.prog.AllPackages() {
			if p.Pkg.Path() == "math/big" {
				bigT = p.Pkg.Scope().Lookup("Int").Type()
			}
		}
	}
	return bigT
}

func (x *Exec) setBig(st *State, p, v *T) {
	if x.words != nil {
		x.words.inModel = true
		defer func() { x.words.inModel = false }()
	}
	x.store(st, p, v, x.bigType())
}

func (x *Exec) newBig(st *State, v *T) *T {
	a := x.newAlloc("big", x.bigType())
	x.setBig(st, a, v)
	return a
}

func (x *Exec) err(tag string, args ...*T) *T {
	x.nsym++
	return mk("err", tag+"#"+strconv.Itoa(x.nsym), nil, args...)
}

// two outcomes, one per truth value of c
func (x *Exec) branch(st *State, c *T, yes, no func(st *State) []*T) []outcome {
	switch x.decide(st, c) {
	case 1:
		return one(st, yes(st)...)
	case -1:
		return one(st, no(st)...)
	}
	s2 := st.clone()
	x.assume(st, c)
	x.assume(s2, mkNot(c))
	return []outcome{{st: st, rets: yes(st)}, {st: s2, rets: no(s2)}}
}

func isZeroInt(t *T) bool { v, ok := t.i64(); return ok && v == 0 }

func (x *Exec) model(fn *ssa.Function, name string) model {
	if m := x.bigModel(name); m != nil {
		return m
	}
	if m := x.bufferModel(name); m != nil && fn != nil {
		return m
	}
	if m := x.spongeModel(fn, name); m != nil {
		return m
	}
	bytesT := types.NewSlice(byteT)
	c0 := func(st *State, v *T) *T { // content of a []byte or string argument
		if v.isConst() || v.op == "string" || isStringT(v.typ) {
			return strContent(v)
		}
		return x.content(st, v)
	}
	pureStr := func(nm string, n int) model {
		return func(fr *frame, st *State, fn *ssa.Function, args []*T, pos token.Pos) []outcome {
			return one(st, pure(nm, fn.Signature.Results().At(0).Type(), args...))
		}
	}
	switch name {
	case "bytes.Equal":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			return one(st, contentEq(c0(st, a[0]), c0(st, a[1])))
		}
	case "bytes.Compare":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			return one(st, cmpContent(c0(st, a[0]), c0(st, a[1])))
		}
	case "bytes.HasPrefix", "strings.HasPrefix":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			c := hasPrefix(c0(st, a[0]), c0(st, a[1]))
			return one(st, c)
		}
	case "strings.HasSuffix", "bytes.HasSuffix":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			s, p := c0(st, a[0]), c0(st, a[1])
			c := mkAnd(leT(cLen(p), cLen(s)), contentEq(cSub(s, minus(cLen(s), cLen(p)), cLen(p)), p))
			return one(st, c)
		}
	case "strings.TrimPrefix":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			s, p := strContent(a[0]), strContent(a[1])
			return x.branch(st, hasPrefix(s, p), func(st *State) []*T {
				return []*T{mkString(cSub(s, cLen(p), minus(cLen(s), cLen(p))))}
			}, func(st *State) []*T { return []*T{a[0]} })
		}
	case "strings.TrimSuffix":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			s, p := strContent(a[0]), strContent(a[1])
			c := mkAnd(leT(cLen(p), cLen(s)), contentEq(cSub(s, minus(cLen(s), cLen(p)), cLen(p)), p))
			return x.branch(st, c, func(st *State) []*T {
				return []*T{mkString(cSub(s, mkInt(0), minus(cLen(s), cLen(p))))}
			}, func(st *State) []*T { return []*T{a[0]} })
		}
	case "strings.ToLower", "strings.ToUpper", "strings.Title", "strings.TrimSpace":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			if s, ok := a[0].str(); ok {
				switch name {
				case "strings.ToLower":
					return one(st, constStr(strings.ToLower(s)))
				case "strings.ToUpper":
					return one(st, constStr(strings.ToUpper(s)))
				}
			}
			return one(st, pure(name, strT(), a[0]))
		}
	case "bytes.TrimLeft", "strings.TrimLeft":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			t := mk("fn", "trimleft", nil, c0(st, a[0]), c0(st, a[1]))
			if b, ok := constBytes(t.args[0]); ok {
				if cut, ok := constBytes(t.args[1]); ok {
					t = cLit(string(bytes.TrimLeft(b, string(cut))))
				}
			}
			if t.op == "fn" {
				st.facts = st.facts.push(leT(cLen(t), cLen(t.args[0])))
			}
			if name == "strings.TrimLeft" {
				return one(st, mkString(t))
			}
			return one(st, x.newBytes(st, t, bytesT))
		}
	case "strings.Contains", "strings.ContainsAny":
		return pureStr(name, 2)
	case "strings.IndexByte", "strings.LastIndexByte", "bytes.IndexByte", "bytes.Index", "strings.Index":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			s := c0(st, a[0])
			k := a[1]
			if strings.HasSuffix(name, "Index") {
				k = c0(st, a[1])
			}
			r := pure(name, intT, s, k)
			st.facts = st.facts.push(leT(mkInt(-1), r))
			st.facts = st.facts.push(mkLt(r, cLen(s), intT))
			return one(st, r)
		}
	case "strings.Join":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			c := x.content(st, a[0])
			if c.op == "vec" {
				var p []*T
				for i, e := range c.args {
					if i > 0 {
						p = append(p, strContent(a[1]))
					}
					p = append(p, strContent(e))
				}
				return one(st, mkString(cCat(p...)))
			}
			return one(st, pure(name, strT(), c, a[1]))
		}
	case "strings.Repeat":
		return pureStr(name, 2)
	case "strings.Split":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			c := mk("fn", "strings.Split", nil, a[0], a[1])
			st.facts = st.facts.push(leT(mkInt(1), cLen(c)))
			return one(st, x.newBytes(st, c, types.NewSlice(strT())))
		}
	case "strconv.Itoa":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			return one(st, mkString(fmtInt(a[0])))
		}
	case "strconv.FormatInt", "strconv.FormatUint":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			return one(st, mkString(fmtIntB(a[0], a[1])))
		}
	case "strconv.AppendInt":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			d := fmtIntB(a[1], a[2])
			return one(st, x.newBytes(st, cCat(x.content(st, a[0]), d), bytesT))
		}
	case "strconv.Atoi":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			ok := pure("isint", boolT(), a[0], mkInt(10), mkInt(0))
			return x.branch(st, ok, func(st *State) []*T { return []*T{pure("parseint", intT, a[0], mkInt(10)), mkNil()} },
				func(st *State) []*T {
					return []*T{pure("junkint", intT, a[0], mkInt(10), mkInt(64)), x.err("strconv.Atoi", a[0])}
				})
		}
	case "strconv.ParseInt", "strconv.ParseUint":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			u := "isint"
			if name == "strconv.ParseUint" {
				u = "isuint"
			}
			rt := fn.Signature.Results().At(0).Type()
			ok := pure(u, boolT(), a...)
			pn := "parse" + u[2:]
			return x.branch(st, ok, func(st *State) []*T { return []*T{pure(pn, rt, a[0], a[1]), mkNil()} },
				func(st *State) []*T { return []*T{pure("junk"+u[2:], rt, a...), x.err(name, a[0])} })
		}
	case "errors.New":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			return one(st, x.err("errors.New", a[0]))
		}
	case "fmt.Errorf":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			return one(st, x.err("fmt.Errorf", a[0], x.content(st, a[1])))
		}
	case "fmt.Sprintf":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			return one(st, x.sprintf(st, a[0], x.content(st, a[1])))
		}
	case "log.Printf", "log.Println", "log.Print", "fmt.Printf", "fmt.Println":
		if strings.HasPrefix(name, "log.") || x.ignorePrint {
			return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
				return one(st, x.freshResults(name, fn.Signature)...)
			}
		}
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			st.ev = st.ev.push(&Event{kind: "exit", name: name, args: a, pos: pos, fn: fr.fn, mem: st.mem, st: st.clone()})
			return []outcome{{st: st, panic: true, pos: pos}}
		}
	case "encoding/hex.EncodeToString":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			return one(st, mkString(hexEnc(x.content(st, a[0]))))
		}
	case "encoding/hex.Encode":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			e := hexEnc(x.content(st, a[1]))
			d := x.parts(a[0])
			x.oblige(fr, st, "hex.Encode", leT(cLen(e), d.len), pos)
			x.store(st, d.base, cSplice(x.load(st, d.base, nil), d.off, e), nil)
			return one(st, cLen(e))
		}
	case "encoding/hex.DecodedLen":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			return one(st, mk("quo", ikind{64, true}.String(), intT, a[0], mkInt(2)))
		}
	case "encoding/hex.EncodedLen":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			return one(st, mkMul(mkInt(2), a[0], intT))
		}
	case "encoding/hex.Decode":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			src := x.content(st, a[1])
			d := x.parts(a[0])
			ok := pure("ishex", boolT(), src)
			dec := mk("fn", "hexdec", nil, src)
			if b, isc := constBytes(src); isc {
				if v, err := hex.DecodeString(string(b)); err == nil {
					ok, dec = mkBool(true), cLit(string(v))
				}
			}
			half := mk("quo", ikind{64, true}.String(), intT, cLen(src), mkInt(2))
			if v, isc := cLen(src).i64(); isc {
				half = mkInt(v / 2)
			}
			x.oblige(fr, st, "hex.Decode", leT(half, d.len), pos)
			return x.branch(st, ok, func(st *State) []*T {
				x.store(st, d.base, cSplice(x.load(st, d.base, nil), d.off, dec), nil)
				return []*T{cLen(dec), mkNil()}
			}, func(st *State) []*T {
				x.forget(st, d.base)
				return []*T{x.fresh("hexn", intT), x.err("encoding/hex.Decode")}
			})
		}
	case "encoding/hex.DecodeString":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			src := strContent(a[0])
			if s, ok := a[0].str(); ok {
				if b, err := hex.DecodeString(s); err == nil {
					return one(st, x.newBytes(st, cLit(string(b)), bytesT), mkNil())
				}
			}
			ok := pure("ishex", boolT(), src)
			return x.branch(st, ok, func(st *State) []*T {
				return []*T{x.newBytes(st, mk("fn", "hexdec", nil, src), bytesT), mkNil()}
			}, func(st *State) []*T {
				return []*T{x.fresh("hexpart", bytesT), x.err("encoding/hex.DecodeString")}
			})
		}
	case "(encoding/binary.bigEndian).PutUint64", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint16", "(encoding/binary.littleEndian).PutUint64", "(encoding/binary.littleEndian).PutUint32":
		n := 8
		if strings.HasSuffix(name, "32") {
			n = 4
		} else if strings.HasSuffix(name, "16") {
			n = 2
		}
		tag := "be"
		if strings.Contains(name, "little") {
			tag = "le"
		}
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			d := x.parts(a[1])
			x.oblige(fr, st, "put", leT(mkInt(int64(n)), d.len), pos)
			var bs []*T
			for i := 0; i < n; i++ {
				k := i
				if tag == "le" {
					k = n - 1 - i
				}
				bs = append(bs, byteOf(a[2], n, k))
			}
			x.store(st, d.base, cSplice(x.load(st, d.base, nil), d.off, cVec(bs...)), nil)
			return one(st)
		}
	case "(encoding/binary.bigEndian).Uint64", "(encoding/binary.bigEndian).Uint32", "(encoding/binary.littleEndian).Uint32", "(encoding/binary.littleEndian).Uint64":
		n := int64(8)
		if strings.HasSuffix(name, "32") {
			n = 4
		}
		tag := "beuint"
		if strings.Contains(name, "little") {
			tag = "leuint"
		}
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			d := x.parts(a[1])
			x.oblige(fr, st, "get", leT(mkInt(n), d.len), pos)
			c := cSub(x.load(st, d.base, nil), d.off, mkInt(n))
			rt := fn.Signature.Results().At(0).Type()
			if v := uintOf(c, int(n), tag == "leuint", rt); v != nil {
				return one(st, v)
			}
			return one(st, pure(fmt.Sprintf("%s%d", tag, n*8), rt, c))
		}
	case "encoding/json.Marshal", "encoding/json.MarshalIndent":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			v := x.deep(st, a[0], nil, 0)
			if v.op == "iface" && v.aux == "bool" && v.args[0].isConst() && name == "encoding/json.Marshal" {
				return one(st, x.newBytes(st, cLit(fmt.Sprint(v.args[0].isTrue())), bytesT), mkNil())
			}
			ok := pure("jsonok", boolT(), v)
			if a[0].op == "iface" && x.w.jsonTotal(a[0].obj.(types.Type)) {
				ok = mkBool(true)
			}
			st.ev = st.ev.push(&Event{kind: "call", name: name, args: a, res: []*T{v}, pos: pos, fn: fr.fn, mem: st.mem, st: st.clone()})
			return x.branch(st, ok, func(st *State) []*T {
				return []*T{x.newBytes(st, mk("fn", "json", nil, v), bytesT), mkNil()}
			}, func(st *State) []*T {
				return []*T{mkNil(), x.err(name)}
			})
		}
	case "encoding/json.Unmarshal":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			data := x.content(st, a[0])
			e := &Event{kind: "call", name: name, args: []*T{data, a[1]}, pos: pos, fn: fr.fn, mem: st.mem, st: st.clone()}
			ok := pure("unjsonok", boolT(), data, mkStr(ifaceType(a[1])))
			er := x.err(name)
			e.res = []*T{er}
			st.ev = st.ev.push(e)
			x.fill(st, a[1])
			return x.branch(st, ok, func(st *State) []*T {
				x.unjson(st, a[1], data)
				return []*T{mkNil()}
			}, func(st *State) []*T { return []*T{er} })
		}
	case "encoding/json.NewDecoder", "encoding/json.NewEncoder", "bytes.NewReader", "strings.NewReader", "bytes.NewBuffer":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			v := a[0]
			if name == "bytes.NewReader" || name == "bytes.NewBuffer" {
				v = x.content(st, a[0])
			}
			x.nsym++
			t := mk("obj", name+"@"+strconv.Itoa(x.nsym), fn.Signature.Results().At(0).Type(), v)
			return one(st, t)
		}
	case "(*encoding/json.Decoder).Decode":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			er := x.fresh("ret."+name, fn.Signature.Results().At(0).Type())
			st.ev = st.ev.push(&Event{kind: "call", name: name, args: a, res: []*T{er}, pos: pos, fn: fr.fn, mem: st.mem, st: st.clone()})
			x.fill(st, a[1])
			return x.branch(st, mkEq(er, mkNil(), nil), func(st *State) []*T {
				return []*T{mkNil()}
			}, func(st *State) []*T { return []*T{er} })
		}
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(sync.Locker).Lock":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			st.ev = st.ev.push(&Event{kind: "lock", name: name, args: a, pos: pos, fn: fr.fn, mem: st.mem, st: st.clone()})
			x.havocShared(st)
			return one(st)
		}
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "(sync.Locker).Unlock":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			st.ev = st.ev.push(&Event{kind: "unlock", name: name, args: a, pos: pos, fn: fr.fn, mem: st.mem, st: st.clone()})
			return one(st)
		}
	case "(*sync.Once).Do":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			st2 := st.clone()
			out := one(st2)
			if a[1].op == "closure" || a[1].op == "func" {
				cf := a[1].obj.(*ssa.Function)
				if len(cf.Blocks) > 0 {
					out = append(out, x.runFunc(cf, nil, a[1].args, st)...)
				}
			}
			return out
		}
	case "path/filepath.Join":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			return one(st, pure(name, strT(), x.content(st, a[0])))
		}
	case "path/filepath.Dir", "path/filepath.Base":
		return pureStr(name, 1)
	case "net/url.QueryEscape":
		return pureStr(name, 1)
	}
	if fn != nil && x.modelExtra != nil {
		return x.modelExtra(fn, name)
	}
	return nil
}

func ifaceType(v *T) string {
	if v.op == "iface" {
		return v.aux
	}
	return "?" + v.String()
}

// unjson stores the decoded value where a pointer to it is known
func (x *Exec) unjson(st *State, target, data *T) {
	if target.op != "iface" {
		return
	}
	pt, ok := target.obj.(types.Type)
	if !ok {
		return
	}
	et := deref(pt)
	if et == nil {
		return
	}
	switch u := et.Underlying().(type) {
	case *types.Basic:
		x.store(st, target.args[0], pure("unjson", et, data), et)
	case *types.Struct:
		if isBig(et) {
			x.store(st, target.args[0], mk("big", "unjson", nil, data), et)
			return
		}
		if atomicType(et) {
			return
		}
		_ = u
	}
}

func fmtInt(v *T) *T {
	if c, ok := v.intVal(); ok {
		return cLit(c.String())
	}
	return mk("fn", "fmtint10", nil, v)
}

// fmtIntB is the text of v in a base
func fmtIntB(v, base *T) *T {
	b, ok := base.i64()
	if ok && b == 10 {
		return fmtInt(v)
	}
	if c, isc := v.intVal(); isc && ok && b >= 2 && b <= 36 {
		return cLit(c.Text(int(b)))
	}
	return mk("fn", "fmtint", nil, v, base)
}

func hexEnc(c *T) *T {
	if c.op == "vec" {
		all := true
		b := make([]byte, len(c.args))
		for i, a := range c.args {
			v, ok := a.i64()
			if !ok {
				all = false
				break
			}
			b[i] = byte(v)
		}
		if all {
			return cLit(hex.EncodeToString(b))
		}
	}
	if c.op == "fn" && c.aux == "hexdec" {
		return pureC("tolower", c.args[0])
	}
	return mk("fn", "hexenc", nil, c)
}

func pureC(name string, args ...*T) *T { return mk("fn", name, nil, args...) }

func byteOf(v *T, n, i int) *T {
	sh := uint(8 * (n - 1 - i))
	if c, ok := v.intVal(); ok {
		r := new(big.Int).Rsh(c, sh)
		r.And(r, big.NewInt(255))
		return mkConst(constant.Make(r), byteT)
	}
	t := v
	if sh > 0 {
		t = mk("shr", ikind{n * 8, false}.String(), v.typ, v, mkInt(int64(sh)))
	}
	return mk("conv", ikind{8, false}.String(), byteT, t)
}

// uintOf reads back what byteOf took apart
func uintOf(c *T, n int, le bool, typ types.Type) *T {
	b := make([]*T, n)
	r := new(big.Int)
	known := true
	for i := range b {
		k := i
		if le {
			k = n - 1 - i
		}
		b[i] = cSel(c, mkInt(int64(k)), byteT)
		v, ok := b[i].i64()
		known = known && ok
		if known {
			r.Or(r.Lsh(r, 8), big.NewInt(v&255))
		}
	}
	if known {
		return mkConst(constant.Make(r), typ)
	}
	if b[n-1].op != "conv" || len(b[n-1].args) != 1 {
		return nil
	}
	v := b[n-1].args[0]
	for i := range b {
		if b[i] != byteOf(v, n, i) {
			return nil
		}
	}
	if k, ok := kindOf(v.typ); !ok || k.bits != 8*n {
		return nil
	}
	return intConv(v, v.typ, typ)
}

func hasPrefix(s, p *T) *T {
	return mkAnd(leT(cLen(p), cLen(s)), contentEq(cSub(s, mkInt(0), cLen(p)), p))
}

func constBytes(c *T) ([]byte, bool) {
	n, ok := cLen(c).i64()
	if !ok || n > 1<<12 {
		return nil, false
	}
	b := make([]byte, n)
	for i := range b {
		v, ok := cSel(c, mkInt(int64(i)), byteT).i64()
		if !ok {
			return nil, false
		}
		b[i] = byte(v)
	}
	return b, true
}

func cmpContent(a, b *T) *T {
	if a == b {
		return mkInt(0)
	}
	if p, ok := constBytes(a); ok {
		if q, ok := constBytes(b); ok {
			return mkInt(int64(bytes.Compare(p, q)))
		}
	}
	if a.id > b.id {
		return mkSub(mkInt(0), pure("bytes.cmp", intT, b, a), intT)
	}
	return pure("bytes.cmp", intT, a, b)
}

// sprintf handles the verbs the code uses; anything else is a pure unknown
func (x *Exec) sprintf(st *State, f, args *T) *T {
	s, ok := f.str()
	if !ok || args.op != "vec" {
		return pure("sprintf", strT(), f, args)
	}
	var parts []*T
	k := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			j := i
			for j < len(s) && s[j] != '%' {
				j++
			}
			parts = append(parts, cLit(s[i:j]))
			i = j - 1
			continue
		}
		i++
		if i >= len(s) {
			return pure("sprintf", strT(), f, args)
		}
		if s[i] == '%' {
			parts = append(parts, cLit("%"))
			continue
		}
		if k >= len(args.args) {
			return pure("sprintf", strT(), f, args)
		}
		a := args.args[k]
		k++
		if a.op != "iface" {
			parts = append(parts, pureC("fmt%"+string(s[i]), x.deep(st, a, nil, 0)))
			if strings.IndexByte("svdxXqcptTeEfFgG", s[i]) < 0 {
				return pure("sprintf", strT(), f, args)
			}
			continue
		}
		typ := a.obj.(types.Type)
		v := a.args[0]
		_, named := typ.(*types.Named)
		hasMeth := named && types.NewMethodSet(typ).Len() > 0
		switch {
		case (s[i] == 's' || s[i] == 'v') && isStringT(typ) && !hasMeth:
			parts = append(parts, strContent(v))
		case (s[i] == 'd' || s[i] == 'v') && isIntType(typ) && !hasMeth:
			parts = append(parts, fmtInt(v))
		case s[i] == 'x' && isIntType(typ) && !hasMeth:
			parts = append(parts, fmtIntB(v, mkInt(16)))
		case s[i] == 'x' && isStringT(typ):
			parts = append(parts, hexEnc(strContent(v)))
		case s[i] == 'x' && !isIntType(typ) && !hasMeth:
			if sl, ok := typ.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), byteT) {
				parts = append(parts, hexEnc(x.content(st, v)))
				continue
			}
			parts = append(parts, pureC("fmt%x", x.deep(st, a, nil, 0)))
		case strings.IndexByte("svdxXqcptTeEfFgG", s[i]) >= 0:
			parts = append(parts, pureC("fmt%"+string(s[i]), x.deep(st, a, nil, 0)))
		default:
			return pure("sprintf", strT(), f, args)
		}
	}
	if k != len(args.args) {
		return pure("sprintf", strT(), f, args)
	}
	return mkString(cCat(parts...))
}

func (x *Exec) bigModel(name string) model {
	const p = "(*math/big.Int)."
	if name == "math/big.NewInt" {
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			return one(st, x.newBig(st, bigOfInt(a[0])))
		}
	}
	if !strings.HasPrefix(name, p) {
		return nil
	}
	m := name[len(p):]
	v := func(st *State, p *T) *T { return x.bigVal(st, p) }
	bin := func(op string) model {
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			r := bigFn(op, v(st, a[1]), v(st, a[2]))
			x.setBig(st, a[0], r)
			return one(st, a[0])
		}
	}
	un := func(op string) model {
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			x.setBig(st, a[0], bigFn(op, v(st, a[1])))
			return one(st, a[0])
		}
	}
	get := func(f func(st *State, val *T, a []*T) *T) model {
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			return one(st, f(st, v(st, a[0]), a))
		}
	}
	switch m {
	case "Add":
		return bin("add")
	case "Sub":
		return bin("sub")
	case "Mul":
		return bin("mul")
	case "And":
		return bin("and")
	case "Or":
		return bin("or")
	case "Xor":
		return bin("xor")
	case "Div", "Mod", "Quo", "Rem":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			d := v(st, a[2])
			x.oblige(fr, st, "bigdiv", mkNot(mkEq(bigSign(d), mkInt(0), intT)), pos)
			x.setBig(st, a[0], bigFn(strings.ToLower(m), v(st, a[1]), d))
			return one(st, a[0])
		}
	case "DivMod", "QuoRem":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			n, d := v(st, a[1]), v(st, a[2])
			x.oblige(fr, st, "bigdiv", mkNot(mkEq(bigSign(d), mkInt(0), intT)), pos)
			q, r := "div", "mod"
			if m == "QuoRem" {
				q, r = "quo", "rem"
			}
			x.setBig(st, a[0], bigFn(q, n, d))
			x.setBig(st, a[3], bigFn(r, n, d))
			return one(st, a[0], a[3])
		}
	case "ModInverse":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			x.setBig(st, a[0], bigFn("modinv", v(st, a[1]), v(st, a[2])))
			return one(st, a[0])
		}
	case "Exp":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			x.setBig(st, a[0], bigFn("exp", v(st, a[1]), v(st, a[2]), v(st, a[3])))
			return one(st, a[0])
		}
	case "Neg":
		return un("neg")
	case "Not":
		return un("not")
	case "Abs":
		return un("abs")
	case "Set":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			x.setBig(st, a[0], v(st, a[1]))
			return one(st, a[0])
		}
	case "SetInt64", "SetUint64":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			x.setBig(st, a[0], bigOfInt(a[1]))
			return one(st, a[0])
		}
	case "Lsh", "Rsh":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			b := v(st, a[1])
			if c, ok := bigOf(b); ok {
				if n, ok := a[2].i64(); ok && n < 4096 {
					if m == "Lsh" {
						b = bigConst(new(big.Int).Lsh(c, uint(n)))
					} else {
						b = bigConst(new(big.Int).Rsh(c, uint(n)))
					}
					x.setBig(st, a[0], b)
					return one(st, a[0])
				}
			}
			x.setBig(st, a[0], mk("big", strings.ToLower(m), nil, b, a[2]))
			return one(st, a[0])
		}
	case "SetBytes":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			x.setBig(st, a[0], bigOfBytes(x.content(st, a[1])))
			return one(st, a[0])
		}
	case "SetString":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			if s, ok := a[1].str(); ok {
				if b, ok := a[2].i64(); ok {
					if r, good := new(big.Int).SetString(s, int(b)); good {
						x.setBig(st, a[0], bigConst(r))
						return one(st, a[0], mkBool(true))
					}
				}
			}
			ok := pure("isbig", boolT(), a[1], a[2])
			return x.branch(st, ok, func(st *State) []*T {
				x.setBig(st, a[0], mk("big", "parse", nil, a[1], a[2]))
				return []*T{a[0], mkBool(true)}
			}, func(st *State) []*T {
				x.setBig(st, a[0], mk("big", "junk", nil, x.fresh("big", nil)))
				return []*T{mkNil(), mkBool(false)}
			})
		}
	case "UnmarshalText":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			s := mkString(x.content(st, a[1]))
			if b, known := constBytes(x.content(st, a[1])); known {
				v := new(big.Int)
				if v.UnmarshalText(b) != nil {
					x.setBig(st, a[0], mk("big", "junk", nil, x.fresh("big", nil)))
					return one(st, x.err(name))
				}
				x.setBig(st, a[0], bigConst(v))
				return one(st, mkNil())
			}
			ok := pure("isbig", boolT(), s, mkInt(0))
			return x.branch(st, ok, func(st *State) []*T {
				x.setBig(st, a[0], mk("big", "parse", nil, s, mkInt(0)))
				return []*T{mkNil()}
			}, func(st *State) []*T {
				x.setBig(st, a[0], mk("big", "junk", nil, x.fresh("big", nil)))
				return []*T{x.err(name)}
			})
		}
	case "Cmp":
		return get(func(st *State, b *T, a []*T) *T { return bigCmp(b, v(st, a[1])) })
	case "CmpAbs":
		return get(func(st *State, b *T, a []*T) *T { return bigCmp(bigFn("abs", b), bigFn("abs", v(st, a[1]))) })
	case "Sign":
		return get(func(st *State, b *T, a []*T) *T { return bigSign(b) })
	case "Int64", "Uint64":
		return get(func(st *State, b *T, a []*T) *T {
			to := types.Typ[types.Int64]
			if m == "Uint64" {
				to = types.Typ[types.Uint64]
			}
			if b.op == "big" && b.aux == "ofint" {
				from := b.args[0].typ
				if from == nil {
					from = to
				}
				return intConv(b.args[0], from, to)
			}
			if c, ok := bigOf(b); ok {
				k, _ := kindOf(to)
				return mkConst(constant.Make(k.wrap(c)), to)
			}
			return pure("big."+strings.ToLower(m), to, b)
		})
	case "IsInt64", "IsUint64":
		return get(func(st *State, b *T, a []*T) *T {
			if c, ok := bigOf(b); ok {
				if m == "IsInt64" {
					return mkBool(c.IsInt64())
				}
				return mkBool(c.IsUint64())
			}
			return pure("big."+strings.ToLower(m), boolT(), b)
		})
	case "Bit":
		return get(func(st *State, b *T, a []*T) *T {
			if c, ok := bigOf(b); ok {
				if n, ok := a[1].i64(); ok {
					return mkInt(int64(c.Bit(int(n))))
				}
			}
			return pure("big.bit", types.Typ[types.Uint], b, a[1])
		})
	case "BitLen":
		return get(func(st *State, b *T, a []*T) *T {
			if c, ok := bigOf(b); ok {
				return mkInt(int64(c.BitLen()))
			}
			return pure("big.bitlen", intT, b)
		})
	case "Bytes":
		return get(func(st *State, b *T, a []*T) *T { return x.newBytes(st, bigBytes(b), types.NewSlice(byteT)) })
	case "FillBytes":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			b := v(st, a[0])
			d := x.parts(a[1])
			c := bigBytes(b)
			pad := cCat(cZeros(minus(d.len, cLen(c)), zeroByte()), c)
			x.oblige(fr, st, "FillBytes", leT(cLen(c), d.len), pos)
			x.store(st, d.base, cSplice(x.load(st, d.base, nil), d.off, pad), nil)
			return one(st, a[1])
		}
	case "String", "Text":
		return get(func(st *State, b *T, a []*T) *T {
			base := mkInt(10)
			if m == "Text" {
				base = a[1]
			}
			if c, ok := bigOf(b); ok {
				if n, ok := base.i64(); ok {
					return constStr(c.Text(int(n)))
				}
			}
			return mkString(pureC("big.text", b, base))
		})
	}
	return nil
}

// byteOfAll: the number all bytes of which are c
func byteOfAll(c *T) *T {
	if c.op != "vec" || len(c.args) == 0 || c.args[0].op != "fn" || c.args[0].aux != "byteof" {
		return nil
	}
	v := c.args[0].args[0]
	n := int64(len(c.args))
	for i, a := range c.args {
		if a.op != "fn" || a.aux != "byteof" || a.args[0] != v || a.args[1] != mkInt(n-1-int64(i)) || a.args[2] != mkInt(n) {
			return nil
		}
	}
	return v
}

func bigOfBytes(c *T) *T {
	if c.op == "fn" && c.aux == "big.bytes" {
		return bigFn("abs", c.args[0])
	}
	// leading zero bytes do not count
	if c.op == "fn" && c.aux == "trimleft" && c.args[1] == cLit("\x00") {
		return bigOfBytes(c.args[0])
	}
	for {
		if c.op == "vec" {
			i := 0
			for i < len(c.args) && isZeroInt(c.args[i]) {
				i++
			}
			c = cVec(c.args[i:]...)
			all := true
			b := make([]byte, len(c.args))
			for i, a := range c.args {
				v, ok := a.i64()
				if !ok {
					all = false
					break
				}
				b[i] = byte(v)
			}
			if all {
				return bigConst(new(big.Int).SetBytes(b))
			}
			break
		}
		if c.op == "seq" {
			h := c.args[0]
			if h.op == "zeros" && isZeroInt(h.args[1]) {
				c = cCat(c.args[1:]...)
				continue
			}
			if h.op == "vec" {
				i := 0
				for i < len(h.args) && isZeroInt(h.args[i]) {
					i++
				}
				if i == len(h.args) {
					c = cCat(c.args[1:]...)
					continue
				}
				if i > 0 {
					c = cCat(append([]*T{cVec(h.args[i:]...)}, c.args[1:]...)...)
				}
			}
		}
		if c.op == "zeros" {
			return bigConst(new(big.Int))
		}
		break
	}
	if c.op == "fn" && c.aux == "big.bytes" {
		return bigFn("abs", c.args[0])
	}
	if v := byteOfAll(c); v != nil {
		return v
	}
	return mk("big", "ofbytes", nil, c)
}
