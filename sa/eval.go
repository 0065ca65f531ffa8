package main

// Evaluation of value-numbered terms over a finite domain: a summary term
// over a few bytes is compared with its specification for every value those
// bytes can have.

import (
	"bytes"
	"encoding/binary"
	"go/constant"
	"hash/fnv"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// an evaluated value: *big.Int, bool, []byte, or nilVal
type nilVal struct{}

type evalEnv struct {
	sym  map[*T]interface{} // values of leaves
	memo map[*T]interface{}
	sub  func(t *T) (interface{}, bool) // values of bytes of a vec
}

type undecided struct{ t *T }

func newEnv() *evalEnv {
	return &evalEnv{sym: map[*T]interface{}{}, memo: map[*T]interface{}{}}
}

func (e *evalEnv) set(t *T, v interface{}) {
	e.sym[t] = v
	if len(e.memo) > 0 {
		e.memo = map[*T]interface{}{}
	}
}

// try evaluates t; ok is false if the term has no value here
func (e *evalEnv) try(t *T) (v interface{}, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(undecided); !is {
				panic(r)
			}
			ok = false
		}
	}()
	return e.eval(t), true
}

func (e *evalEnv) why(t *T) (s string) {
	defer func() {
		if r := recover(); r != nil {
			if u, is := r.(undecided); is {
				s = u.t.pp(4)
			}
		}
	}()
	e.eval(t)
	return ""
}

func (e *evalEnv) tryBytes(t *T) ([]byte, bool) {
	v, ok := e.try(t)
	if !ok {
		return nil, false
	}
	b, ok := v.([]byte)
	return b, ok
}

func (e *evalEnv) tryBool(t *T) (b, ok bool) {
	v, ok := e.try(t)
	if !ok {
		return false, false
	}
	b, ok = v.(bool)
	return
}

func (e *evalEnv) tryInt(t *T) (*big.Int, bool) {
	v, ok := e.try(t)
	if !ok {
		return nil, false
	}
	b, ok := v.(*big.Int)
	return b, ok
}

func (e *evalEnv) int(t *T) *big.Int {
	if v, ok := e.eval(t).(*big.Int); ok {
		return v
	}
	panic(undecided{t})
}

func (e *evalEnv) n(t *T) int {
	v := e.int(t)
	if !v.IsInt64() || v.Int64() > 1<<20 || v.Int64() < -(1<<20) {
		panic(undecided{t})
	}
	return int(v.Int64())
}

func (e *evalEnv) bool(t *T) bool {
	if v, ok := e.eval(t).(bool); ok {
		return v
	}
	panic(undecided{t})
}

func (e *evalEnv) bytes(t *T) []byte {
	if v, ok := e.eval(t).([]byte); ok {
		return v
	}
	panic(undecided{t})
}

func (e *evalEnv) eval(t *T) interface{} {
	if v, ok := e.sym[t]; ok {
		return v
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	v := e.eval1(t)
	if len(t.args) > 0 {
		e.memo[t] = v
	}
	return v
}

func parseKind(s string) ikind {
	n, _ := strconv.Atoi(s[1:])
	return ikind{n, s[0] == 'i'}
}

func isHexByte(c byte) bool {
	return '0' <= c && c <= '9' || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F'
}

func unhex(c byte) byte {
	switch {
	case c <= '9':
		return c - '0'
	case c >= 'a':
		return c - 'a' + 10
	}
	return c - 'A' + 10
}

func (e *evalEnv) eval1(t *T) interface{} {
	switch t.op {
	case "const":
		if v, ok := t.intVal(); ok {
			return v
		}
		if t.val.Kind() == constant.Bool {
			return constant.BoolVal(t.val)
		}
		if s, ok := t.str(); ok {
			return []byte(s)
		}
	case "bigc":
		v, _ := bigOf(t)
		return v
	case "nil":
		return nilVal{}
	case "lin":
		r := new(big.Int).Set(t.lin.c)
		for i, a := range t.lin.atoms {
			r.Add(r, new(big.Int).Mul(t.lin.coef[i], e.int(a)))
		}
		return t.lin.k.wrap(r)
	case "wide":
		return parseKind(t.aux).wrap(e.int(t.args[0]))
	case "conv":
		if len(t.aux) > 1 && (t.aux[0] == 'i' || t.aux[0] == 'u') && t.aux[1] >= '0' && t.aux[1] <= '9' {
			return parseKind(t.aux).wrap(e.int(t.args[0]))
		}
	case "mul", "quo", "rem", "and", "or", "xor", "andnot", "shl", "shr":
		k := parseKind(t.aux)
		a, b := e.int(t.args[0]), e.int(t.args[1])
		if !k.signed {
			// operands are kept modulo the width
			a = k.wrap(a)
		}
		r := new(big.Int)
		switch t.op {
		case "mul":
			r.Mul(a, b)
		case "quo", "rem":
			if b.Sign() == 0 {
				panic(undecided{t})
			}
			if t.op == "quo" {
				r.Quo(a, b)
			} else {
				r.Rem(a, b)
			}
		case "and":
			r.And(a, b)
		case "or":
			r.Or(a, b)
		case "xor":
			r.Xor(a, b)
		case "andnot":
			r.AndNot(a, b)
		case "shl", "shr":
			n := 4096
			if b.IsInt64() && b.Int64() < 4096 {
				n = int(b.Int64())
			}
			if n < 0 {
				panic(undecided{t})
			}
			if t.op == "shl" {
				r.Lsh(a, uint(n))
			} else {
				r.Rsh(a, uint(n))
			}
		}
		return k.wrap(r)
	case "le0":
		// over mathematical integers
		if l := t.args[0]; l.op == "lin" {
			r := new(big.Int).Set(l.lin.c)
			for i, a := range l.lin.atoms {
				r.Add(r, new(big.Int).Mul(l.lin.coef[i], e.int(a)))
			}
			return r.Sign() <= 0
		}
		return e.int(t.args[0]).Sign() <= 0
	case "ult":
		k := parseKind(t.aux)
		return k.wrap(e.int(t.args[0])).Cmp(k.wrap(e.int(t.args[1]))) < 0
	case "eq":
		a, b := e.eval(t.args[0]), e.eval(t.args[1])
		return e.same(t, a, b)
	case "not":
		return !e.bool(t.args[0])
	case "andb":
		for _, a := range t.args {
			if !e.bool(a) {
				return false
			}
		}
		return true
	case "orb":
		for _, a := range t.args {
			if e.bool(a) {
				return true
			}
		}
		return false
	case "ite":
		if e.bool(t.args[0]) {
			return e.eval(t.args[1])
		}
		return e.eval(t.args[2])
	case "neg":
		return new(big.Int).Neg(e.int(t.args[0]))
	case "vec":
		out := make([]byte, len(t.args))
		for i, a := range t.args {
			if e.sub != nil {
				if v, ok := e.sub(a); ok {
					if b, ok := v.(*big.Int); ok && b.IsInt64() && b.Int64() >= 0 && b.Int64() < 256 {
						out[i] = byte(b.Int64())
						continue
					}
				}
			}
			v := e.int(a)
			if !v.IsInt64() || v.Int64() < 0 || v.Int64() > 255 {
				panic(undecided{t})
			}
			out[i] = byte(v.Int64())
		}
		return out
	case "zeros":
		z := e.int(t.args[1])
		n := e.n(t.args[0])
		if n < 0 || z.Sign() != 0 {
			panic(undecided{t})
		}
		return make([]byte, n)
	case "seq":
		var out []byte
		for _, a := range t.args {
			out = append(out, e.bytes(a)...)
		}
		return out
	case "sub":
		c, o, n := e.bytes(t.args[0]), e.n(t.args[1]), e.n(t.args[2])
		if o < 0 || n < 0 || o+n > len(c) {
			panic(undecided{t})
		}
		return c[o : o+n]
	case "upd":
		c := append([]byte(nil), e.bytes(t.args[0])...)
		i := e.n(t.args[1])
		v := e.n(t.args[2])
		if i < 0 || i >= len(c) {
			panic(undecided{t})
		}
		c[i] = byte(v)
		return c
	case "sel":
		if v := t.args[0]; v.op == "vec" {
			if i := e.n(t.args[1]); i >= 0 && i < len(v.args) {
				return e.eval(v.args[i])
			}
			panic(undecided{t})
		}
		c, i := e.bytes(t.args[0]), e.n(t.args[1])
		if i < 0 || i >= len(c) {
			panic(undecided{t})
		}
		return big.NewInt(int64(c[i]))
	case "string":
		return e.bytes(t.args[0])
	case "len", "clen":
		return big.NewInt(int64(len(e.bytes(t.args[0]))))
	case "big":
		return e.bigTerm(t)
	case "fn":
		return e.fnTerm(t)
	}
	panic(undecided{t})
}

func (e *evalEnv) same(t *T, a, b interface{}) bool {
	switch a := a.(type) {
	case *big.Int:
		if b, ok := b.(*big.Int); ok {
			return a.Cmp(b) == 0
		}
	case bool:
		if b, ok := b.(bool); ok {
			return a == b
		}
	case []byte:
		if b, ok := b.([]byte); ok {
			return bytes.Equal(a, b)
		}
	case nilVal:
		_, ok := b.(nilVal)
		return ok
	}
	if _, ok := b.(nilVal); ok {
		return false
	}
	panic(undecided{t})
}

func (e *evalEnv) bigTerm(t *T) interface{} {
	r := new(big.Int)
	a := func(i int) *big.Int { return e.int(t.args[i]) }
	switch t.aux {
	case "add":
		return r.Add(a(0), a(1))
	case "sub":
		return r.Sub(a(0), a(1))
	case "mul":
		return r.Mul(a(0), a(1))
	case "neg":
		return r.Neg(a(0))
	case "not":
		return r.Not(a(0))
	case "abs":
		return r.Abs(a(0))
	case "and":
		return r.And(a(0), a(1))
	case "or":
		return r.Or(a(0), a(1))
	case "xor":
		return r.Xor(a(0), a(1))
	case "div", "mod", "quo", "rem":
		d := a(1)
		if d.Sign() == 0 {
			panic(undecided{t})
		}
		switch t.aux {
		case "div":
			return r.Div(a(0), d)
		case "mod":
			return r.Mod(a(0), d)
		case "quo":
			return r.Quo(a(0), d)
		}
		return r.Rem(a(0), d)
	case "lsh":
		return r.Lsh(a(0), uint(e.n(t.args[1])))
	case "rsh":
		return r.Rsh(a(0), uint(e.n(t.args[1])))
	case "exp":
		return r.Exp(a(0), a(1), a(2))
	case "ofint":
		return a(0)
	case "ofbytes":
		return r.SetBytes(e.bytes(t.args[0]))
	case "parse":
		if _, ok := r.SetString(string(e.bytes(t.args[0])), e.n(t.args[1])); ok {
			return r
		}
	}
	panic(undecided{t})
}

func (e *evalEnv) fnTerm(t *T) interface{} {
	switch t.aux {
	case "hexenc":
		const d = "0123456789abcdef"
		var out []byte
		for _, c := range e.bytes(t.args[0]) {
			out = append(out, d[c>>4], d[c&15])
		}
		return out
	case "ishex":
		b := e.bytes(t.args[0])
		for _, c := range b {
			if !isHexByte(c) {
				return false
			}
		}
		return len(b)%2 == 0
	case "hexdec":
		b := e.bytes(t.args[0])
		var out []byte
		for i := 0; i+1 < len(b); i += 2 {
			if !isHexByte(b[i]) || !isHexByte(b[i+1]) {
				panic(undecided{t})
			}
			out = append(out, unhex(b[i])<<4|unhex(b[i+1]))
		}
		return out
	case "tolower", "strings.ToLower":
		return bytes.ToLower(e.bytes(t.args[0]))
	case "fmtint10":
		return []byte(e.int(t.args[0]).String())
	case "fmtint", "big.text":
		b := e.n(t.args[1])
		if b < 2 || b > 36 {
			panic(undecided{t})
		}
		return []byte(e.int(t.args[0]).Text(b))
	case "signature": // an account's signature of a hash
		if who, ok := t.args[len(t.args)-1].str(); ok && len(t.args) == 2 {
			return signatureBytes(who, e.bytes(t.args[0]))
		}
	case "pub":
		if who, ok := t.args[0].str(); ok {
			return pubBytes(who)
		}
	case "keccak256":
		return keccakSum(e.bytes(t.args[0]))
	case "le64", "leuint64", "leuint32":
		v := new(big.Int)
		b := e.bytes(t.args[0])
		for i := len(b) - 1; i >= 0; i-- {
			v.Lsh(v, 8).Or(v, big.NewInt(int64(b[i])))
		}
		return v
	case "byteof":
		v := parseKind("u64").wrap(e.int(t.args[0]))
		return big.NewInt(int64(byte(v.Uint64() >> (8 * uint(e.n(t.args[1]))))))
	case "permword":
		h := fnv.New64a()
		for _, a := range t.args[0].args {
			var b [8]byte
			binary.BigEndian.PutUint64(b[:], parseKind("u64").wrap(e.int(a)).Uint64())
			h.Write(b[:])
		}
		h.Write([]byte{byte(e.n(t.args[1]))})
		return new(big.Int).SetUint64(h.Sum64() * 0x9e3779b97f4a7c15)
	case "big.bytes":
		return e.int(t.args[0]).Bytes()
	case "big.sign":
		return big.NewInt(int64(e.int(t.args[0]).Sign()))
	case "big.cmp":
		return big.NewInt(int64(e.int(t.args[0]).Cmp(e.int(t.args[1]))))
	case "big.bitlen":
		return big.NewInt(int64(e.int(t.args[0]).BitLen()))
	case "big.bit":
		return big.NewInt(int64(e.int(t.args[0]).Bit(e.n(t.args[1]))))
	case "big.int64", "big.uint64":
		k := ikind{64, t.aux == "big.int64"}
		return k.wrap(e.int(t.args[0]))
	case "big.isint64":
		return e.int(t.args[0]).IsInt64()
	case "big.isuint64":
		return e.int(t.args[0]).IsUint64()
	case "isbig":
		_, ok := new(big.Int).SetString(string(e.bytes(t.args[0])), e.n(t.args[1]))
		return ok
	case "isint", "isuint":
		b := e.n(t.args[2])
		var err error
		if t.aux == "isint" {
			_, err = strconv.ParseInt(string(e.bytes(t.args[0])), e.n(t.args[1]), b)
		} else {
			_, err = strconv.ParseUint(string(e.bytes(t.args[0])), e.n(t.args[1]), b)
		}
		return err == nil
	case "junkint":
		v, err := strconv.ParseInt(string(e.bytes(t.args[0])), e.n(t.args[1]), e.n(t.args[2]))
		if err != nil {
			return big.NewInt(v)
		}
	case "junkuint":
		v, err := strconv.ParseUint(string(e.bytes(t.args[0])), e.n(t.args[1]), e.n(t.args[2]))
		if err != nil {
			return new(big.Int).SetUint64(v)
		}
	case "parseint":
		v, err := strconv.ParseInt(string(e.bytes(t.args[0])), e.n(t.args[1]), 64)
		if err == nil {
			return big.NewInt(v)
		}
	case "parseuint":
		v, err := strconv.ParseUint(string(e.bytes(t.args[0])), e.n(t.args[1]), 64)
		if err == nil {
			return new(big.Int).SetUint64(v)
		}
	case "bytes.cmp":
		return big.NewInt(int64(bytes.Compare(e.bytes(t.args[0]), e.bytes(t.args[1]))))
	case "beuint64", "beuint32":
		return new(big.Int).SetBytes(e.bytes(t.args[0]))
	case "strings.Contains":
		return bytes.Contains(e.bytes(t.args[0]), e.bytes(t.args[1]))
	case "bytes.IndexByte", "strings.IndexByte":
		return big.NewInt(int64(bytes.IndexByte(e.bytes(t.args[0]), byte(e.n(t.args[1])))))
	case "strings.Index", "bytes.Index":
		return big.NewInt(int64(bytes.Index(e.bytes(t.args[0]), e.bytes(t.args[1]))))
	case "trimleft":
		return bytes.TrimLeft(e.bytes(t.args[0]), string(e.bytes(t.args[1])))
	}
	panic(undecided{t})
}

// leaves: the symbols a term depends on
func leaves(t *T) []*T {
	seen := map[*T]bool{}
	var out []*T
	var rec func(t *T)
	rec = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		if len(t.args) == 0 {
			if t.op == "sym" {
				out = append(out, t)
			}
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// shapeOf prints a term with its leaves numbered in order of occurrence, so
// that terms that differ only in the names of their leaves have one shape
func shapeOf(t *T) (string, []*T) {
	num := map[*T]int{}
	var ls []*T
	var sb strings.Builder
	ids := map[*T]int{}
	var rec func(t *T)
	rec = func(t *T) {
		if t.op == "sym" && len(t.args) == 0 {
			i, ok := num[t]
			if !ok {
				i = len(ls)
				num[t] = i
				ls = append(ls, t)
			}
			sb.WriteString("s" + strconv.Itoa(i))
			return
		}
		if i, ok := ids[t]; ok {
			sb.WriteString("^" + strconv.Itoa(i))
			return
		}
		ids[t] = len(ids)
		sb.WriteString("(" + t.op + "|" + t.aux)
		if t.op == "const" {
			sb.WriteString(t.val.ExactString())
		}
		for _, a := range t.args {
			sb.WriteByte(' ')
			rec(a)
		}
		sb.WriteByte(')')
	}
	rec(t)
	return sb.String(), ls
}

// signatureBytes stands for the signature that an account makes of a hash
func signatureBytes(who string, h []byte) []byte {
	a := keccakSum(append([]byte("sig:"+who+":"), h...))
	b := keccakSum(a)
	return append(append(a, b...), b[0]&1)
}

// pubBytes stands for the public key of an account
func pubBytes(who string) []byte {
	a := keccakSum([]byte("pub:" + who))
	return append(a, keccakSum(a)...)
}
