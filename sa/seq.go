package main

// Segment normal form of byte (and element) sequences: the contents of
// arrays, slices and strings.

import (
	"go/constant"
	"go/types"
	"math/big"
)

const maxVec = 256

var byteT = types.Typ[types.Uint8]

func constDiff(a, b *T) (int64, bool) {
	return minus(a, b).i64()
}

// cLen is the length of a content term
func cLen(c *T) *T {
	switch c.op {
	case "vec":
		return mkInt(int64(len(c.args)))
	case "zeros":
		return c.args[0]
	case "sub":
		return c.args[2]
	case "seq":
		n := mkInt(0)
		for _, s := range c.args {
			n = plus(n, cLen(s))
		}
		return n
	case "upd":
		return cLen(c.args[0])
	case "cunk":
		return c.args[1]
	case "fn":
		switch c.aux {
		case "hexenc":
			return mkMul(mkInt(2), cLen(c.args[0]), intT)
		case "keccak256":
			return mkInt(32)
		case "sponge":
			return c.args[1]
		case "hexdec":
			n := cLen(c.args[0])
			if v, ok := n.i64(); ok {
				return mkInt(v / 2)
			}
			return mk("quo", ikind{64, true}.String(), intT, n, mkInt(2))
		}
	}
	if c.typ != nil {
		if a, ok := c.typ.Underlying().(*types.Array); ok {
			return mkInt(a.Len())
		}
		if b, ok := c.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return mk("len", "", intT, c)
		}
	}
	return mk("clen", "", intT, c)
}

func zeroByte() *T { return mkInt(0) }

func cVec(elems ...*T) *T { return mk("vec", "", nil, elems...) }

func cLit(s string) *T {
	e := make([]*T, len(s))
	for i := range e {
		e[i] = mkInt(int64(s[i]))
	}
	return cVec(e...)
}

// cZeros: n zero elements (z is the element's zero value)
func cZeros(n, z *T) *T {
	if v, ok := n.i64(); ok && v >= 0 && v <= maxVec {
		e := make([]*T, v)
		for i := range e {
			e[i] = z
		}
		return cVec(e...)
	}
	return mk("zeros", "", nil, n, z)
}

func segs(c *T) []*T {
	if c.op == "seq" {
		return c.args
	}
	if c.op == "vec" && len(c.args) == 0 {
		return nil
	}
	return []*T{c}
}

func cCat(cs ...*T) *T {
	var out []*T
	for _, c := range cs {
		for _, s := range segs(c) {
			if n, ok := cLen(s).i64(); ok && n == 0 {
				continue
			}
			if len(out) > 0 {
				l := out[len(out)-1]
				if l.op == "vec" && s.op == "vec" && len(l.args)+len(s.args) <= 1024 {
					out[len(out)-1] = cVec(append(append([]*T(nil), l.args...), s.args...)...)
					continue
				}
				if l.op == "sub" && s.op == "sub" && l.args[0] == s.args[0] && plus(l.args[1], l.args[2]) == s.args[1] {
					out[len(out)-1] = cSub(l.args[0], l.args[1], plus(l.args[2], s.args[2]))
					continue
				}
			}
			out = append(out, s)
		}
	}
	if len(out) == 0 {
		return cVec()
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("seq", "", nil, out...)
}

// cSub is c[off:off+n]
func cSub(c, off, n *T) *T {
	if v, ok := n.i64(); ok && v == 0 {
		return cVec()
	}
	if o, ok := off.i64(); ok && o == 0 && cLen(c) == n {
		return c
	}
	switch c.op {
	case "sub":
		return cSub(c.args[0], plus(c.args[1], off), n)
	case "vec":
		o, ok1 := off.i64()
		k, ok2 := n.i64()
		if ok1 && ok2 && o >= 0 && k >= 0 && o+k <= int64(len(c.args)) {
			return cVec(c.args[o : o+k]...)
		}
	case "zeros":
		return cZeros(n, c.args[1])
	case "seq":
		var out []*T
		rest := n
		pos := off
		i := 0
		for i < len(c.args) {
			l := cLen(c.args[i])
			d, ok := constDiff(pos, l)
			if p, isc := pos.i64(); isc && p == 0 {
				break
			}
			if ok && d >= 0 {
				pos = minus(pos, l)
				i++
				continue
			}
			break
		}
		for i < len(c.args) {
			s := c.args[i]
			l := cLen(s)
			avail := minus(l, pos)
			d, ok := constDiff(rest, avail)
			if !ok {
				break
			}
			if p, isc := pos.i64(); !isc || p < 0 {
				break
			}
			if d <= 0 {
				out = append(out, cSub(s, pos, rest))
				return cCat(out...)
			}
			out = append(out, cSub(s, pos, avail))
			rest = mkInt(0)
			rest = minus(plus(rest, n), func() *T {
				x := mkInt(0)
				for _, o := range out {
					x = plus(x, cLen(o))
				}
				return x
			}())
			pos = mkInt(0)
			i++
		}
	}
	return mk("sub", "", nil, c, off, n)
}

// cSplice replaces c[off:off+len(src)] by src
func cSplice(c, off, src *T) *T {
	n := cLen(src)
	if v, ok := n.i64(); ok && v == 0 {
		return c
	}
	l := cLen(c)
	if o, ok := off.i64(); ok && o == 0 && l == n {
		return src
	}
	return cCat(cSub(c, mkInt(0), off), src, cSub(c, plus(off, n), minus(minus(l, off), n)))
}

func cUpd(c, idx, v *T) *T {
	if _, ok := idx.i64(); ok {
		if _, ok := cLen(c).i64(); ok {
			return cSplice(c, idx, cVec(v))
		}
	}
	// overwrite of the same index
	if c.op == "upd" && c.args[1] == idx {
		c = c.args[0]
	}
	return mk("upd", "", c.typ, c, idx, v)
}

func cSel(c, idx *T, et types.Type) *T {
	switch c.op {
	case "vec":
		if i, ok := idx.i64(); ok && i >= 0 && i < int64(len(c.args)) {
			return c.args[i]
		}
		if len(c.args) > 0 {
			same := true
			for _, a := range c.args {
				if a != c.args[0] {
					same = false
				}
			}
			if same {
				return c.args[0]
			}
		}
	case "zeros":
		return c.args[1]
	case "sub":
		return cSel(c.args[0], plus(c.args[1], idx), et)
	case "upd":
		if c.args[1] == idx {
			return c.args[2]
		}
		if d, ok := constDiff(c.args[1], idx); ok && d != 0 {
			return cSel(c.args[0], idx, et)
		}
	case "seq":
		pos := idx
		for _, s := range c.args {
			l := cLen(s)
			d, ok := constDiff(pos, l)
			if ok && d >= 0 {
				pos = minus(pos, l)
				continue
			}
			if p, isc := pos.i64(); isc && p >= 0 {
				if n, isc := l.i64(); isc && p < n {
					return cSel(s, pos, et)
				}
			}
			break
		}
	case "const":
		if s, ok := c.str(); ok {
			if i, ok := idx.i64(); ok && i >= 0 && i < int64(len(s)) {
				return mkInt(int64(s[i]))
			}
		}
	}
	return mk("sel", "", et, c, idx)
}

// strContent is the byte content of a string value
func strContent(s *T) *T {
	if v, ok := s.str(); ok {
		return cLit(v)
	}
	if s.op == "string" {
		return s.args[0]
	}
	return mk("sub", "", nil, s, mkInt(0), mk("len", "", intT, s))
}

// mkString is the string with content c
func mkString(c *T) *T {
	if c.op == "vec" {
		b := make([]byte, len(c.args))
		for i, a := range c.args {
			v, ok := a.i64()
			if !ok || v < 0 || v > 255 {
				return mk("string", "", types.Typ[types.String], c)
			}
			b[i] = byte(v)
		}
		return mkConst(constant.MakeString(string(b)), types.Typ[types.String])
	}
	if c.op == "sub" {
		if o, ok := c.args[1].i64(); ok && o == 0 && c.args[2] == mk("len", "", intT, c.args[0]) && isStringT(c.args[0].typ) {
			return c.args[0]
		}
	}
	return mk("string", "", types.Typ[types.String], c)
}

func strLen(s *T) *T {
	if v, ok := s.str(); ok {
		return mkInt(int64(len(v)))
	}
	if s.op == "string" {
		return cLen(s.args[0])
	}
	return mk("len", "", intT, s)
}

func isStringT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func bigOne() *big.Int { return big.NewInt(1) }
