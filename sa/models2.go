package main

// Models of bytes.Buffer and of the sponge interface of the keccak package.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// bufCell: the cell that holds the unread bytes of a bytes.Buffer
func bufCell(fn *ssa.Function, b *T) *T {
	t := deref(fn.Signature.Recv().Type())
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "buf" {
				return faddr(b, t, i)
			}
		}
	}
	return faddr(b, t, 0)
}

func (x *Exec) bufContent(st *State, cell *T) *T {
	v := x.load(st, cell, deref(cell.typ))
	if v.isNil() {
		return cVec()
	}
	return x.content(st, v)
}

func (x *Exec) bufferModel(name string) model {
	meth := strings.TrimPrefix(strings.TrimPrefix(name, "(*bytes.Buffer)."), "(*strings.Builder).")
	if meth == name {
		return nil
	}
	type H = func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome
	bt := types.NewSlice(byteT)
	write := func(c func(st *State, v *T) *T, res func(c *T) []*T) H {
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			cell := bufCell(fn, a[0])
			old := x.bufContent(st, cell)
			add := c(st, a[1])
			x.store(st, cell, x.newBytes(st, cCat(old, add), bt), bt)
			return one(st, res(add)...)
		}
	}
	nerr := func(c *T) []*T { return []*T{cLen(c), mkNil()} }
	switch meth {
	case "Write":
		return write(func(st *State, v *T) *T { return x.content(st, v) }, nerr)
	case "WriteString":
		return write(func(st *State, v *T) *T { return strContent(v) }, nerr)
	case "WriteByte":
		return write(func(st *State, v *T) *T { return cVec(v) }, func(c *T) []*T { return []*T{mkNil()} })
	case "Bytes":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			cell := bufCell(fn, a[0])
			v := x.load(st, cell, bt)
			if v.isNil() {
				return one(st, x.newBytes(st, cVec(), bt))
			}
			return one(st, v)
		}
	case "String":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			return one(st, mkString(x.bufContent(st, bufCell(fn, a[0]))))
		}
	case "Len":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			return one(st, cLen(x.bufContent(st, bufCell(fn, a[0]))))
		}
	case "Reset":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			x.store(st, bufCell(fn, a[0]), mkNil(), bt)
			return one(st)
		}
	case "Grow":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome { return one(st) }
	}
	return nil
}

// appendIn appends c to the slice s: in place where its capacity is known to
// suffice, to a new array otherwise
func (x *Exec) appendIn(st *State, s, c *T, typ types.Type) *T {
	if !s.isNil() {
		p := x.parts(s)
		cp, ok1 := p.cap.i64()
		ln, ok2 := p.len.i64()
		n, ok3 := cLen(c).i64()
		if ok1 && ok2 && ok3 && ln+n <= cp {
			base := x.load(st, p.base, nil)
			if bl, ok := cLen(base).i64(); ok {
				if o, ok := p.off.i64(); !ok || o+ln+n > bl {
					return x.newBytes(st, cCat(x.content(st, s), c), typ)
				}
			}
			x.store(st, p.base, cSplice(base, plus(p.off, p.len), c), nil)
			return mkSlice(p.base, p.off, mkInt(ln+n), p.cap, typ)
		}
		return x.grown(st, cCat(x.content(st, s), c), cp, typ)
	}
	return x.grown(st, c, 0, typ)
}

// grown: the array append moves to; with growCap it has room to spare
func (x *Exec) grown(st *State, c *T, old int64, typ types.Type) *T {
	n, ok := cLen(c).i64()
	if !x.growCap || !ok {
		return x.newBytes(st, c, typ)
	}
	k := 2 * old
	if k < n {
		k = n
	}
	et := typ.Underlying().(*types.Slice).Elem()
	s := x.newBytes(st, cCat(c, cZeros(mkInt(k-n), zeroOf(et))), typ)
	p := x.parts(s)
	return mkSlice(p.base, mkInt(0), mkInt(n), mkInt(k), typ)
}

// the keccak package is used through hash.Hash: what a sponge has absorbed
// is kept as a content term
func (x *Exec) spongeModel(fn *ssa.Function, name string) model {
	if !strings.HasPrefix(name, "(*keccak.state).") || fn == nil || x.noSponge {
		return nil
	}
	bt := types.NewSlice(byteT)
	cell := func(a *T) *T { return mk("faddr", "absorbed", types.NewPointer(bt), a) }
	absorbed := func(st *State, a *T) *T {
		v := x.load(st, cell(a), bt)
		if v.isNil() {
			return cVec()
		}
		return x.content(st, v)
	}
	switch strings.TrimPrefix(name, "(*keccak.state).") {
	case "Write":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			add := x.content(st, a[1])
			x.store(st, cell(a[0]), x.newBytes(st, cCat(absorbed(st, a[0]), add), bt), bt)
			return one(st, cLen(add), mkNil())
		}
	case "Reset":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			x.store(st, cell(a[0]), mkNil(), bt)
			return one(st)
		}
	case "Sum":
		return func(fr *frame, st *State, fn *ssa.Function, a []*T, pos token.Pos) []outcome {
			t := deref(fn.Signature.Recv().Type())
			f := func(n string) *T { return x.fieldVal(st, a[0], t, n) }
			rate, out, ds := f("rate"), f("outputLen"), f("dsbyte")
			if rate == nil || out == nil || ds == nil {
				return x.opaqueCall(fr, st, fn, name, a, fn.Signature, pos)
			}
			return one(st, x.appendIn(st, a[1], sponge(rate, out, ds, absorbed(st, a[0])), bt))
		}
	}
	return nil
}

func sponge(rate, out, ds, c *T) *T {
	r, _ := rate.i64()
	o, _ := out.i64()
	d, _ := ds.i64()
	if r == 136 && o == 32 && d == 1 {
		return keccak256(c)
	}
	return mk("fn", "sponge", nil, rate, out, ds, c)
}

func keccak256(c *T) *T { return mk("fn", "keccak256", nil, c) }
