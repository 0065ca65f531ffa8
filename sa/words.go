package main

import (
	"go/constant"
	"go/types"
	"math/big"
)

// A big.Int that is copied with = shares its words with the original;
// operations write into the words of their receiver. What shared them holds
// junk from then on.

type wordTrack struct {
	inModel bool
	group   map[*T]int
	last    map[*T]*T
	junk    map[*T]bool
	n       int
}

func newWords() *wordTrack {
	return &wordTrack{group: map[*T]int{}, last: map[*T]*T{}, junk: map[*T]bool{}}
}

func (w *wordTrack) loaded(x *Exec, addr, v *T) {
	addr = stripPtr(addr)
	if w.inModel {
		if w.junk[addr] {
			x.fail("a number shares its words with another one that was changed in place")
		}
		return
	}
	w.last[v] = addr
}

func (w *wordTrack) stored(x *Exec, st *State, addr, v *T) {
	addr = stripPtr(addr)
	if !w.inModel {
		delete(w.group, addr)
		delete(w.junk, addr)
		if src := w.last[v]; src != nil && src != addr {
			if w.group[src] == 0 {
				w.n++
				w.group[src] = w.n
			}
			w.group[addr] = w.group[src]
			w.junk[addr] = w.junk[src]
		}
		return
	}
	g := w.group[addr]
	old, ok := st.mem.get(addr)
	if g == 0 || !ok || old == v || v.op == "big" && (v.aux == "neg" || v.aux == "abs") && v.args[0] == old {
		return
	}
	for a, h := range w.group {
		if h != g || a == addr {
			continue
		}
		if o, ok := st.mem.get(a); ok && x.decide(st, mkEq(bigSign(o), mkInt(0), intT)) != 1 {
			w.junk[a] = true
		}
	}
	delete(w.junk, addr)
}

// loadWords reads bytes as an array of words, or words as an array of
// bytes, through a converted pointer (on a little-endian machine)
func (x *Exec) loadWords(st *State, addr, b *T, typ types.Type) *T {
	if typ == nil && addr.typ != nil {
		typ = deref(addr.typ)
	}
	arr := arrayOf(typ)
	if arr == nil {
		return nil
	}
	to := arr.Elem().Underlying()
	var c, off *T
	var from types.Type
	switch {
	case b.op == "iaddr":
		if b.typ == nil || deref(b.typ) == nil {
			return nil
		}
		c, off, from = x.load(st, b.args[0], nil), b.args[1], deref(b.typ).Underlying()
	case b.typ != nil && deref(b.typ) != nil && arrayOf(deref(b.typ)) != nil:
		a := arrayOf(deref(b.typ))
		c, off, from = x.load(st, b, deref(b.typ)), mkInt(0), a.Elem().Underlying()
	default:
		return nil
	}
	n, ok1 := cLen(c).i64()
	o, ok2 := off.i64()
	u64, u8 := types.Typ[types.Uint64], types.Typ[types.Uint8]
	if !ok1 || !ok2 {
		return nil
	}
	var e []*T
	switch {
	case types.Identical(to, u64) && types.Identical(from, u8):
		for i := int64(0); i < arr.Len(); i++ {
			if o+8*i+8 > n {
				e = append(e, mk("sym", "outside", u64))
				continue
			}
			var bs []*T
			for k := int64(0); k < 8; k++ {
				bs = append(bs, cSel(c, mkInt(o+8*i+k), byteT))
			}
			e = append(e, wordOf(bs))
		}
	case types.Identical(to, u8) && types.Identical(from, u64):
		for i := int64(0); i < arr.Len(); i++ {
			if o+i/8 >= n {
				e = append(e, mk("sym", "outside", u8))
				continue
			}
			e = append(e, byteOfWord(cSel(c, mkInt(o+i/8), u64), int(i%8)))
		}
	default:
		return nil
	}
	return cVec(e...)
}

// wordOf is the little-endian word of eight bytes
func wordOf(b []*T) *T {
	known := true
	var v uint64
	for i, t := range b {
		n, ok := t.i64()
		known = known && ok
		v |= uint64(byte(n)) << (8 * i)
	}
	u64 := types.Typ[types.Uint64]
	if known {
		return mkConst(constant.MakeUint64(v), u64)
	}
	if f := b[0]; f.op == "fn" && f.aux == "byteof" {
		same := true
		for i := range b {
			same = same && b[i] == byteOfWord(f.args[0], i)
		}
		if same {
			return f.args[0]
		}
	}
	return mk("fn", "le64", u64, cVec(b...))
}

func byteOfWord(w *T, i int) *T {
	if v, ok := w.intVal(); ok {
		u := new(big.Int).And(v, new(big.Int).SetUint64(1<<64-1)).Uint64()
		return mkConst(constant.MakeInt64(int64(byte(u>>(8*i)))), byteT)
	}
	if w.op == "fn" && w.aux == "le64" {
		return w.args[0].args[i]
	}
	return mk("fn", "byteof", byteT, w, mkInt(int64(i)))
}
