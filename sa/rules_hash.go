package main

// C12: the hash is the sponge over what was written, however it was.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"go/token"
	"go/types"
	"hash/fnv"
	"math/rand"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C12"] = &CheckDef{
		title:     "A hash depends on the bytes that were written and on nothing else",
		technique: "static abstract interpretation over SSA of write and sum histories with unknown bytes and an uninterpreted permutation; digests are terms, compared with the sponge construction",
		explanation: "The constructors and one-shot functions of the keccak package, and the methods of the hashes they give, are interpreted on histories of writes, sums and resets with unknown bytes; the permutation is an uninterpreted function of the state. Lengths cover every position around the block size, splits put each write's start and end " +
			"at every such position. The digest is a term over the bytes; it must be the sponge with the original Keccak padding over everything written since the last reset.",
		assumptions: []string{"the permutation is a function of the 25 words of the state", "the machine is little-endian, as the one the package is compiled for"},
		min:         300,
		run:         runHash,
	}
}

type hashRun struct {
	*hist
	base *State
	env  *evalEnv
	rng  *rand.Rand
	n    int
	bad  bool
	what string
	fn   *ssa.Function
}

func (r *hashRun) say(rule, f string, a ...interface{}) bool {
	if !r.bad {
		r.c.bad(rule, fnName(r.fn), r.fn.Pos(), "%s: %s", r.what, fmt.Sprintf(f, a...))
	}
	r.bad = true
	return false
}

// intercept: a function without a body that takes the state permutes it
func (r *hashRun) intercept(fr *frame, st *State, fn *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
	if fn == nil || len(fn.Blocks) != 0 || !inRepo(fn) || len(args) != 1 {
		return nil, false
	}
	a := deref(sig.Params().At(0).Type())
	if a == nil || arrayOf(a) == nil || arrayOf(a).Len() != 25 {
		return nil, false
	}
	u64 := types.Typ[types.Uint64]
	c := r.x.load(st, args[0], a)
	var in []*T
	for i := int64(0); i < 25; i++ {
		in = append(in, cSel(c, mkInt(i), u64))
	}
	v := cVec(in...)
	var out []*T
	for i := int64(0); i < 25; i++ {
		out = append(out, mk("fn", "permword", u64, v, mkInt(i)))
	}
	st = st.clone()
	r.x.store(st, args[0], cVec(out...), a)
	return one(st), true
}

// permuted is the permutation of a sample
func permuted(a [25]uint64) (out [25]uint64) {
	for i := range out {
		h := fnv.New64a()
		var b [8]byte
		for _, w := range a {
			binary.BigEndian.PutUint64(b[:], w)
			h.Write(b[:])
		}
		h.Write([]byte{byte(i)})
		out[i] = h.Sum64() * 0x9e3779b97f4a7c15
	}
	return
}

// spongeOf is the sponge over known bytes
func spongeOf(rate, size int, data []byte) []byte {
	p := append(append([]byte{}, data...), 1)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] ^= 0x80
	var a [25]uint64
	for ; len(p) > 0; p = p[rate:] {
		for i := 0; i < rate/8; i++ {
			a[i] ^= binary.LittleEndian.Uint64(p[8*i:])
		}
		a = permuted(a)
	}
	var out []byte
	for i := 0; len(out) < size; i++ {
		out = binary.LittleEndian.AppendUint64(out, a[i])
	}
	return out[:size]
}

func runHash(c *Check) {
	r := &hashRun{env: newEnv(), rng: rand.New(rand.NewSource(1))}
	r.hist, r.base = c.newHist(func(x *Exec) {
		x.hook = r.intercept
		x.noSponge = true
		x.unrollMax = 5000
	})
	r.types = map[string]types.Type{}
	for _, h := range []struct{ mk, sum, size, rate int }{{224, 224, 28, 144}, {256, 256, 32, 136}, {384, 384, 48, 104}, {512, 512, 64, 72}} {
		if !r.hash(h.mk, h.size, h.rate) {
			break
		}
	}
	c.obl += r.n
	c.done += r.n
}

type hashObj struct {
	v  *T
	dt types.Type
}

func (r *hashRun) method(h hashObj, name string) *ssa.Function {
	f := r.c.w.prog.LookupMethod(h.dt, nil, name)
	if f == nil {
		r.say("analysis", "no method %s", name)
	}
	return f
}

func (r *hashRun) call(st *State, fn *ssa.Function, args ...*T) (*State, []*T, bool) {
	r.fn = fn
	s2, rets, ok := r.do(st.clone(), fn, args...)
	if !ok {
		return nil, nil, r.say("analysis", "%s", r.hist.fail)
	}
	return s2, rets, true
}

// data is unknown bytes
func (r *hashRun) data(name string, n int) *T {
	c := symBytes(name, n)
	for _, b := range c.args {
		r.env.set(b, bi(int64(r.rng.Intn(256))))
	}
	return c
}

func (r *hashRun) hash(bits, size, rate int) bool {
	mk, sum := r.c.fn("keccak", fmt.Sprintf("New%d", bits)), r.c.fn("keccak", fmt.Sprintf("Sum%d", bits))
	if mk == nil || sum == nil {
		return false
	}
	r.fn = mk
	r.what = fmt.Sprintf("the %d-bit hash", bits)
	at := []int{0, 1, 7, 8, 9, rate - 9, rate - 8, rate - 2, rate - 1, rate, rate + 1, rate + 8, 2*rate - 1, 2 * rate, 2*rate + 1, 3 * rate, 3*rate + 5}
	// one write, and the function that takes it all
	for _, n := range at {
		if !r.history(mk, size, rate, []int{n}) || !r.oneShot(sum, size, rate, n) {
			return false
		}
	}
	if bits == 256 {
		// long ones
		for _, n := range []int{9 * rate, 1100, 5000} {
			if !r.history(mk, size, rate, []int{n}) || !r.oneShot(sum, size, rate, n) {
				return false
			}
		}
	}
	// two and three writes
	pairs := at
	if bits != 256 {
		pairs = []int{0, 1, 9, rate - 1, rate, rate + 1, 2*rate + 1}
	}
	for _, a := range pairs {
		for _, b := range pairs {
			if !r.history(mk, size, rate, []int{a, b}) {
				return false
			}
		}
	}
	short := []int{0, 1, rate - 1, rate, rate + 1}
	if bits != 256 {
		short = []int{1, rate - 1, rate}
	}
	for _, a := range short {
		for _, b := range short {
			for _, c := range short {
				if !r.history(mk, size, rate, []int{a, b, c}) {
					return false
				}
			}
		}
	}
	return r.history(mk, size, rate, []int{3, rate - 4, 1, 5, rate - 6, 2, 2 * rate, 8})
}

func (r *hashRun) oneShot(sum *ssa.Function, size, rate, n int) bool {
	r.what = fmt.Sprintf("the hash of %d bytes", n)
	st := r.base.clone()
	c := r.data("d", n)
	p := r.x.newBytes(st, c, types.NewSlice(byteT))
	st, rets, ok := r.call(st, sum, p)
	if !ok {
		return false
	}
	return r.is(rets[0], spongeOf(rate, size, r.env.bytes(c)), "it") && r.kept(st, p, c)
}

func (r *hashRun) is(v *T, want []byte, what string) bool {
	r.n++
	got, ok := r.env.tryBytes(v)
	if !ok {
		return r.say("value", "%s is an unknown value (%s)", what, r.env.why(v))
	}
	if !bytes.Equal(got, want) {
		return r.say("value", "%s is not the sponge over what was written", what)
	}
	return true
}

func (r *hashRun) kept(st *State, p, c *T) bool {
	got, ok := r.env.tryBytes(r.x.content(st, p))
	if want := r.env.bytes(c); !ok || !bytes.Equal(got, want) {
		return r.say("effect", "the data that was passed is changed")
	}
	return true
}

// history: writes of these lengths, with a sum after each; the same again
// without sums between and after a reset
func (r *hashRun) history(mk *ssa.Function, size, rate int, lens []int) bool {
	bs := types.NewSlice(byteT)
	r.what = fmt.Sprintf("writes of %d bytes", lens)
	var parts []*T
	for i, n := range lens {
		parts = append(parts, r.data(fmt.Sprint("d", i), n))
	}
	st, rets, ok := r.call(r.base, mk)
	if !ok {
		return false
	}
	if rets[0].op != "iface" {
		return r.say("analysis", "what is made is unknown")
	}
	h := hashObj{rets[0].args[0], rets[0].obj.(types.Type)}
	write, sum, reset := r.method(h, "Write"), r.method(h, "Sum"), r.method(h, "Reset")
	sz, bl := r.method(h, "Size"), r.method(h, "BlockSize")
	if write == nil || sum == nil || reset == nil || sz == nil || bl == nil {
		return false
	}
	for _, q := range []struct {
		f    *ssa.Function
		want int
	}{{sz, size}, {bl, rate}} {
		_, rets, ok := r.call(st, q.f, h.v)
		if !ok {
			return false
		}
		if n, ok := rets[0].i64(); !ok || n != int64(q.want) {
			return r.say("value", "%s is %s, not %d", q.f.Name(), rets[0], q.want)
		}
	}
	digest := func(st *State, data []byte, what string) (*State, bool) {
		s2, rets, ok := r.call(st, sum, h.v, mkNil())
		if !ok {
			return nil, false
		}
		return s2, r.is(r.x.content(s2, rets[0]), spongeOf(rate, size, data), what)
	}
	for round := 0; round < 3; round++ {
		var all []byte
		if round == 2 && len(lens) > 2 {
			break
		}
		if round == 0 && len(lens) < 3 {
			if st, ok = digest(st, all, "the digest of nothing"); !ok {
				return false
			}
		}
		for i, c := range parts {
			if round == 2 && i > 0 {
				break // an unfinished round before
			}
			p := r.x.newBytes(st, c, bs)
			s2, rets, ok := r.call(st, write, h.v, p)
			if !ok {
				return false
			}
			st = s2
			if n, ok := rets[0].i64(); !ok || n != int64(lens[i]) || !rets[1].isNil() {
				return r.say("value", "writing %d bytes gives %s, %s", lens[i], rets[0], rets[1])
			}
			if !r.kept(st, p, c) {
				return false
			}
			// the hash keeps none of the caller's memory
			st = st.clone()
			r.x.store(st, p.args[0], cVec(make8(lens[i])...), nil)
			all = append(all, r.env.bytes(c)...)
			if round == 0 && i < len(parts)-1 {
				if st, ok = digest(st, all, fmt.Sprintf("the digest after write %d", i+1)); !ok {
					return false
				}
			}
		}
		// with a prefix, with room and without
		for _, room := range []int{0, size - 1, size, size + 9} {
			pre := r.data("prefix", 3)
			b := r.x.newBytes(st, cCat(pre, cZeros(mkInt(int64(room)), zeroByte())), bs)
			b = mkSlice(b.args[0], mkInt(0), mkInt(3), mkInt(int64(3+room)), bs)
			s2, rets, ok := r.call(st, sum, h.v, b)
			if !ok {
				return false
			}
			st = s2
			want := append(append([]byte{}, r.env.bytes(pre)...), spongeOf(rate, size, all)...)
			if !r.is(r.x.content(st, rets[0]), want, "the digest after a prefix") || !r.kept(st, b, pre) {
				return false
			}
			if len(lens) > 1 {
				break
			}
		}
		if st, ok = digest(st, all, "the digest, once more,"); !ok {
			return false
		}
		if s2, _, ok := r.call(st, reset, h.v); ok {
			st = s2
		} else {
			return false
		}
	}
	_, ok = digest(st, nil, "the digest after a reset")
	return ok
}

func make8(n int) []*T {
	var e []*T
	for i := 0; i < n; i++ {
		e = append(e, mkConst(mkInt(int64(0xaa)).val, byteT))
	}
	return e
}
