package main

// C13: key files. Key derivation, the cipher and the hash are functions of
// what they are given; files that are right and files that are not are read
// by the interpreted code.

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C13"] = &CheckDef{
		title:     "Key files open with their passphrase only, and malformed ones fail cleanly",
		technique: "static abstract interpretation over SSA into a free algebra of derivations, hashes and key streams; enumerated classes of well-formed and malformed key files",
		explanation: "Opening a key file and making one are interpreted with an unknown key and unknown passphrases; key derivation, the key stream and the hash give terms over everything they are given. " +
			"Files of every derivation function, parameter class, length and malformation are read: the result must be the key as the file has it encrypted, or an error; a panic is a violation. A file that is made is encoded, searched for bytes of the key, of the derived key and of the passphrase, decoded and opened again.",
		assumptions: []string{"different inputs of the hash and of key derivation give different outputs", "encoding/json and encoding/hex read and write values as documented"},
		min:         150,
		run:         runKeyfile,
	}
}

type keyRun struct {
	passLen int // length of the passphrase, if not 7
	*hist
	blocks  map[string]*T
	streams map[string]*keyStream
	rnd     int
	bad     bool
	what    string
	fn      *ssa.Function
	base    *State
	priv    *T // the key, once more
	n       int
}

type keyStream struct {
	key, iv *T
	pos     int
}

func (r *keyRun) say(rule, f string, a ...interface{}) bool {
	if !r.bad {
		r.c.bad(rule, fnName(r.fn), r.fn.Pos(), "%s: %s", r.what, fmt.Sprintf(f, a...))
	}
	r.bad = true
	return false
}

func symBytes(name string, n int) *T {
	var e []*T
	for i := 0; i < n; i++ {
		e = append(e, mk("fn", "symbyte", byteT, mkStr(name), mkInt(int64(i))))
	}
	return cVec(e...)
}

// vecOf spreads a content of known length into its elements
func vecOf(c *T) *T {
	n, ok := cLen(c).i64()
	if !ok {
		return c
	}
	var e []*T
	for i := int64(0); i < n; i++ {
		e = append(e, cSel(c, mkInt(i), byteT))
	}
	return cVec(e...)
}

func derivedKey(kdf string, pass, salt *T, n int64, params ...*T) *T {
	d := mk("fn", kdf, nil, append([]*T{vecOf(pass), vecOf(salt)}, params...)...)
	var e []*T
	for i := int64(0); i < n; i++ {
		e = append(e, mk("fn", "derived", byteT, d, mkInt(i)))
	}
	return cVec(e...)
}

// xorStream is a byte under byte i of a key stream
func xorStream(b, key, iv *T, i int) *T {
	k := mk("fn", "ks", nil, key, iv, mkInt(int64(i)))
	if b.op == "fn" && b.aux == "under" && b.args[1] == k {
		return b.args[0]
	}
	return mk("fn", "under", byteT, b, k)
}

func underStream(c, key, iv *T) *T {
	n, _ := cLen(c).i64()
	var e []*T
	for i := 0; i < int(n); i++ {
		e = append(e, xorStream(cSel(c, mkInt(int64(i)), byteT), vecOf(key), vecOf(iv), i))
	}
	return cVec(e...)
}

func hashOf(parts ...*T) *T {
	c := cVec()
	for _, p := range parts {
		c = cCat(c, p)
	}
	k := keccak256(vecOf(c))
	return vecOf(cSub(k, mkInt(0), mkInt(32)))
}

func (r *keyRun) intercept(fr *frame, st *State, fn *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
	x := r.x
	broke := func(tag string, rets ...*T) []outcome {
		st = st.clone()
		e := x.err(tag)
		st.facts = st.facts.push(mkNot(mkEq(e, mkNil(), errorT)))
		return one(st, append(rets, e)...)
	}
	num := func(i int) int64 {
		n, ok := args[i].i64()
		if !ok {
			x.fail("parameter %d of %s is unknown", i, nm)
		}
		return n
	}
	switch nm {
	case "encoding/json.Marshal":
		c, ok := r.toJSON(st, args[0], nil)
		if !ok {
			x.fail("the encoding of %s is unknown", clip(args[0].String(), 60))
			return nil, true
		}
		st = st.clone()
		return one(st, x.newBytes(st, c, types.NewSlice(byteT)), mkNil()), true
	case "encoding/json.Unmarshal":
		st = st.clone()
		c := x.content(st, args[0])
		if n, ok := cLen(c).i64(); ok && n == 0 {
			return broke(nm), true
		}
		outs := r.unmarshal(st, c, args[1], fr)
		if len(outs) == 1 && !outs[0].rets[0].isNil() {
			st = outs[0].st
			return broke(nm), true
		}
		return outs, true
	case "encoding/hex.DecodeString", "encoding/hex.Decode":
		var src *T
		if nm == "encoding/hex.Decode" {
			src = x.content(st, args[1])
		} else {
			src = strContent(args[0])
		}
		var out *T
		bad := false
		if b, ok := constBytes(src); ok {
			raw, ok := rawHex(string(b))
			if !ok {
				bad = true
			}
			out = cLit(string(raw))
		} else if junk := mustConst(cSub(src, minus(cLen(src), mkInt(2)), mkInt(2))); junk == "zz" {
			// what comes before is decoded
			out, bad = src.args[0].args[0], true
		} else if src.op == "fn" && src.aux == "hexenc" {
			out = src.args[0]
		} else {
			return nil, false
		}
		st = st.clone()
		if nm == "encoding/hex.Decode" {
			d := x.parts(args[0])
			n, ok1 := cLen(out).i64()
			m, ok2 := d.len.i64()
			if !ok1 || !ok2 || n > m {
				x.fail("hex.Decode panics")
				return nil, true
			}
			x.store(st, d.base, cSplice(x.load(st, d.base, nil), d.off, out), nil)
			if bad {
				return broke(nm, mkInt(n)), true
			}
			return one(st, mkInt(n), mkNil()), true
		}
		b := x.newBytes(st, out, types.NewSlice(byteT))
		if bad {
			return broke(nm, b), true
		}
		return one(st, b, mkNil()), true
	case "bytes.Equal", "crypto/hmac.Equal", "crypto/subtle.ConstantTimeCompare":
		eq, ok := r.equal(x.content(st, args[0]), x.content(st, args[1]))
		if !ok {
			return nil, false
		}
		if nm == "crypto/subtle.ConstantTimeCompare" {
			return one(st, mkInt(b2i(eq))), true
		}
		return one(st, mkBool(eq)), true
	case "golang.org/x/crypto/pbkdf2.Key":
		it, n := num(2), num(3)
		if x.failed != "" {
			return nil, true
		}
		if n < 0 || n > 1<<20 {
			x.fail("pbkdf2.Key panics: a key of %d bytes", n)
			return nil, true
		}
		if it < 1 {
			x.fail("pbkdf2.Key with %d iterations", it)
			return nil, true
		}
		h := args[4]
		name := h.aux
		if f, ok := h.obj.(*ssa.Function); ok && (h.op == "func" || h.op == "closure") && (inRepo(f) || h.op == "closure") {
			outs := x.runFunc(f, nil, h.args, st)
			if len(outs) != 1 || outs[0].panic || outs[0].rets[0].op != "fn" || outs[0].rets[0].aux != "hashobj" {
				x.fail("the hash of pbkdf2.Key is unknown")
				return nil, true
			}
			st, name = outs[0].st, mustStr(outs[0].rets[0].args[0])
		} else if h.op != "func" {
			x.fail("the hash of pbkdf2.Key is %s", clip(h.String(), 40))
			return nil, true
		}
		st = st.clone()
		return one(st, x.newBytes(st, derivedKey("pbkdf2", x.content(st, args[0]), x.content(st, args[1]), n, mkInt(it), mkStr(name)), types.NewSlice(byteT))), true
	case "golang.org/x/crypto/scrypt.Key":
		n, rr, p, l := num(2), num(3), num(4), num(5)
		if x.failed != "" {
			return nil, true
		}
		if n <= 1 || n&(n-1) != 0 {
			return broke(nm, mkNil()), true
		}
		if rr < 1 || p < 1 || l < 0 || l > 1<<20 {
			x.fail("scrypt.Key panics: r=%d, p=%d, a key of %d bytes", rr, p, l)
			return nil, true
		}
		st = st.clone()
		return one(st, x.newBytes(st, derivedKey("scrypt", x.content(st, args[0]), x.content(st, args[1]), l, mkInt(n), mkInt(rr), mkInt(p)), types.NewSlice(byteT)), mkNil()), true
	case "crypto/sha1.New", "crypto/sha256.New", "crypto/sha256.New224", "crypto/sha512.New", "crypto/sha512.New384":
		return one(st, mk("fn", "hashobj", sig.Results().At(0).Type(), mkStr(nm))), true
	case "crypto/aes.NewCipher":
		k := x.content(st, args[0])
		n, ok := cLen(k).i64()
		if !ok {
			return nil, false
		}
		if n != 16 && n != 24 && n != 32 {
			return broke(nm, mkNil()), true
		}
		b := fmt.Sprint("block", len(r.blocks))
		r.blocks[b] = vecOf(k)
		return one(st, mk("sym", b, sig.Results().At(0).Type()), mkNil()), true
	case "crypto/cipher.NewCTR":
		k := r.blocks[args[0].aux]
		iv := x.content(st, args[1])
		n, ok := cLen(iv).i64()
		if k == nil || !ok {
			return nil, false
		}
		if n != 16 {
			x.fail("cipher.NewCTR panics: an initialization vector of %d bytes", n)
			return nil, true
		}
		s := fmt.Sprint("stream", len(r.streams))
		r.streams[s] = &keyStream{key: k, iv: vecOf(iv)}
		return one(st, mk("sym", s, sig.Results().At(0).Type())), true
	case "(crypto/cipher.Stream).XORKeyStream":
		s := r.streams[args[0].aux]
		d, c := x.parts(args[1]), x.content(st, args[2])
		n, ok1 := cLen(c).i64()
		l, ok2 := d.len.i64()
		if s == nil || !ok1 || !ok2 {
			return nil, false
		}
		if l < n {
			x.fail("XORKeyStream panics: %d bytes into %d", n, l)
			return nil, true
		}
		st = st.clone()
		var e []*T
		for i := int64(0); i < n; i++ {
			e = append(e, xorStream(cSel(c, mkInt(i), byteT), s.key, s.iv, s.pos))
			s.pos++
		}
		x.store(st, d.base, cSplice(x.load(st, d.base, nil), d.off, cVec(e...)), nil)
		return one(st), true
	case "crypto/rand.Read", "io.ReadFull", "io.ReadAtLeast":
		b := args[0]
		if nm != "crypto/rand.Read" {
			if !strings.Contains(args[0].String(), "crypto/rand.Reader") {
				return nil, false
			}
			b = args[1]
		}
		d := x.parts(b)
		n, ok := d.len.i64()
		if !ok {
			return nil, false
		}
		st = st.clone()
		r.rnd++
		x.store(st, d.base, cSplice(x.load(st, d.base, nil), d.off, symBytes(fmt.Sprint("random", r.rnd), int(n))), nil)
		return one(st, mkInt(n), mkNil()), true
	case "(*seth.PrivateKey).Address", "(*seth.PublicKey).Address", "(*seth.PrivateKey).PublicKey":
		st = st.clone()
		who := "other"
		if strings.Contains(nm, "PrivateKey") {
			if vecOf(x.load(st, args[0], r.c.typ("", "PrivateKey"))) == r.priv {
				who = "owner"
			}
		} else {
			if k := x.load(st, args[0], r.c.typ("", "PublicKey")); k.op == "fn" && k.aux == "pub" {
				who, _ = k.args[0].str()
			}
		}
		if strings.HasSuffix(nm, "PublicKey") {
			t := r.c.typ("", "PublicKey")
			p := x.newAlloc("pub", t)
			x.store(st, p, mk("fn", "pub", t, mkStr(who)), t)
			return one(st, p), true
		}
		t := r.c.typ("", "Address")
		p := x.newAlloc("addr", t)
		x.store(st, p, cLit(string(acctBytes(who))), t)
		return one(st, p), true
	}
	return nil, false
}

func acctBytes(who string) []byte {
	b := make([]byte, 20)
	for i := range b {
		b[i] = who[i%len(who)] + byte(i*7)
	}
	return b
}

// rawHex of a text; an odd or a wrong digit is no text
func rawHex(s string) ([]byte, bool) {
	out, err := hex.DecodeString(s)
	return out, err == nil
}

// equal: contents of the free algebra are equal when they are the same
func (r *keyRun) equal(a, b *T) (bool, bool) {
	n, ok1 := cLen(a).i64()
	m, ok2 := cLen(b).i64()
	if !ok1 || !ok2 {
		return false, false
	}
	return n == m && vecOf(a) == vecOf(b), true
}

func mustConst(c *T) string {
	b, _ := constBytes(c)
	return string(b)
}

// judge decides conditions on terms of the free algebra
func (r *keyRun) judge(c *T) int {
	switch c.op {
	case "not":
		return -r.judge(c.args[0])
	case "andb", "orb":
		all := 1
		if c.op == "orb" {
			all = -1
		}
		res := all
		for _, a := range c.args {
			switch r.judge(a) {
			case -all:
				return -all
			case 0:
				res = 0
			}
		}
		return res
	case "eq":
		a, b := c.args[0], c.args[1]
		if isStringT(a.typ) || isStringT(b.typ) {
			p, q := strContent(a), strContent(b)
			if p.op == "fn" && q.op == "fn" && p.aux == "hexenc" && q.aux == "hexenc" {
				p, q = p.args[0], q.args[0]
			}
			if r.free(p) && r.free(q) {
				if eq, ok := r.equal(p, q); ok {
					return int(2*b2i(eq) - 1)
				}
			}
			return 0
		}
		if r.free(a) && r.free(b) {
			return int(2*b2i(a == b) - 1)
		}
	}
	if c.isTrue() {
		return 1
	}
	if c.isFalse() {
		return -1
	}
	return 0
}

// free: is t made by constructors only?
func (r *keyRun) free(t *T) bool {
	switch {
	case t.isConst():
		return true
	case t.op == "vec" || t.op == "sel" || t.op == "sub" || t.op == "cat":
	case t.op == "fn" && containsStr([]string{"symbyte", "derived", "under", "ks", "keccak256", "hexenc", "pbkdf2", "scrypt"}, t.aux):
	default:
		return false
	}
	for _, a := range t.args {
		if !r.free(a) {
			return false
		}
	}
	return true
}

// ---- values as JSON ----

func jString(c *T) *T {
	if b, ok := constBytes(c); ok {
		q, _ := json.Marshal(string(b))
		return cLit(string(q))
	}
	return mk("fn", "jstr", nil, c)
}

// toJSON is the encoding of a value
func (r *keyRun) toJSON(st *State, v *T, t types.Type) (*T, bool) {
	x := r.x
	if t == nil || types.IsInterface(t) {
		if v.isNil() {
			return cLit("null"), true
		}
		if v.op != "iface" {
			return nil, false
		}
		return r.toJSON(st, v.args[0], v.obj.(types.Type))
	}
	if types.TypeString(t, nil) == "encoding/json.RawMessage" {
		if v.isNil() {
			return cLit("null"), true
		}
		c := x.content(st, v)
		n, ok := cLen(c).i64()
		if ok && n == 0 {
			return nil, false // an error
		}
		return c, true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if v.isNil() {
			return cLit("null"), true
		}
		return r.toJSON(st, x.load(st, v, u.Elem()), u.Elem())
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return jString(strContent(v)), true
		case u.Info()&types.IsInteger != 0:
			n, ok := v.i64()
			return cLit(fmt.Sprint(n)), ok
		case u.Info()&types.IsBoolean != 0:
			return cLit(fmt.Sprint(v.isTrue())), v.isTrue() || v.isFalse()
		}
	case *types.Struct:
		var kv []interface{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() || jsonName(u, i) == "-" {
				continue
			}
			fv := structField(v, t, i)
			if fv == nil {
				return nil, false
			}
			if strings.Contains(u.Tag(i), ",omitempty") {
				if s, ok := fv.str(); ok && s == "" || fv.isNil() {
					continue
				}
				if n, ok := fv.i64(); ok && n == 0 {
					continue
				}
			}
			e, ok := r.toJSON(st, fv, f.Type())
			if !ok {
				return nil, false
			}
			kv = append(kv, jsonName(u, i), e)
		}
		return jObject(kv...), true
	case *types.Map:
		if v.isNil() {
			return cLit("null"), true
		}
		es := x.mapEntries(st, v)
		m := map[string]*T{}
		var ks []string
		for i := 0; i+1 < len(es); i += 2 {
			k, ok := es[i].str()
			if !ok {
				return nil, false
			}
			e, ok := r.toJSON(st, es[i+1], u.Elem())
			if !ok {
				return nil, false
			}
			m[k] = e
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var kv []interface{}
		for _, k := range ks {
			kv = append(kv, k, m[k])
		}
		return jObject(kv...), true
	}
	return nil, false
}

// ---- files ----

// kfile describes a key file
type kfile struct {
	kdf           string
	prf, prfUsed  string
	c, n, r, p, l int64
	salt, iv, key *T // contents; salt and iv raw
	saltX, ivX    string
	cipher        string
	textX, macX   string
	mac           func(key, text *T) *T
	address, junk string
	drop          map[string]bool
	put           map[string]string // fields written out
}

func goodFile(kdf string) *kfile {
	f := &kfile{kdf: kdf, prf: "hmac-sha256", c: 10240, n: 8192, r: 8, p: 1, l: 32, cipher: "aes-128-ctr"}
	f.salt, f.iv, f.key = symBytes("salt", 32), symBytes("iv", 16), symBytes("key", 32)
	f.mac = func(key, text *T) *T { return hashOf(cSub(key, mkInt(16), mkInt(16)), text) }
	return f
}

var prfName = map[string]string{"hmac-sha512": "crypto/sha512.New", "hmac-sha384": "crypto/sha512.New384", "hmac-sha256": "crypto/sha256.New", "hmac-sha224": "crypto/sha256.New224", "hmac-sha1": "crypto/sha1.New"}

func (f *kfile) derive(pass *T) *T {
	l := f.l
	if l < 32 {
		l = 32
	}
	if strings.ToLower(f.kdf) == "scrypt" {
		return derivedKey("scrypt", pass, f.salt, l, mkInt(f.n), mkInt(f.r), mkInt(f.p))
	}
	prf := f.prfUsed
	if prf == "" {
		prf = prfName[strings.ToLower(f.prf)]
	}
	return derivedKey("pbkdf2", pass, f.salt, l, mkInt(f.c), mkStr(prf))
}

func (f *kfile) hex(name string, c *T, x string) *T {
	if x != "" {
		return jString(cLit(strings.TrimPrefix(x, "=")))
	}
	if f.junk == name {
		return jString(cCat(hexEnc(c), cLit("zz")))
	}
	return jString(hexEnc(c))
}

func (f *kfile) json(pass *T) *T {
	k := f.derive(pass)
	text := underStream(f.key, cSub(k, mkInt(0), mkInt(16)), f.iv)
	obj := func(kv ...interface{}) *T {
		var out []interface{}
		for i := 0; i+1 < len(kv); i += 2 {
			n := kv[i].(string)
			if f.drop[n] {
				continue
			}
			if s, ok := f.put[n]; ok {
				kv[i+1] = cLit(s)
			}
			out = append(out, n, kv[i+1])
		}
		return jObject(out...)
	}
	num := func(n int64) *T { return cLit(fmt.Sprint(n)) }
	params := obj("dklen", num(f.l), "n", num(f.n), "r", num(f.r), "p", num(f.p), "salt", f.hex("salt", f.salt, f.saltX))
	if strings.ToLower(f.kdf) != "scrypt" {
		params = obj("c", num(f.c), "dklen", num(f.l), "prf", jString(cLit(f.prf)), "salt", f.hex("salt", f.salt, f.saltX))
	}
	crypto := obj("cipher", jString(cLit(f.cipher)), "cipherparams", obj("iv", f.hex("iv", f.iv, f.ivX)), "ciphertext", f.hex("ciphertext", text, f.textX),
		"kdf", jString(cLit(f.kdf)), "kdfparams", params, "mac", f.hex("mac", f.mac(k, text), f.macX))
	kv := []interface{}{"crypto", crypto, "id", cLit(`"0b7b1b0e-3d0c-4f42-9ec0-3a4bb0d6b9ac"`), "version", cLit("3")}
	if f.address != "" {
		kv = append(kv, "address", jString(cLit(strings.TrimPrefix(f.address, "="))))
	}
	return obj(kv...)
}

const (
	keyMust = iota // the key
	keyNot         // an error
	keyMay         // either
)

// open reads a file and unlocks it
func (r *keyRun) load(st *State, j *T) (*State, *T, bool) {
	t := r.c.typ("", "Keyfile")
	st = st.clone()
	kf := r.x.newAlloc("file", t)
	outs := r.unmarshal(st, j, mkIface(types.NewPointer(t), kf), nil)
	if r.x.failed != "" {
		r.hist.fail = r.x.failed
		r.x.failed = ""
		return nil, nil, r.say("analysis", "reading it: %s", r.hist.fail)
	}
	if len(outs) != 1 || !outs[0].rets[0].isNil() {
		return nil, nil, true
	}
	return outs[0].st, kf, true
}

func (r *keyRun) open(st *State, kf, pass, want *T, expect int) (*State, bool) {
	x := r.x
	r.n++
	st = st.clone()
	r.blocks, r.streams = map[string]*T{}, map[string]*keyStream{}
	p := x.newBytes(st, pass, types.NewSlice(byteT))
	s2, rets, ok := r.do(st, r.fn, kf, p)
	if !ok {
		if strings.Contains(r.hist.fail, "panics") {
			return nil, r.say("panic", "%s", r.hist.fail)
		}
		return nil, r.say("analysis", "%s", r.hist.fail)
	}
	if vecOf(x.content(s2, p)) != vecOf(pass) {
		return nil, r.say("passphrase", "the passphrase is changed in the caller's hands")
	}
	switch {
	case r.isErr(s2, rets[1]):
		if expect == keyMust {
			return nil, r.say("open", "it does not open")
		}
		return s2, true
	case !rets[1].isNil() && decide(s2.facts, mkEq(rets[1], mkNil(), nil)) != 1:
		return nil, r.say("analysis", "the error is %s", clip(rets[1].String(), 40))
	case expect == keyNot:
		return nil, r.say("reject", "it opens")
	case rets[0].isNil():
		return nil, r.say("open", "neither a key nor an error")
	}
	if got := vecOf(x.load(s2, rets[0], r.c.typ("", "PrivateKey"))); got != want {
		return nil, r.say("key", "the key is %s", clip(got.String(), 100))
	}
	return s2, true
}

func (r *keyRun) file(what string, expect int, f *kfile) bool {
	r.what = what
	pass := symBytes("pass", 7)
	if r.passLen != 0 {
		pass = symBytes("pass", r.passLen)
	}
	r.priv = f.key
	st, kf, ok := r.load(r.base, f.json(pass))
	if !ok {
		return false
	}
	if kf == nil {
		if expect == keyMust {
			return r.say("open", "it cannot be read")
		}
		return true
	}
	// first with other passphrases: the file must not be changed by it
	other := symBytes("pass", 6)
	for _, o := range []*T{other, cVec(), cCat(pass, cVec(mkInt(10))), vecOf(cCat(other, cVec(mkInt(0))))} {
		r.what = what + ", with another passphrase"
		if st, ok = r.open(st, kf, vecOf(o), f.key, keyNot); !ok {
			return false
		}
	}
	r.what = what
	for i := 0; i < 2; i++ {
		if i == 1 {
			r.what = what + ", a second time"
		}
		if st, ok = r.open(st, kf, pass, f.key, expect); !ok {
			return false
		}
	}
	return true
}

func runKeyfile(c *Check) {
	r := &keyRun{}
	var st *State
	r.hist, st = c.newHist(func(x *Exec) { x.hook, x.judge = r.intercept, r.judge })
	r.types = map[string]types.Type{}
	r.base = st
	if r.fn = c.fn("", "(*Keyfile).Private"); r.fn == nil {
		return
	}
	_ = r.reads() && r.makes()
	c.obl += r.n
	c.done += r.n
}

func (r *keyRun) reads() bool {
	type edit func(f *kfile)
	run := func(what string, expect int, kdf string, e edit) bool {
		f := goodFile(kdf)
		if e != nil {
			e(f)
		}
		return r.file("a "+kdf+" key file "+what, expect, f)
	}
	for _, prf := range sortedStr(prfName) {
		if !run("with "+prf, keyMust, "pbkdf2", func(f *kfile) { f.prf = prf }) {
			return false
		}
	}
	for _, prf := range []string{"", "hmac-md5", "sha256", "hmac-sha256 ", "hmac"} {
		for _, used := range sortedStr(prfName) {
			if !run(fmt.Sprintf("with the unknown function %q, made with %s", prf, used), keyNot, "pbkdf2", func(f *kfile) { f.prf, f.prfUsed = prf, prfName[used] }) {
				return false
			}
		}
	}
	for _, kdf := range []string{"pbkdf2", "scrypt"} {
		ok := func(what string, expect int, e edit) bool { return run(what, expect, kdf, e) }
		good := ok("with ordinary parameters", keyMust, nil)
		for _, n := range []int{0, 1, 8, 31, 64, 65, 200} {
			good = good && ok(fmt.Sprintf("with a salt of %d bytes", n), map[bool]int{true: keyMay, false: keyMust}[n == 0], func(f *kfile) { f.salt = symBytes("salt", n) })
		}
		for _, n := range []int{1, 8, 64, 65, 73, 130, 300} {
			r.passLen = n
			good = good && ok(fmt.Sprintf("with a passphrase of %d bytes", n), keyMust, nil)
			r.passLen = 0
		}
		for _, l := range []int64{-1 << 31, -1, 0, 1, 15, 16, 24, 31} {
			good = good && ok(fmt.Sprintf("with dklen=%d", l), keyNot, func(f *kfile) { f.l = l })
		}
		// which bytes of a longer key are meant is not agreed upon
		for _, l := range []int64{33, 48, 64} {
			good = good && ok(fmt.Sprintf("with dklen=%d", l), keyMay, func(f *kfile) { f.l = l })
		}
		for _, n := range []int{0, 1, 8, 15, 17, 32} {
			good = good && ok(fmt.Sprintf("with an iv of %d bytes", n), keyNot, func(f *kfile) { f.iv = symBytes("iv", n) })
		}
		for _, n := range []int{0, 1, 16, 31, 33, 64} {
			good = good && ok(fmt.Sprintf("with a ciphertext of %d bytes", n), keyNot, func(f *kfile) { f.key = symBytes("key", n) })
		}
		for _, s := range []string{"=zz", "=abc", "=0x0011", "= "} {
			start, _ := rawHex(s[1:])
			good = good && ok(fmt.Sprintf("with the salt %q", s[1:]), keyNot, func(f *kfile) { f.saltX, f.salt = s, cLit(string(start)) }) &&
				ok(fmt.Sprintf("with the iv %q", s[1:]), keyNot, func(f *kfile) { f.ivX = s }) &&
				ok(fmt.Sprintf("with the ciphertext %q", s[1:]), keyNot, func(f *kfile) { f.textX = s }) &&
				ok(fmt.Sprintf("with the mac %q", s[1:]), keyNot, func(f *kfile) { f.macX = s })
		}
		for _, n := range []string{"salt", "iv", "ciphertext", "mac"} {
			good = good && ok("with something else behind the digits of "+n, keyNot, func(f *kfile) { f.junk = n })
		}
		for _, s := range []string{"", "aes-128-cbc", "aes-256-ctr", "aes-128-ctrx", "none"} {
			good = good && ok(fmt.Sprintf("with the cipher %q", s), keyNot, func(f *kfile) { f.cipher = s })
		}
		good = good && ok("with the cipher \"AES-128-CTR\"", keyMay, func(f *kfile) { f.cipher = "AES-128-CTR" })
		for _, m := range []struct {
			what string
			f    func(key, text, h *T) *T
		}{
			{"no mac", func(key, text, h *T) *T { return cVec() }},
			{"a mac of zero", func(key, text, h *T) *T { return cZeros(mkInt(32), mkInt(0)) }},
			{"a mac cut by a byte", func(key, text, h *T) *T { return vecOf(cSub(h, mkInt(0), mkInt(31))) }},
			{"a mac without its first byte", func(key, text, h *T) *T { return vecOf(cSub(h, mkInt(1), mkInt(31))) }},
			{"half a mac", func(key, text, h *T) *T { return vecOf(cSub(h, mkInt(0), mkInt(16))) }},
			{"a longer mac", func(key, text, h *T) *T { return vecOf(cCat(h, cVec(mkInt(0)))) }},
			{"another first byte of the mac", func(key, text, h *T) *T { return vecOf(cSplice(h, mkInt(0), cVec(symBytes("m", 1).args[0]))) }},
			{"another last byte of the mac", func(key, text, h *T) *T { return vecOf(cSplice(h, mkInt(31), cVec(symBytes("m", 1).args[0]))) }},
			{"another byte 16 of the mac", func(key, text, h *T) *T { return vecOf(cSplice(h, mkInt(16), cVec(symBytes("m", 1).args[0]))) }},
			{"a mac of the first half of the key", func(key, text, h *T) *T { return hashOf(cSub(key, mkInt(0), mkInt(16)), text) }},
			{"a mac of the key alone", func(key, text, h *T) *T { return hashOf(cSub(key, mkInt(16), mkInt(16))) }},
			{"a mac of the ciphertext alone", func(key, text, h *T) *T { return hashOf(text) }},
		} {
			good = good && ok("with "+m.what, keyNot, func(f *kfile) {
				right := f.mac
				f.mac = func(key, text *T) *T { return m.f(key, text, right(key, text)) }
			})
		}
		own := fmt.Sprintf("=%x", acctBytes("owner"))
		good = good && ok("with its address", keyMust, func(f *kfile) { f.address = own }) &&
			ok("with its address, prefixed", keyMay, func(f *kfile) { f.address = "=0x" + own[1:] }) &&
			ok("with its address in capitals", keyMust, func(f *kfile) { f.address = strings.ToUpper(own) })
		for _, s := range []string{fmt.Sprintf("=%x", acctBytes("other")), own[:len(own)-2], own + "00", "=zz", own[:len(own)-1], "=" + own[3:], "=00", own[:len(own)-2] + "01", "=ff" + own[3:]} {
			good = good && ok(fmt.Sprintf("with the address %q", s[1:]), keyNot, func(f *kfile) { f.address = s })
		}
		for _, n := range []string{"cipherparams", "kdfparams", "iv", "dklen", "crypto", "ciphertext", "mac", "cipher", "kdf", map[string]string{"pbkdf2": "c", "scrypt": "n"}[kdf]} {
			good = good && ok("without "+n, keyNot, func(f *kfile) { f.drop = map[string]bool{n: true} })
			for _, v := range []string{"null", "true", `""`} {
				good = good && ok(fmt.Sprintf("with %s for %s", v, n), keyNot, func(f *kfile) { f.put = map[string]string{n: v} })
			}
		}
		good = good && ok("with a number for its salt", keyNot, func(f *kfile) { f.put, f.salt = map[string]string{"salt": "5"}, cVec() }) &&
			ok("without its salt", keyNot, func(f *kfile) { f.drop = map[string]bool{"salt": true} })
		for _, k := range []string{"", "bcrypt", "pbkdf", kdf + "2"} {
			good = good && ok(fmt.Sprintf("that calls its derivation %q", k), keyNot, func(f *kfile) {
				f.put = map[string]string{"kdf": fmt.Sprintf("%q", k)}
			})
		}
		good = good && ok("that names the other derivation", keyNot, func(f *kfile) {
			f.put = map[string]string{"kdf": map[string]string{"scrypt": `"pbkdf2"`, "pbkdf2": `"scrypt"`}[kdf]}
		})
		if !good {
			return false
		}
	}
	for _, n := range []int64{1, 2, 1000, 262144} {
		if !run(fmt.Sprintf("with c=%d", n), keyMust, "pbkdf2", func(f *kfile) { f.c = n }) {
			return false
		}
	}
	for _, n := range []int64{0, -1, -1 << 40} {
		if !run(fmt.Sprintf("with c=%d", n), keyNot, "pbkdf2", func(f *kfile) { f.c = n }) {
			return false
		}
	}
	for _, p := range [][3]int64{{2, 1, 1}, {262144, 8, 1}, {262144, 1, 8}, {1024, 8, 6}, {16, 32, 3}} {
		if !run(fmt.Sprintf("with n=%d, r=%d, p=%d", p[0], p[1], p[2]), keyMust, "scrypt", func(f *kfile) { f.n, f.r, f.p = p[0], p[1], p[2] }) {
			return false
		}
	}
	for _, p := range [][3]int64{{0, 8, 1}, {1, 8, 1}, {3, 8, 1}, {1000, 8, 1}, {-2, 8, 1}, {8192, 0, 1}, {8192, 8, 0}, {8192, 0, 0}, {8192, -1, 1}, {8192, 1, -1}, {8192, -3, -3}} {
		if !run(fmt.Sprintf("with n=%d, r=%d, p=%d", p[0], p[1], p[2]), keyNot, "scrypt", func(f *kfile) { f.n, f.r, f.p = p[0], p[1], p[2] }) {
			return false
		}
	}
	return true
}

func sortedStr(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// makes: the file a key is put into
func (r *keyRun) makes() bool {
	x := r.x
	open := r.fn
	r.fn = r.c.fn("", "(*PrivateKey).ToKeyfile")
	if r.fn == nil {
		return false
	}
	kt, ft := r.c.typ("", "PrivateKey"), r.c.typ("", "Keyfile")
	var ivs, salts []*T
	st := r.base.clone()
	for i, n := range []int{7, 0, 1, 80} {
		r.what = fmt.Sprintf("file %d, with a passphrase of %d bytes", i+1, n)
		r.n++
		key, pass := symBytes(fmt.Sprint("key", i/2), 32), symBytes("pass", n)
		r.priv = key
		st = st.clone()
		r.blocks, r.streams = map[string]*T{}, map[string]*keyStream{}
		kp := x.newAlloc("key", kt)
		x.store(st, kp, key, kt)
		pp := x.newBytes(st, pass, types.NewSlice(byteT))
		s2, rets, ok := r.do(st, r.fn, kp, mkStr("a name"), pp)
		if !ok {
			return r.say("analysis", "%s", r.hist.fail)
		}
		st = s2
		if vecOf(x.load(st, kp, kt)) != key || vecOf(x.content(st, pp)) != pass {
			return r.say("make", "the key or the passphrase is changed")
		}
		j, ok := r.toJSON(st, rets[0], types.NewPointer(ft))
		if !ok {
			return r.say("make", "the file cannot be encoded")
		}
		// what it says
		at := func(c *T, path ...string) *T {
			for _, p := range path {
				var v *T
				if c != nil && c.op == "fn" && c.aux == "object" {
					for i := 0; i+1 < len(c.args); i += 2 {
						if s, _ := c.args[i].str(); s == p {
							v = c.args[i+1]
						}
					}
				}
				c = v
			}
			return c
		}
		text := func(v *T) *T { // of a hexadecimal string
			if v == nil || v.op != "fn" || v.aux != "jstr" || v.args[0].op != "fn" || v.args[0].aux != "hexenc" {
				return cVec()
			}
			return vecOf(v.args[0].args[0])
		}
		iv, salt := text(at(j, "crypto", "cipherparams", "iv")), text(at(j, "crypto", "kdfparams", "salt"))
		for _, v := range []struct {
			name string
			c    *T
			min  int
		}{{"salt", salt, 16}, {"initialization vector", iv, 16}} {
			if len(v.c.args) < v.min {
				return r.say("random", "a %s of %d bytes", v.name, len(v.c.args))
			}
			for _, b := range v.c.args {
				if b.op != "fn" || b.aux != "symbyte" || !strings.HasPrefix(mustStr(b.args[0]), "random") {
					return r.say("random", "a byte of the %s is %s", v.name, clip(b.String(), 60))
				}
			}
		}
		seen := map[*T]bool{}
		for _, b := range append(append([]*T{}, iv.args...), salt.args...) {
			if seen[b] {
				return r.say("random", "a random byte is used twice in salt and initialization vector")
			}
			seen[b] = true
		}
		for _, o := range append(append([]*T{}, ivs...), salts...) {
			for _, b := range o.args {
				if seen[b] {
					return r.say("random", "a random byte of another file is used again")
				}
			}
		}
		ivs, salts = append(ivs, iv), append(salts, salt)
		if c := at(j, "version"); c != cLit("3") {
			return r.say("make", "its version is not 3")
		}
		if c := at(j, "address"); c != nil {
			return r.say("make", "it has an address")
		}
		if c := at(j, "name"); c != cLit(`"a name"`) {
			return r.say("make", "its name is not the one given")
		}
		cost := int64(1)
		for _, f := range []string{"n", "r"} {
			b, _ := constBytes(orNull(at(j, "crypto", "kdfparams", f)))
			v, _ := strconv.ParseInt(string(b), 10, 64)
			cost *= v
		}
		if k := at(j, "crypto", "kdf"); k != cLit(`"scrypt"`) || cost < 1<<17 {
			return r.say("cost", "its key derivation costs too little")
		}
		// nothing of the key is left open
		if leak := leaks(j, "key"); leak != nil {
			return r.say("secret", "the key is in the file: %s", clip(leak.String(), 60))
		}
		if leak := leaks(j, "pass"); leak != nil {
			return r.say("secret", "the passphrase is in the file: %s", clip(leak.String(), 60))
		}
		if leak := leaks(j, "derived"); leak != nil {
			return r.say("secret", "the derived key is in the file: %s", clip(leak.String(), 60))
		}
		// and it can be opened, as it is and as it is read back
		mkfn := r.fn
		r.fn = open
		s3, kf, ok := r.load(st, j)
		if !ok {
			return false
		}
		if kf == nil {
			return r.say("make", "the encoded file cannot be read")
		}
		for _, o := range []struct {
			what string
			st   *State
			f    *T
		}{{"opened at once", st, rets[0]}, {"opened when read back", s3, kf}} {
			w := r.what
			r.what += ", " + o.what
			if _, ok := r.open(o.st, o.f, symBytes("other", n+1), key, keyNot); !ok {
				return false
			}
			if _, ok := r.open(o.st, o.f, pass, key, keyMust); !ok {
				return false
			}
			r.what = w
		}
		r.fn = mkfn
	}
	return true
}

func mustStr(t *T) string {
	s, _ := t.str()
	return s
}

func orNull(t *T) *T {
	if t == nil {
		return cLit("null")
	}
	return t
}

// leaks: a secret that is found outside what hides it
func leaks(t *T, what string) *T {
	if t.op == "fn" {
		switch t.aux {
		case "under":
			// the byte beneath is hidden unless the stream is nothing
			return nil
		case "keccak256", "sponge":
			return nil
		case "derived":
			if what == "derived" {
				return t
			}
			return nil
		case "symbyte":
			if s := mustStr(t.args[0]); strings.HasPrefix(s, what) {
				return t
			}
		}
	}
	for _, a := range t.args {
		if l := leaks(a, what); l != nil {
			return l
		}
	}
	return nil
}
