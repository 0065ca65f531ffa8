package main

// C32: eth signs with the one key that was asked for.

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"
)

func init() {
	checks["C32"] = &CheckDef{
		title:     "eth signs with the one key that was asked for, or not at all",
		technique: "static abstract interpretation over SSA of the command from main on, over scripted sets of key files and hardware keys; what is signed is a term over the unknown input",
		explanation: "The commands that sign are interpreted from main on over sets of key files (in one or several directories, with and without name and address, broken in every way) and keys of a hardware module, for key specifications that match none, one or several. " +
			"The account that signs and the hash it signs, a term over the unknown bytes of the input, are compared with the specification, as is what is printed; in all other cases nothing may be signed or sent. The list of keys must have every usable key once.",
		assumptions: []string{"the regexp, flag, encoding/json and fmt packages behave as documented", "opening a key file and the signature itself are the subject of other properties", "sets of keys between those tried behave alike"},
		min:         500,
		run:         runEthKeys,
	}
}

type ethKeys struct {
	*ethCall
	set []keyOf
}

type keyOf struct {
	id, name, acct string
	addr, hsm      bool
	dir, broken    string
}

func (k keyOf) label() string {
	if k.name != "" && !k.hsm {
		return k.name
	}
	return k.id
}

func (k keyOf) address() string {
	if !k.addr && !k.hsm {
		return "0x" + strings.Repeat("0", 40)
	}
	return fmt.Sprintf("0x%040x", k.acct[0])
}

// text is the key file
func (k keyOf) text() *T {
	acct := ""
	if k.addr {
		acct = k.acct
	}
	s := keyfileText(k.id, k.name, acct)
	if k.name == "" {
		s = strings.Replace(s, `"name":"",`, "", 1)
	}
	cut := func(a, b string) {
		if !strings.Contains(s, a) {
			panic(a)
		}
		s = strings.Replace(s, a, b, 1)
	}
	switch k.broken {
	case "unreadable":
		return nil
	case "empty":
		s = ""
	case "text":
		s = "hello"
	case "cut":
		s = s[:len(s)-3]
	case "noid":
		cut(fmt.Sprintf(`"id":%q,`, k.id), "")
	case "emptyid":
		cut(fmt.Sprintf(`"id":%q,`, k.id), `"id":"",`)
	case "nomac":
		cut(`,"mac":"00"`, "")
	case "nokdf":
		cut(`"kdf":"scrypt",`, "")
	case "nocipher":
		cut(`"cipher":"aes-128-ctr",`, "")
	case "noversion":
		cut(`"version":3,`, "")
	case "version0":
		cut(`"version":3,`, `"version":0,`)
	case "nocrypto":
		s = fmt.Sprintf(`{"id":%q,"version":3,"name":%q}`, k.id, k.name)
	case "list":
		s = "[" + s + "]"
	case "otherobject":
		s = `{"a":1}`
	case "wrongtype":
		cut(`"version":3`, `"version":"three"`)
	}
	return cLit(s)
}

var brokenFiles = []string{"unreadable", "empty", "text", "cut", "noid", "emptyid", "nomac", "nokdf", "nocipher", "noversion", "version0", "nocrypto", "list", "otherobject", "wrongtype", "dir"}

// with is the set of keys there are
func (r *ethKeys) with(env map[string]string, dirs []string, ks ...keyOf) {
	r.env = map[string]string{"SETH_URL": "http://node", "YUBIHSM_PASS": "x"}
	for k, v := range env {
		r.env[k] = v
	}
	r.set, r.hsm = ks, nil
	r.keys = map[string]ethKey{}
	r.dirs = map[string][]ethFile{}
	r.signers = []string{"a", "b", "c", "d", "e"}
	for _, d := range dirs {
		r.dirs[d] = nil
	}
	for i, k := range ks {
		if k.hsm {
			r.hsm = append(r.hsm, ethKey{id: k.id, pub: k.acct, hsm: true})
			continue
		}
		if k.dir == "" {
			k.dir = dirs[0]
		}
		f := ethFile{name: fmt.Sprintf("%c-key.json", 'p'+i), dir: k.broken == "dir", c: k.text()}
		r.dirs[k.dir] = append(r.dirs[k.dir], f)
		r.keys[k.id] = ethKey{id: k.id, pub: k.acct, name: k.name}
	}
}

// asked is the key that a specification asks for
func (r *ethKeys) asked(spec string) (k keyOf, one, told bool) {
	re, err := regexp.Compile(spec)
	if err != nil || spec == "" {
		return keyOf{}, false, true
	}
	n := 0
	for _, q := range r.set {
		if q.broken != "" || q.hsm && r.badHSM {
			continue
		}
		if !q.addr && !q.hsm && re.MatchString(q.address()) {
			return keyOf{}, false, false // the address is not in the file
		}
		if re.MatchString(q.label()) || re.MatchString(q.address()) {
			k = q
			n++
		}
	}
	return k, n == 1, true
}

func runEthKeys(c *Check) {
	e := c.newEthCall()
	if e == nil {
		return
	}
	r := &ethKeys{ethCall: e}
	_ = r.inputs() && r.choices() && r.passwords() && r.listing()
	c.obl += r.n
	c.done += r.n
}

// hashOf is what is signed, if it is one signature by that account
func (r *ethKeys) signature(who string, h []byte) error {
	if r.exit != 0 {
		return fmt.Errorf("the command fails")
	}
	if len(r.signed) != 1 {
		return fmt.Errorf("%d signatures are made", len(r.signed))
	}
	if w, _ := r.signed[0].args[1].str(); w != who {
		return fmt.Errorf("account %q signs and not %q", w, who)
	}
	g, ok := r.text(r.signed[0].args[0])
	if !ok {
		return fmt.Errorf("it is unknown what is signed: %s", clip(r.signed[0].args[0].String(), 100))
	}
	if g != string(h) {
		return fmt.Errorf("the hash %x is signed and not %x", g, h)
	}
	return nil
}

// inputs: what is signed is the hash of the input, and the signature printed
func (r *ethKeys) inputs() bool {
	r.with(map[string]string{"KEY_PATH": "/keys", "ETHER_ADDR": "mine"}, []string{"/keys"}, keyOf{id: "k1", name: "mine", acct: "a", addr: true})
	type input struct {
		flags  []string
		prefix string
		hashed bool
		mode   string
	}
	var ins []input
	for _, m := range []string{"", "-x", "-j"} {
		var mf []string
		if m != "" {
			mf = []string{m}
		}
		ins = append(ins, input{mf, "", false, m})
		ins = append(ins, input{append([]string{"-h"}, mf...), "", true, m})
		for _, p := range []string{"p", "\x19Ethereum Signed Message:\n32", strings.Repeat("long", 50)} {
			ins = append(ins, input{append(mf, "-prefix", p), p, false, m})
			ins = append(ins, input{append([]string{"-prefix=" + p}, mf...), p, false, m})
		}
	}
	for _, in := range ins {
		for _, n := range []int{0, 1, 31, 32, 33, 64, 136, 200} {
			for _, from := range []string{"/doc", "-"} {
				doc := symsOf("in", n)
				r.files, r.stdin = map[string]*T{}, nil
				if from == "-" {
					r.stdin = doc
				} else {
					r.files[from] = doc
				}
				args := append(append([]string{"sign"}, in.flags...), from)
				r.what = fmt.Sprintf("eth %q with %d bytes of input", args, n)
				var line []*T
				for _, a := range args {
					line = append(line, constStr(a))
				}
				var ss []sampleVals
				data := map[int][]byte{}
				for k := 0; k < 2; k++ {
					b := make([]byte, n)
					r.rng.Read(b)
					if k == 1 && n > 0 {
						b[0], b[n-1] = 0, '\n'
					}
					data[k] = b
					ss = append(ss, sampleVals{}.bytes(doc, b))
				}
				if !r.cover(ss, func() (func() error, bool) {
					if !r.eth(line...) {
						return nil, false
					}
					return func() error {
						b := make([]byte, n)
						for i, s := range doc.args {
							b[i] = byte(r.env2i(s))
						}
						h := keccakSum(append([]byte(in.prefix), b...))
						if in.hashed {
							if n != 32 {
								return r.nothing()
							}
							h = b
						}
						if err := r.signature("a", h); err != nil {
							return err
						}
						if len(r.sends()) > 0 || len(r.node.reqs) > 0 {
							return fmt.Errorf("the node is asked")
						}
						return r.shown(in.mode, signatureBytes("a", h))
					}, true
				}) {
					return false
				}
			}
		}
	}
	r.files, r.stdin = map[string]*T{"/doc": cLit("hello"), "/h": cLit(strings.Repeat("h", 32))}, nil
	for _, a := range [][]string{
		{"sign"}, {"sign", "/doc", "/doc"}, {"sign", "/missing"}, {"sign", "-h", "/doc"}, {"sign", "-x", "-j", "/doc"}, {"sign", "-h", "-prefix", "p", "/h"}, {"sign", "-z", "/doc"}, {"sign", "/doc", "-x"},
	} {
		if !r.line(r.nothing, a...) {
			return false
		}
	}
	return true
}

func (r *ethKeys) env2i(t *T) int64 {
	v, ok := r.env2(t)
	if !ok {
		return -1
	}
	return v.Int64()
}

// shown: the signature is printed in that form
func (r *ethKeys) shown(mode string, sig []byte) error {
	if mode == "-j" {
		var parts []*T
		for _, o := range r.out {
			if o.op == "seq" || o.op == "cat" {
				parts = append(parts, o.args...)
			} else {
				parts = append(parts, o)
			}
		}
		var obj *T
		for _, p := range parts {
			if p.op == "fn" && p.aux == "json" {
				if obj != nil {
					return fmt.Errorf("two objects are printed")
				}
				obj = p
			} else if s, ok := r.text(p); !ok || strings.TrimSpace(s) != "" {
				return fmt.Errorf("something else is printed: %s", clip(p.String(), 400))
			}
		}
		if obj == nil {
			return fmt.Errorf("no object is printed")
		}
		for n, want := range map[string][]byte{"r": sig[:32], "s": sig[32:64], "v": sig[64:]} {
			f, err := r.jsonField(obj, n)
			if err != nil || f == nil {
				return fmt.Errorf("%s is not printed", n)
			}
			w := new(big.Int).SetBytes(want)
			if g, ok := r.env2(f); !ok || g.Cmp(w) != 0 {
				return fmt.Errorf("%s is printed as %v and not %v", n, g, w)
			}
		}
		return nil
	}
	want := string(sig)
	if mode == "-x" {
		want = fmt.Sprintf("%x\n", sig)
	}
	if o, ok := r.printed(); !ok || o != want {
		return fmt.Errorf("%q is printed and not %q", o, want)
	}
	return nil
}

// ways to sign: with the sign command and by sending a call
func (r *ethKeys) attempt(env string) bool {
	k, one, told := r.asked(env)
	if !told {
		return true
	}
	r.env["ETHER_ADDR"] = env
	r.files = map[string]*T{"/doc": cLit("hello")}
	r.node.answer = r.respond
	ok := one && (k.hsm && !r.locked || !k.hsm && r.entered == nil && !r.noPass)
	if r.locked && len(r.hsm) > 0 {
		ok = false
	}
	var what []string
	for _, q := range r.set {
		s := q.id
		if q.name != "" {
			s += "/" + q.name
		}
		if q.hsm {
			s += " in the module"
		}
		if q.broken != "" {
			s += " (" + q.broken + ")"
		}
		what = append(what, s)
	}
	says := func(err error) error {
		if err == nil {
			return nil
		}
		return fmt.Errorf("for %q among keys %s: %v", env, strings.Join(what, ", "), err)
	}
	if !r.line(func() error {
		if !ok {
			return says(r.nothing())
		}
		h := keccakSum([]byte("hello"))
		if err := r.signature(k.acct, h); err != nil {
			return says(err)
		}
		return says(r.shown("-x", signatureBytes(k.acct, h)))
	}, "sign", "-x", "/doc") {
		return false
	}
	w := r.plain()
	w.from = k.acct
	w.data, _ = abiCallData("f(uint8)", []string{"uint8"}, []string{"7"})
	return r.line(func() error {
		if !ok {
			return says(r.nothing())
		}
		if err := r.sent(w); err != nil {
			return says(err)
		}
		for _, q := range r.node.reqs {
			if q.method == "eth_getTransactionCount" {
				a, _ := r.text(jsonValue(q.params[0]))
				if "0x"+fmt.Sprintf("%x", a) != fmt.Sprintf("0x%040x", k.acct[0]) {
					return says(fmt.Errorf("the nonce is that of %x", a))
				}
			}
		}
		return nil
	}, "call", "-f", ethTo, "f(uint8)", "7")
}

var keySpecs = []string{"mine", "^mine$", "^min$", "in", "k1", "^k2$", "k", ".*", "", "[", "nothing", "MINE", "(?i)MINE", "61$", "62$", "63", "^0x0{38}64$", "^0x", "other|mine", "h1", "^h", "0x0000000000000000000000000000000000000061", "mine2", "^$"}

func (r *ethKeys) choices() bool {
	mine := keyOf{id: "k1", name: "mine", acct: "a", addr: true}
	other := keyOf{id: "k2", name: "other", acct: "b", addr: true}
	bare := keyOf{id: "k3", acct: "c", addr: true}
	noaddr := keyOf{id: "k4", name: "mine2", acct: "d"}
	h1 := keyOf{id: "h1", acct: "e", hsm: true}
	h2 := keyOf{id: "mine", acct: "b", hsm: true}
	in := func(k keyOf, dir string) keyOf { k.dir = dir; return k }
	broke := func(k keyOf, how string) keyOf { k.broken = how; return k }
	one := map[string]string{"KEY_PATH": "/keys"}
	two := map[string]string{"KEY_PATH": "/keys:/more"}
	home := map[string]string{"HOME": "/home/u"}
	hd := []string{"/home/u/.parity/keys/ethereum", "/home/u/.ethereum/keystore"}
	sets := []struct {
		env  map[string]string
		dirs []string
		ks   []keyOf
	}{
		{one, []string{"/keys"}, nil},
		{one, []string{"/keys"}, []keyOf{mine}},
		{one, []string{"/keys"}, []keyOf{mine, other}},
		{one, []string{"/keys"}, []keyOf{other, mine}},
		{one, []string{"/keys"}, []keyOf{bare, other, mine}},
		{one, []string{"/keys"}, []keyOf{mine, bare, other}},
		{one, []string{"/keys"}, []keyOf{noaddr}},
		{one, []string{"/keys"}, []keyOf{noaddr, other}},
		{one, []string{"/keys"}, []keyOf{mine, noaddr}},
		{one, []string{"/keys"}, []keyOf{mine, mine}},
		{one, []string{"/keys"}, []keyOf{h1}},
		{one, []string{"/keys"}, []keyOf{h1, h2}},
		{one, []string{"/keys"}, []keyOf{h2, h1}},
		{one, []string{"/keys"}, []keyOf{other, h1, h2}},
		{one, []string{"/keys"}, []keyOf{mine, bare, h1}},
		{one, []string{"/keys"}, []keyOf{mine, h2}},
		{two, []string{"/keys", "/more"}, []keyOf{mine, in(other, "/more")}},
		{two, []string{"/keys", "/more"}, []keyOf{other, in(mine, "/more"), in(bare, "/more")}},
		{two, []string{"/keys", "/more"}, []keyOf{in(mine, "/more"), h1}},
		{two, []string{"/keys", "/more"}, []keyOf{mine, in(mine, "/more")}},
		{home, hd, []keyOf{mine}},
		{home, hd, []keyOf{in(mine, hd[1]), other}},
	}
	for _, s := range sets {
		r.with(s.env, s.dirs, s.ks...)
		for _, spec := range keySpecs {
			if !r.attempt(spec) {
				return false
			}
		}
	}
	for _, how := range brokenFiles {
		for _, ks := range [][]keyOf{{broke(mine, how)}, {broke(mine, how), other}, {other, broke(mine, how)}, {mine, broke(bare, how), other}, {broke(keyOf{id: "k9", name: "mine", acct: "b", addr: true}, how), mine, h1}} {
			r.with(one, []string{"/keys"}, ks...)
			for _, spec := range []string{"mine", "k", "other", "^h1$", "61$"} {
				if !r.attempt(spec) {
					return false
				}
			}
		}
	}
	return true
}

func (r *ethKeys) passwords() bool {
	one := map[string]string{"KEY_PATH": "/keys"}
	mine := keyOf{id: "k1", name: "mine", acct: "a", addr: true}
	other := keyOf{id: "k2", name: "other", acct: "b", addr: true}
	h1 := keyOf{id: "h1", acct: "e", hsm: true}
	defer func() { r.entered, r.noPass, r.locked, r.badHSM = nil, false, false, false }()
	for _, f := range []func(){
		func() { r.entered = symsOf("wrong", 5) },
		func() { r.entered = cVec() },
		func() { r.noPass = true },
		func() { r.locked = true },
		func() { r.badHSM = true },
	} {
		r.entered, r.noPass, r.locked, r.badHSM = nil, false, false, false
		f()
		for _, ks := range [][]keyOf{{mine}, {mine, other}, {h1}, {mine, h1}} {
			r.with(one, []string{"/keys"}, ks...)
			for _, spec := range []string{"mine", "other", "h1", "65$"} {
				if !r.attempt(spec) {
					return false
				}
			}
		}
	}
	return true
}

// listing: every key is listed once
func (r *ethKeys) listing() bool {
	r.entered, r.noPass, r.locked, r.badHSM = nil, false, false, false
	mine := keyOf{id: "k1", name: "mine", acct: "a", addr: true}
	long := keyOf{id: "34c2daa8-3bec-767f-ef97-ea6084fc6a51", acct: "b", addr: true}
	noaddr := keyOf{id: "k4", name: "a name much longer than an identifier is", acct: "d"}
	h1 := keyOf{id: "h1", acct: "e", hsm: true}
	two := map[string]string{"KEY_PATH": "/keys:/more"}
	var sets [][]keyOf
	for m := 0; m < 16; m++ {
		var ks []keyOf
		for i, k := range []keyOf{mine, long, noaddr, h1} {
			if m>>uint(i)&1 == 1 {
				if i == 1 {
					k.dir = "/more"
				}
				ks = append(ks, k)
			}
		}
		sets = append(sets, ks)
	}
	for _, how := range brokenFiles {
		b := mine
		b.broken = how
		sets = append(sets, []keyOf{b, long}, []keyOf{noaddr, b, h1})
	}
	for _, ks := range sets {
		r.with(two, []string{"/keys", "/more"}, ks...)
		if !r.line(func() error {
			if r.exit != 0 {
				return fmt.Errorf("the command fails")
			}
			o, ok := r.printed()
			if !ok {
				return fmt.Errorf("it is unknown what is printed")
			}
			seen := map[string]int{}
			for _, l := range strings.Split(strings.TrimSuffix(o, "\n"), "\n") {
				if l == "" {
					continue
				}
				i := strings.LastIndex(l, " ")
				seen[strings.TrimSpace(l[:i+1])+" "+l[i+1:]]++
			}
			n := 0
			for _, k := range r.set {
				if k.broken != "" {
					continue
				}
				n++
				found := 0
				for s, q := range seen {
					if !k.addr && !k.hsm && strings.HasPrefix(s, k.label()+" ") || s == k.label()+" "+k.address() {
						found += q
					}
				}
				if found != 1 {
					return fmt.Errorf("key %s is listed %d times in %q", k.label(), found, o)
				}
			}
			all := 0
			for _, q := range seen {
				all += q
			}
			if all != n {
				return fmt.Errorf("%d keys are listed and not %d: %q", all, n, o)
			}
			return nil
		}, "keys") {
			return false
		}
	}
	return true
}
