package main

// The eth command, interpreted from main on: its arguments, environment,
// files, keys and terminal, the node it talks to, what it prints and how it
// exits are scripted and recorded.

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ethFlag struct {
	kind string
	ptr  *T
	def  *T
}

type flagSet struct {
	defs map[string]ethFlag
	args []*T
}

type ethFile struct {
	name string
	dir  bool
	c    *T // content; nil if it can't be read
}

type ethKey struct {
	id   string
	pub  string // account
	name string
	hsm  bool
}

type ethRun struct {
	*sampleRun
	node     *nodeRun
	main     *ssa.Function
	inits    map[*T]*flagSet
	flags    map[*T]*flagSet
	once     map[*T]bool
	env      map[string]string
	dirs     map[string][]ethFile
	files    map[string]*T
	stdin    *T
	keys     map[string]ethKey // key files, by the id
	hsm      []ethKey
	noPass   bool
	entered  *T       // the passphrase that is typed, if not the right one
	locked   bool     // the HSM can't be unlocked
	signers  []string // accounts whose signatures can be recovered
	badHSM   bool
	noCreate bool
	made     int // keys that were generated
	dialed   string
	asked    []string // transports that were used
	std      map[string]*T
	// what happened
	out     []*T
	exit    int
	signed  []*T
	prompts int
	wrote   map[string]*T
	anyOpen bool
}

func (c *Check) newEthRun() *ethRun {
	r := &ethRun{inits: map[*T]*flagSet{}, std: map[string]*T{}}
	r.main = c.fn("cmd/eth", "main")
	if r.main == nil {
		return nil
	}
	r.sampleRun = c.newSampleRun()
	r.node = &nodeRun{hist: r.hist, answer: func(q nodeReq, n int) (*T, bool) { return nil, true }}
	r.sampleRun.extra = r.hook
	r.flags = r.inits
	r.fn = r.main
	r.x.maxSteps, r.x.unrollMax = 3000000, 3000
	st := r.base.clone()
	for _, n := range []string{"Stdin", "Stdout", "Stderr"} {
		g := c.w.prog.ImportedPackage("os").Var(n)
		p := r.x.newAlloc(n, deref(deref(g.Type())))
		r.std[n] = p
		st.mem = st.mem.set(c.w.global(g), p)
	}
	for _, m := range c.w.pkgs["cmd/eth"].Members {
		if g, ok := m.(*ssa.Global); ok {
			r.x.store(st, c.w.global(g), zeroOf(deref(g.Type())), deref(g.Type()))
		}
	}
	var ok bool
	if r.base, ok = r.initPackage(st, "cmd/eth"); !ok {
		return nil
	}
	return r
}

// reset forgets what an earlier run did
func (r *ethRun) reset() {
	r.flags = map[*T]*flagSet{}
	for k, f := range r.inits {
		n := &flagSet{defs: map[string]ethFlag{}}
		for s, d := range f.defs {
			n.defs[s] = d
		}
		r.flags[k] = n
	}
	r.once = map[*T]bool{}
	r.out, r.exit, r.signed, r.prompts, r.node.reqs = nil, 0, nil, 0, nil
	r.wrote = map[string]*T{}
	r.made, r.asked = 0, nil
}

// eth runs a command line
func (r *ethRun) eth(args ...*T) bool {
	r.reset()
	st := r.base.clone()
	g := r.c.w.prog.ImportedPackage("os").Var("Args")
	st.mem = st.mem.set(r.c.w.global(g), r.strs(st, append([]*T{constStr("eth")}, args...)...))
	r.fn = r.main
	outs := r.hist.call(st, r.main)
	if r.hist.fail != "" {
		f := r.hist.fail
		r.hist.fail = ""
		return r.say("analysis", "%s", f)
	}
	if len(outs) != 1 {
		return r.say("analysis", "%d outcomes", len(outs))
	}
	if outs[0].panic && r.exit == 0 {
		r.exit = 2
		if r.anyOpen {
			return r.say("panic", "the command panics")
		}
	}
	return true
}

// printed is what was written to the standard output
func (r *ethRun) printed() (string, bool) { return r.text(cCat(r.out...)) }

func (r *ethRun) quit(st *State, code int) []outcome {
	if r.exit == 0 {
		r.exit = code
	}
	return []outcome{{st: st, panic: true}}
}

func (r *ethRun) str(t *T) (string, bool) {
	if s, ok := t.str(); ok {
		return s, true
	}
	v, ok := r.ask(func() (interface{}, bool) {
		s, ok := r.text(strContent(t))
		return s, ok
	})
	if !ok {
		return "", false
	}
	return v.(string), true
}

func (r *ethRun) hook(fr *frame, st *State, fn *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
	x := r.x
	bad := func(tag string, rets ...*T) ([]outcome, bool) {
		st = st.clone()
		e := x.err(tag)
		st.facts = st.facts.push(mkNot(mkEq(e, mkNil(), errorT)))
		return one(st, append(rets, e)...), true
	}
	bytesT := types.NewSlice(byteT)
	switch {
	case nm == "seth.HashString" || nm == "seth.HashBytes":
		c := strContent(args[0])
		if nm == "seth.HashBytes" {
			c = x.content(st, args[0])
		}
		if b, ok := constBytes(c); ok {
			return one(st, cLit(string(keccakSum(b)))), true
		}
		return nil, false
	case strings.HasPrefix(nm, "sync/atomic.Add") && len(args) == 2:
		t := deref(sig.Params().At(0).Type())
		v := mkAdd(x.load(st, args[0], t), args[1], t)
		x.store(st, args[0], v, t)
		return one(st, v), true
	case nm == "os.Exit":
		n, _ := args[0].i64()
		return r.quit(st, int(n)), true
	case nm == "os.Getenv" || nm == "os.LookupEnv":
		n, ok := args[0].str()
		if !ok {
			return nil, false
		}
		v, set := r.env[n]
		if nm == "os.LookupEnv" {
			return one(st, constStr(v), mkBool(set)), true
		}
		return one(st, constStr(v)), true
	case strings.HasPrefix(nm, "(*flag.FlagSet)."):
		return r.flag(st, strings.TrimPrefix(nm, "(*flag.FlagSet)."), args)
	case nm == "(*sync.Once).Do":
		if r.once[args[0]] {
			return one(st), true
		}
		r.once[args[0]] = true
		f := args[1]
		if f.op != "func" && f.op != "closure" {
			return nil, false
		}
		outs := x.runFunc(f.obj.(*ssa.Function), nil, f.args, st)
		return outs, true
	case strings.HasSuffix(nm, ".Execute") && len(args) == 3:
		r.asked = append(r.asked, r.transport(fr, st, fn, args[0]))
		return r.node.intercept(fr, st, fn, execName, args, sig, pos)
	case nm == "encoding/json.MarshalIndent":
		return r.node.intercept(fr, st, fn, "encoding/json.Marshal", args[:1], sig, pos)
	case nm == "encoding/json.Marshal" || nm == "time.Sleep":
		return r.node.intercept(fr, st, fn, nm, args, sig, pos)
	case nm == "encoding/json.Unmarshal":
		c := x.content(st, args[0])
		if b, ok := constBytes(c); ok && (strings.HasPrefix(string(b), "{") || strings.HasPrefix(string(b), "[")) {
			var v interface{}
			if json.Unmarshal(b, &v) != nil {
				return one(st, x.err("encoding/json.Unmarshal")), true
			}
			c = jsonTerm(v)
		}
		return r.hist.unmarshal(st.clone(), c, args[1], fr), true
	case nm == "path/filepath.Join":
		c := x.content(st, args[0])
		n, ok := cLen(c).i64()
		var ps []string
		for i := int64(0); ok && i < n; i++ {
			s, k := cSel(c, mkInt(i), strT()).str()
			ok = k
			ps = append(ps, s)
		}
		if !ok {
			return nil, false
		}
		return one(st, constStr(filepath.Join(ps...))), true
	case nm == "os.Stat":
		if s, ok := args[0].str(); ok {
			if r.files[s] == nil {
				return bad(nm, mkNil())
			}
			return one(st, mk("sym", "fi:"+s, sig.Results().At(0).Type()), mkNil()), true
		}
	case nm == "io/ioutil.ReadDir" || nm == "os.ReadDir":
		s, ok := args[0].str()
		if !ok {
			return nil, false
		}
		fs, ok := r.dirs[s]
		if !ok {
			return bad(nm, mkNil())
		}
		fs = append([]ethFile{}, fs...)
		sort.Slice(fs, func(i, j int) bool { return fs[i].name < fs[j].name })
		st = st.clone()
		et := sig.Results().At(0).Type()
		var el []*T
		for i, f := range fs {
			v := mk("sym", fmt.Sprintf("dirent:%d:%v:%s", i, f.dir, f.name), et.Underlying().(*types.Slice).Elem())
			el = append(el, v)
			st.facts = st.facts.push(mkNot(mkEq(v, mkNil(), nil)))
		}
		return one(st, x.newBytes(st, cVec(el...), et), mkNil()), true
	case len(args) > 0 && args[0].op == "sym" && strings.HasPrefix(args[0].aux, "dirent:"):
		p := strings.SplitN(args[0].aux, ":", 4)
		switch nm[strings.LastIndex(nm, ".")+1:] {
		case "IsDir":
			return one(st, mkBool(p[2] == "true")), true
		case "Name":
			return one(st, constStr(p[3])), true
		}
	case nm == "io/ioutil.ReadFile" || nm == "os.ReadFile":
		s, ok := args[0].str()
		if !ok {
			return nil, false
		}
		if c := r.file(s); c != nil {
			st = st.clone()
			return one(st, x.newBytes(st, c, bytesT), mkNil()), true
		}
		return bad(nm, mkNil())
	case nm == "os.Open":
		s, ok := args[0].str()
		if !ok {
			return nil, false
		}
		if r.file(s) != nil {
			return one(st, r.fileTerm("file:"+s, sig), mkNil()), true
		}
		return bad(nm, mkNil())
	case nm == "os.Create":
		s, ok := args[0].str()
		if !ok {
			return nil, false
		}
		if r.noCreate {
			return bad(nm, mkNil())
		}
		r.wrote[s] = cVec()
		return one(st, r.fileTerm("create:"+s, sig), mkNil()), true
	case nm == "io/ioutil.ReadAll" || nm == "io.ReadAll":
		f := args[0]
		if f.op == "iface" {
			f = f.args[0]
		}
		if f == r.std["Stdin"] {
			st = st.clone()
			return one(st, x.newBytes(st, r.stdin, bytesT), mkNil()), true
		}
		if f.op == "sym" && strings.HasPrefix(f.aux, "file:") {
			st = st.clone()
			return one(st, x.newBytes(st, r.file(f.aux[5:]), bytesT), mkNil()), true
		}
	case nm == "(*os.File).Close":
		return one(st, mkNil()), true
	case nm == "(*os.File).Fd":
		return one(st, mkConst(constant.MakeInt64(0), types.Typ[types.Uintptr])), true
	case nm == "golang.org/x/crypto/ssh/terminal.ReadPassword" || nm == "golang.org/x/term.ReadPassword":
		r.prompts++
		if r.noPass {
			return bad(nm, mkNil())
		}
		st = st.clone()
		p := r.pass()
		if r.entered != nil {
			p = r.entered
		}
		return one(st, x.newBytes(st, p, bytesT), mkNil()), true
	case nm == "regexp.Compile" || nm == "regexp.MustCompile" || nm == "regexp.CompilePOSIX":
		s, ok := args[0].str()
		if !ok {
			return nil, false
		}
		if _, err := regexp.Compile(s); err != nil {
			return bad(nm, mkNil())
		}
		v := mk("sym", "regexp:"+s, sig.Results().At(0).Type())
		st = st.clone()
		st.facts = st.facts.push(mkNot(mkEq(v, mkNil(), nil)))
		if sig.Results().Len() == 1 {
			return one(st, v), true
		}
		return one(st, v, mkNil()), true
	case nm == "regexp.MatchString":
		s, ok := args[0].str()
		t, ok2 := r.str(args[1])
		if ok && ok2 {
			re, err := regexp.Compile(s)
			if err != nil {
				return bad(nm, mkBool(false))
			}
			return one(st, mkBool(re.MatchString(t)), mkNil()), true
		}
	case (nm == "(*regexp.Regexp).MatchString" || nm == "(*regexp.Regexp).Match") && args[0].op == "sym":
		c := args[1]
		var s string
		var ok bool
		if strings.HasSuffix(nm, "String") {
			s, ok = r.str(c)
		} else {
			s, ok = r.str(mkString(x.content(st, c)))
		}
		if !ok {
			return nil, false
		}
		re := regexp.MustCompile(strings.TrimPrefix(args[0].aux, "regexp:"))
		return one(st, mkBool(re.MatchString(s))), true
	case nm == "seth.FindHSM":
		if len(r.hsm) == 0 {
			return one(st, mkNil()), true
		}
		v := mk("sym", "hsm", sig.Results().At(0).Type())
		st = st.clone()
		st.facts = st.facts.push(mkNot(mkEq(v, mkNil(), nil)))
		return one(st, v), true
	case nm == "(seth.HSM).Unlock":
		if r.locked {
			return bad(nm)
		}
		return one(st, mkNil()), true
	case nm == "(seth.HSM).Pubkeys":
		if r.badHSM {
			return bad(nm, mkNil())
		}
		st = st.clone()
		kt := r.c.typ("", "HSMKey")
		var el []map[string]*T
		for _, k := range r.hsm {
			el = append(el, map[string]*T{"ID": constStr(k.id), "Public": mk("fn", "pub", r.c.typ("", "PublicKey"), mkStr(k.pub))})
		}
		return one(st, r.list(st, kt, el...), mkNil()), true
	case nm == "(seth.HSM).Signer":
		st = st.clone()
		id, ok := x.fieldVal(st, args[1], r.c.typ("", "HSMKey"), "ID").str()
		if !ok {
			return nil, false
		}
		for _, k := range r.hsm {
			if k.id == id {
				v := mk("sym", "signer:"+k.pub, sig.Results().At(0).Type())
				st.facts = st.facts.push(mkNot(mkEq(v, mkNil(), nil)))
				return one(st, v, mkNil()), true
			}
		}
		return bad(nm, mkNil())
	case nm == "dynamic" && args[0].op == "sym" && strings.HasPrefix(args[0].aux, "signer:"):
		st = st.clone()
		return one(st, r.sign(st, args[0].aux[7:], x.load(st, args[1], r.c.typ("", "Hash"))), mkNil()), true
	case nm == "(*seth.Keyfile).Private":
		st = st.clone()
		id, _ := x.fieldVal(st, args[0], r.c.typ("", "Keyfile"), "ID").str()
		k, ok := r.keys[id]
		if !ok || x.content(st, args[1]) != r.pass() {
			return bad(nm, mkNil())
		}
		t := r.c.typ("", "PrivateKey")
		p := x.newAlloc("priv", t)
		x.store(st, p, mk("fn", "priv", t, mkStr(k.pub)), t)
		return one(st, p, mkNil()), true
	case nm == "(*seth.PrivateKey).Sign":
		st = st.clone()
		k := x.load(st, args[0], r.c.typ("", "PrivateKey"))
		if k.op != "fn" || k.aux != "priv" {
			return nil, false
		}
		who, _ := k.args[0].str()
		return one(st, r.sign(st, who, x.load(st, args[1], r.c.typ("", "Hash")))), true
	case nm == "(*seth.PrivateKey).PublicKey" || nm == "(*seth.PrivateKey).Address" || nm == "(*seth.PublicKey).Address":
		st = st.clone()
		k := x.load(st, args[0], deref(fn.Signature.Recv().Type()))
		if k.op != "fn" || k.aux != "priv" && k.aux != "pub" {
			return nil, false
		}
		if strings.HasSuffix(nm, "PublicKey") {
			t := r.c.typ("", "PublicKey")
			p := x.newAlloc("pub", t)
			x.store(st, p, mk("fn", "pub", t, k.args[0]), t)
			return one(st, p), true
		}
		who, _ := k.args[0].str()
		t := r.c.typ("", "Address")
		p := x.newAlloc("addr", t)
		x.store(st, p, acctConst(who), t)
		return one(st, p), true
	case nm == "seth.GenPrivateKey":
		st = st.clone()
		r.made++
		t := r.c.typ("", "PrivateKey")
		p := x.newAlloc("priv", t)
		x.store(st, p, mk("fn", "priv", t, mkStr(fmt.Sprintf("new%d", r.made))), t)
		return one(st, p), true
	case nm == "(*seth.PrivateKey).ToKeyfile":
		st = st.clone()
		t := r.c.typ("", "Keyfile")
		p := x.newAlloc("keyfile", t)
		x.store(st, p, mk("fn", "keyfile", t, x.load(st, args[0], r.c.typ("", "PrivateKey")), args[1], x.content(st, args[2])), t)
		return one(st, p), true
	case nm == "net.Dial":
		n, _ := args[0].str()
		a, _ := args[1].str()
		r.dialed = n + ":" + a
		return one(st, mkNil(), mkNil()), true
	case nm == "(*seth.Transaction).HashToSign":
		st = st.clone()
		t, tt := r.c.typ("", "Hash"), r.c.typ("", "Transaction")
		p := x.newAlloc("hash", t)
		x.store(st, p, mk("fn", "signhash", t, x.deep(st, x.load(st, args[0], tt), tt, 0)), t)
		return one(st, p), true
	case nm == "(*seth.Transaction).Encode":
		st = st.clone()
		tt := r.c.typ("", "Transaction")
		s := mkNil()
		if !args[1].isNil() {
			s = x.load(st, args[1], r.c.typ("", "Signature"))
		}
		return one(st, x.newBytes(st, mk("fn", "rawtx", nil, x.deep(st, x.load(st, args[0], tt), tt, 0), s), bytesT)), true
	case nm == "(*seth.Signature).Recover":
		st = st.clone()
		s, h := x.load(st, args[0], r.c.typ("", "Signature")), x.load(st, args[1], r.c.typ("", "Hash"))
		t := r.c.typ("", "PublicKey")
		p := x.newAlloc("pub", t)
		if s.op == "fn" && s.aux == "signature" && s.args[0] == h {
			x.store(st, p, mk("fn", "pub", t, s.args[1]), t)
			return one(st, p, mkNil()), true
		}
		v, ok := r.ask(func() (interface{}, bool) {
			sb, ok := r.text(s)
			hb, ok2 := r.text(h)
			for _, who := range r.signers {
				if ok && ok2 && sb == string(signatureBytes(who, []byte(hb))) {
					return who, true
				}
			}
			return "", ok && ok2
		})
		if !ok {
			return nil, false
		}
		if v.(string) == "" {
			return bad(nm, mkNil())
		}
		x.store(st, p, mk("fn", "pub", t, mkStr(v.(string))), t)
		return one(st, p, mkNil()), true
	case strings.HasPrefix(nm, "fmt.Print") || strings.HasPrefix(nm, "fmt.Fprint") || nm == "io.WriteString" || nm == "(*os.File).Write" || nm == "(*os.File).WriteString":
		return r.print(fr, st, nm, args)
	}
	return nil, false
}

func (r *ethRun) pass() *T { return symsOf("pass", 5) }

func (r *ethRun) sign(st *State, who string, h *T) *T {
	t := r.c.typ("", "Signature")
	p := r.x.newAlloc("sig", t)
	s := mk("fn", "signature", t, h, mkStr(who))
	r.signed = append(r.signed, s)
	r.x.store(st, p, s, t)
	return p
}

func (r *ethRun) fileTerm(n string, sig *types.Signature) *T {
	return mk("sym", n, sig.Results().At(0).Type())
}

// file is the content of a file
func (r *ethRun) file(path string) *T {
	if c, ok := r.files[path]; ok {
		return c
	}
	for d, fs := range r.dirs {
		for _, f := range fs {
			if filepath.Join(d, f.name) == path && !f.dir {
				return f.c
			}
		}
	}
	return nil
}

// jsonTerm is what a JSON text holds
func jsonTerm(v interface{}) *T {
	switch v := v.(type) {
	case map[string]interface{}:
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var a []*T
		for _, k := range ks {
			a = append(a, mkStr(k), jsonTerm(v[k]))
		}
		return mk("fn", "object", nil, a...)
	case []interface{}:
		var a []*T
		for _, e := range v {
			a = append(a, jsonTerm(e))
		}
		return mk("fn", "list", nil, a...)
	}
	b, _ := json.Marshal(v)
	return cLit(string(b))
}

// ---- flags ----

func (r *ethRun) flag(st *State, nm string, args []*T) ([]outcome, bool) {
	x := r.x
	f := r.flags[args[0]]
	if f == nil {
		f = &flagSet{defs: map[string]ethFlag{}}
		r.flags[args[0]] = f
	}
	switch nm {
	case "Init", "PrintDefaults", "SetOutput":
		return one(st), true
	case "BoolVar", "IntVar", "StringVar", "Int64Var", "UintVar", "Uint64Var":
		n, ok := args[2].str()
		if !ok {
			return nil, false
		}
		f.defs[n] = ethFlag{strings.TrimSuffix(nm, "Var"), args[1], args[3]}
		st = st.clone()
		x.store(st, args[1], args[3], deref(args[1].typ))
		return one(st), true
	case "NArg":
		return one(st, mkInt(int64(len(f.args)))), true
	case "Arg":
		i, ok := args[1].i64()
		if !ok {
			return nil, false
		}
		if i < 0 || i >= int64(len(f.args)) {
			return one(st, constStr("")), true
		}
		return one(st, f.args[i]), true
	case "Args":
		st = st.clone()
		return one(st, r.strs(st, f.args...)), true
	case "Parse":
		st = st.clone()
		c := x.content(st, args[1])
		n, ok := cLen(c).i64()
		if !ok {
			return nil, false
		}
		var as []*T
		for i := int64(0); i < n; i++ {
			as = append(as, cSel(c, mkInt(i), strT()))
		}
		for len(as) > 0 {
			s, k := as[0].str()
			if !k || len(s) < 2 || s[0] != '-' {
				break
			}
			as = as[1:]
			if s == "--" {
				break
			}
			name := strings.TrimPrefix(s[1:], "-")
			val, has := "", false
			if i := strings.IndexByte(name, '='); i > 0 {
				name, val, has = name[:i], name[i+1:], true
			}
			d, ok := f.defs[name]
			if !ok {
				return r.quit(st, 2), true
			}
			et := deref(d.ptr.typ)
			if d.kind == "Bool" {
				b := true
				if has {
					v, err := strconv.ParseBool(val)
					if err != nil {
						return r.quit(st, 2), true
					}
					b = v
				}
				x.store(st, d.ptr, mkBool(b), et)
				continue
			}
			if !has {
				if len(as) == 0 {
					return r.quit(st, 2), true
				}
				v, k := as[0].str()
				if !k {
					return nil, false
				}
				val, as = v, as[1:]
			}
			if d.kind == "String" {
				x.store(st, d.ptr, constStr(val), et)
				continue
			}
			v, good := new(big.Int).SetString(val, 0)
			k2, _ := kindOf(et)
			if !good || v.Cmp(k2.min()) < 0 || v.Cmp(k2.max()) > 0 {
				return r.quit(st, 2), true
			}
			x.store(st, d.ptr, mkConst(constant.Make(v), et), et)
		}
		f.args = as
		return one(st, mkNil()), true
	}
	return nil, false
}

// ---- output ----

func (r *ethRun) print(fr *frame, st *State, nm string, args []*T) ([]outcome, bool) {
	x := r.x
	st = st.clone()
	done := func(c *T) ([]outcome, bool) {
		return one(st, cLen(c), mkNil()), true
	}
	to := r.std["Stdout"]
	if !strings.HasPrefix(nm, "fmt.Print") {
		to = args[0]
		if to.op == "iface" {
			to = to.args[0]
		}
		args = args[1:]
	}
	if to == r.std["Stderr"] {
		return one(st, mkInt(0), mkNil()), true
	}
	file := ""
	if to.op == "sym" && strings.HasPrefix(to.aux, "create:") {
		file = to.aux[7:]
	} else if to != r.std["Stdout"] {
		return nil, false
	}
	var c *T
	switch {
	case nm == "(*os.File).Write":
		c = x.content(st, args[0])
	case nm == "(*os.File).WriteString" || nm == "io.WriteString":
		c = strContent(args[0])
	default:
		f := ""
		format := strings.HasSuffix(nm, "f")
		if format {
			var ok bool
			if f, ok = args[0].str(); !ok {
				return nil, false
			}
			args = args[1:]
		}
		var vals []*T
		if !args[0].isNil() {
			vc := x.content(st, args[0])
			n, ok := cLen(vc).i64()
			if !ok {
				return nil, false
			}
			for i := int64(0); i < n; i++ {
				vals = append(vals, cSel(vc, mkInt(i), nil))
			}
		}
		var ok bool
		if c, st, ok = r.render(st, f, format, strings.HasSuffix(nm, "ln"), vals); !ok {
			c = cVec(mk("sym", "printed", byteT))
		}
	}
	if file != "" {
		r.wrote[file] = cCat(r.wrote[file], c)
	} else {
		r.out = append(r.out, c)
	}
	return done(c)
}

func (r *sampleRun) render(st *State, f string, format, ln bool, vals []*T) (*T, *State, bool) {
	var out []*T
	if !format {
		for i, v := range vals {
			if i > 0 && ln {
				out = append(out, cLit(" "))
			}
			c, s, ok := r.show(st, v, 'v')
			if !ok {
				return nil, st, false
			}
			st = s
			out = append(out, c)
		}
		if ln {
			out = append(out, cLit("\n"))
		}
		return cCat(out...), st, true
	}
	all, indexed := vals, false
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			out = append(out, cLit(f[i:j]))
			i = j - 1
			continue
		}
		j := i + 1
		minus, sharp := false, false
		for j < len(f) && strings.IndexByte("-+# 0", f[j]) >= 0 {
			switch f[j] {
			case '-':
				minus = true
			case '#':
				sharp = true
			default:
				return nil, st, false
			}
			j++
		}
		if j < len(f) && f[j] == '[' {
			k := strings.IndexByte(f[j:], ']')
			n, err := 0, error(nil)
			if k > 0 {
				n, err = strconv.Atoi(f[j+1 : j+k])
			}
			if k <= 0 || err != nil || n < 1 || n > len(all) {
				return nil, st, false
			}
			vals, indexed = all[n-1:], true
			j += k + 1
		}
		w := 0
		for j < len(f) && f[j] >= '0' && f[j] <= '9' {
			w = w*10 + int(f[j]-'0')
			j++
		}
		if j >= len(f) {
			return nil, st, false
		}
		i = j
		if f[j] == '%' {
			out = append(out, cLit("%"))
			continue
		}
		if len(vals) == 0 {
			return nil, st, false
		}
		var c *T
		var s *State
		var ok bool
		if sharp {
			s = st
			c, ok = r.goSyntax(st, vals[0], f[j])
		} else {
			c, s, ok = r.show(st, vals[0], f[j])
		}
		if !ok {
			return nil, st, false
		}
		st, vals = s, vals[1:]
		if w == 0 {
			out = append(out, c)
			continue
		}
		n, ok := r.length(c)
		if !ok {
			return nil, st, false
		}
		if p := w - int(n); p > 0 {
			pad := cLit(strings.Repeat(" ", p))
			if minus {
				c = cCat(c, pad)
			} else {
				c = cCat(pad, c)
			}
		}
		out = append(out, c)
	}
	if len(vals) > 0 && !indexed {
		return nil, st, false
	}
	return cCat(out...), st, true
}

// goSyntax is a list of bytes, or a text, as %#v shows it
func (r *sampleRun) goSyntax(st *State, v *T, verb byte) (*T, bool) {
	if v.op != "iface" || verb != 'v' {
		return nil, false
	}
	t := v.obj.(types.Type)
	q := func(p *types.Package) string { return p.Name() }
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s, ok := r.text(strContent(v.args[0]))
			return cLit(strconv.Quote(s)), ok
		}
	case *types.Slice:
		if !types.Identical(u.Elem().Underlying(), byteT) {
			return nil, false
		}
		if v.args[0].isNil() {
			return cLit(types.TypeString(t, q) + "(nil)"), true
		}
		s, ok := r.text(r.x.content(st, v.args[0]))
		var b []string
		for i := 0; i < len(s); i++ {
			b = append(b, fmt.Sprintf("0x%x", s[i]))
		}
		return cLit(types.TypeString(t, q) + "{" + strings.Join(b, ", ") + "}"), ok
	}
	return nil, false
}

// show is a value as fmt shows it
func (r *sampleRun) show(st *State, v *T, verb byte) (*T, *State, bool) {
	x := r.x
	if v.isNil() {
		return cLit("<nil>"), st, true
	}
	if v.op != "iface" {
		return nil, st, false
	}
	t, val := v.obj.(types.Type), v.args[0]
	if verb == 's' || verb == 'v' {
		for _, m := range []string{"Error", "String"} {
			if types.TypeString(t, nil) == "*math/big.Int" && m == "String" {
				c, ok := r.spread(fmtIntB(x.bigVal(st, val), mkInt(10)))
				return c, st, ok
			}
			sel := types.NewMethodSet(t).Lookup(nil, m)
			if sel == nil {
				continue
			}
			f := x.w.prog.MethodValue(sel)
			if f == nil || len(f.Blocks) == 0 {
				continue
			}
			outs := x.runFunc(f, []*T{val}, nil, st)
			if len(outs) != 1 || outs[0].panic {
				return nil, st, false
			}
			return strContent(outs[0].rets[0]), outs[0].st, true
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0 && (verb == 's' || verb == 'v'):
			return strContent(val), st, true
		case u.Info()&types.IsString != 0 && verb == 'q':
			s, ok := r.text(strContent(val))
			return cLit(strconv.Quote(s)), st, ok
		case u.Info()&types.IsString != 0 && verb == 'x':
			c, ok := r.spread(hexEnc(strContent(val)))
			return c, st, ok
		case u.Info()&types.IsBoolean != 0 && (verb == 't' || verb == 'v'):
			if r.judge(val) == 1 || val.isTrue() {
				return cLit("true"), st, true
			}
			return cLit("false"), st, true
		case u.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v' || verb == 'x'):
			base := int64(10)
			if verb == 'x' {
				base = 16
			}
			if n, ok := val.i64(); ok {
				return cLit(strconv.FormatInt(n, int(base))), st, true
			}
			c, ok := r.spread(fmtIntB(bigOfInt(val), mkInt(base)))
			return c, st, ok
		}
	case *types.Slice:
		if types.Identical(u.Elem().Underlying(), byteT) {
			c := cVec()
			if !val.isNil() {
				c = x.content(st, val)
			}
			switch verb {
			case 's':
				return c, st, true
			case 'x':
				c, ok := r.spread(hexEnc(c))
				return c, st, ok
			}
		}
	case *types.Array:
		if types.Identical(u.Elem().Underlying(), byteT) && verb == 'x' {
			c, ok := r.spread(hexEnc(val))
			return c, st, ok
		}
	}
	if os.Getenv("SA_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "show", t, string(verb), clip(val.String(), 100))
	}
	return nil, st, false
}

// transport names the transport that a request is handed to
func (r *ethRun) transport(fr *frame, st *State, fn *ssa.Function, t *T) string {
	x := r.x
	typ := t.typ
	if fn != nil && fn.Signature.Recv() != nil {
		typ = fn.Signature.Recv().Type()
	}
	if t.op == "iface" {
		typ, t = t.obj.(types.Type), t.args[0]
	}
	n := typeName(typ)
	if d := deref(typ); d != nil {
		n, typ = typeName(d), d
	}
	s := structOf(typ)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		f := s.Field(i)
		switch u := f.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				if v, ok := x.load(st, faddr(t, typ, i), f.Type()).str(); ok {
					n += " " + v
				}
			}
		case *types.Signature: // what a connection is made with
			v := x.load(st, faddr(t, typ, i), f.Type())
			if v.op != "func" && v.op != "closure" {
				continue
			}
			r.dialed = ""
			if outs := x.runFunc(v.obj.(*ssa.Function), nil, v.args, st); len(outs) == 1 {
				n += " " + r.dialed
			}
		}
	}
	if os.Getenv("SA_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "transport", n, t, typ)
	}
	return n
}
