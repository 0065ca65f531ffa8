package main

// C27, C28: compiling sources: what the compiler is asked and what becomes of
// its answer, and what is kept of it for the next time.

import (
	"encoding/hex"
	"fmt"
	"go/token"
	"go/types"
	"math/rand"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C27"] = &CheckDef{
		title:     "Cached compilations are those of exactly the same sources",
		technique: "static abstract interpretation over SSA of Compile, from the cache's file names to the compiler's pipes, over histories on a model of the file system; source texts and outputs are unknown contents",
		explanation: "Compile is interpreted again and again on one virtual directory: the same sources, in the same and in another order; sources with other names, other texts, texts and names whose boundaries are shifted, one more and one less; after the cached file was cut at any point, emptied or overwritten; with a directory, a file or any write that fails; and with a compiler that fails in any way. " +
			"What is returned, how often the compiler ran and on what, and which files exist are compared with what the history says.",
		assumptions: []string{"different contents have different 48-bit prefixes of their hashes", "the gzip and msgp packages give back what was written or an error"},
		min:         300,
		run:         runCompileCache,
	}
	checks["C28"] = &CheckDef{
		title:     "A bundle holds what the compiler made of exactly the given sources",
		technique: "static abstract interpretation over SSA of Compile, CompileString and CompileGlob against scripted compilers; texts, codes and descriptions are unknown contents",
		explanation: "The three ways to compile are interpreted with compilers that answer with any mix of sources, numberings, contracts, warnings and errors, or not at all. " +
			"What the compiler reads and the bundle that is returned are compared with the sources and the answer in every field; failures must be errors.",
		assumptions: []string{"encoding/json reads and writes values as their types say", "os/exec connects the pipes"},
		min:         150,
		run:         runCompileBundle,
	}
}

// a file: the tokens in it, if it is a compressed stream of them
type cfile struct {
	gz   bool
	toks []mtok
	text *T // otherwise
}

type handle struct {
	name string
	open bool
	w    bool
	gz   bool   // a stream was started
	buf  []mtok // not yet written
	done bool
	fail bool
}

// what the compiler says
type solcReply struct {
	startErr, inErr, outErr, sendErr, waitErr bool
	out                                       *T // nil: nothing that can be read
}

type csource struct {
	name string
	body *T
}

type cabi struct {
	typ, name, mut string
	payable, konst bool
	in, out        []string
}

type ccontract struct {
	file, name string
	obj        string
	srcmap     *T
	abi        []cabi
}

type cmsg struct {
	typ  string
	text *T
}

type canswer struct {
	ids       []string // files by number
	contracts []ccontract
	msgs      []cmsg
}

type compileRun struct {
	*msgRun
	bundleT types.Type
	st      *State
	tmp     string
	files   map[string]*cfile
	dirs    map[string]bool
	handles []*handle
	noDir   bool
	noFile  bool
	noOpen  bool
	failW   int // writes to files that succeed; -1: all
	// the compiler
	solc    func(asked []csource) solcReply
	runs    int
	reply   solcReply
	inOpen  bool
	sent    bool
	started bool
	asked   []csource
	removed []string
	nwrote  int
	bodies  int
	blob    interface{}
}

func (c *Check) newCompileRun() *compileRun {
	r := &compileRun{msgRun: &msgRun{sampleRun: c.newSampleRun(), rng: rand.New(rand.NewSource(1)), failAt: -1, vals: sampleVals{}}, failW: -1, tmp: "/tmp"}
	r.bundleT = c.typ("", "CompiledBundle")
	r.extra = r.hook
	r.x.maxSteps = 3000000
	r.fn = c.fn("", "Compile")
	if r.fn == nil || r.bundleT == nil {
		return nil
	}
	st := r.base.clone()
	for _, n := range []string{"Stdin", "Stdout", "Stderr"} {
		g := c.w.prog.ImportedPackage("os").Var(n)
		st.mem = st.mem.set(c.w.global(g), r.x.newAlloc(n, deref(deref(g.Type()))))
	}
	for _, m := range c.w.pkgs[""].Members {
		if g, ok := m.(*ssa.Global); ok {
			r.x.store(st, c.w.global(g), zeroOf(deref(g.Type())), deref(g.Type()))
		}
	}
	var ok bool
	if r.base, ok = r.initPackage(st, ""); !ok {
		return nil
	}
	return r
}

// fresh starts another history
func (r *compileRun) fresh() {
	r.st = r.base.clone()
	r.files, r.dirs = map[string]*cfile{}, map[string]bool{"/": true, r.tmp: true}
	r.vals = sampleVals{}
	r.noDir, r.noFile, r.noOpen, r.failW = false, false, false, -1
}

// body is an unknown text, with blanks around it
func (r *compileRun) body(n int) *T {
	c := r.bytesSyms("body", n)
	if n > 2 {
		r.vals[c.args[0]], r.vals[c.args[n-1]] = bi(' '), bi('\n')
	}
	return c
}

// compile runs a function and says whether it failed
func (r *compileRun) run(fn *ssa.Function, args ...*T) (bundle *T, failed, ok bool) {
	r.set(r.vals)
	r.runs, r.asked, r.removed, r.handles, r.nwrote = 0, nil, nil, nil, 0
	r.inOpen, r.sent, r.started = false, false, false
	st, rets, ok := r.call(r.st, fn, args...)
	if !ok {
		return nil, false, false
	}
	r.st = st
	if rets[1].isNil() {
		if rets[0].isNil() {
			return nil, false, r.say("value", "it returns neither a bundle nor an error")
		}
		return rets[0], false, true
	}
	return nil, true, true
}

func (r *compileRun) sources(ss []csource) *T {
	t := r.c.typ("", "Source")
	var el []map[string]*T
	for _, s := range ss {
		el = append(el, map[string]*T{"Filename": constStr(s.name), "Body": mkString(s.body)})
	}
	return r.list(r.st, t, el...)
}

func (r *compileRun) Compile(ss []csource) (*T, bool, bool) {
	return r.run(r.c.fn("", "Compile"), r.sources(ss))
}

func jstr(c *T) *T { return mk("fn", "jstr", nil, c) }

func object(kv ...interface{}) *T {
	var a []*T
	for i := 0; i < len(kv); i += 2 {
		a = append(a, mkStr(kv[i].(string)), kv[i+1].(*T))
	}
	return mk("fn", "object", nil, a...)
}

// answer is the compiler's output
func (a *canswer) out() *T {
	var errs []*T
	for i, m := range a.msgs {
		errs = append(errs, object("component", jstr(cLit("general")), "formattedMessage", jstr(m.text), "message", jstr(cLit("short")),
			"severity", jstr(cLit("x")), "sourceLocation", object("file", jstr(cLit("a.sol")), "start", cLit(fmt.Sprint(i)), "end", cLit("-1")), "type", jstr(cLit(m.typ))))
	}
	var src []interface{}
	for i, f := range a.ids {
		src = append(src, f, object("id", cLit(fmt.Sprint(i))))
	}
	// in another order than that of the numbers
	for i, j := 0, len(src)-2; i < j && len(src) > 4; i, j = i+4, j-2 {
		src[i], src[i+1], src[j], src[j+1] = src[j], src[j+1], src[i], src[i+1]
	}
	byFile := map[string][]interface{}{}
	var files []string
	for _, c := range a.contracts {
		var abi []*T
		for _, d := range c.abi {
			params := func(ps []string) *T {
				var l []*T
				for _, p := range ps {
					if p == "tuple" {
						l = append(l, object("components", mk("fn", "list", nil, object("name", jstr(cLit("in")), "type", jstr(cLit("bool")))), "name", jstr(cLit("t")), "type", jstr(cLit("tuple"))))
						continue
					}
					l = append(l, object("indexed", cLit("true"), "name", jstr(cLit("_"+p)), "type", jstr(cLit(p))))
				}
				return mk("fn", "list", nil, l...)
			}
			abi = append(abi, object("constant", cLit(fmt.Sprint(d.konst)), "inputs", params(d.in), "name", jstr(cLit(d.name)), "outputs", params(d.out),
				"payable", cLit(fmt.Sprint(d.payable)), "stateMutability", jstr(cLit(d.mut)), "type", jstr(cLit(d.typ))))
		}
		o := object("abi", mk("fn", "list", nil, abi...), "evm", object("bytecode", object("linkReferences", object(), "object", jstr(cLit(c.obj)), "opcodes", jstr(cLit("STOP ")), "sourceMap", jstr(c.srcmap))))
		if byFile[c.file] == nil {
			files = append(files, c.file)
		}
		byFile[c.file] = append(byFile[c.file], c.name, o)
	}
	var con []interface{}
	for _, f := range files {
		con = append(con, f, object(byFile[f]...))
	}
	kv := []interface{}{"contracts", object(con...)}
	if len(errs) > 0 {
		kv = append(kv, "errors", mk("fn", "list", nil, errs...))
	}
	return object(append(kv, "sources", object(src...))...)
}

func unhexs(s string) string {
	b := make([]byte, len(s)/2)
	for i := range b {
		fmt.Sscanf(s[2*i:2*i+2], "%02x", &b[i])
	}
	return string(b)
}

// want is the bundle of an answer; contracts in the order of names
func (r *compileRun) want(a *canswer, ss []csource, names []string) *T {
	st := r.st
	fields := map[string]*T{}
	strsOf := func(cs []*T) *T {
		var l []*T
		for _, c := range cs {
			l = append(l, mkString(c))
		}
		return r.strs(st, l...)
	}
	var fs, bs, ws []*T
	for _, f := range a.ids {
		fs = append(fs, cLit(f))
		for _, s := range ss {
			if s.name == f {
				bs = append(bs, s.body)
			}
		}
	}
	for _, m := range a.msgs {
		ws = append(ws, m.text)
	}
	fields["Filenames"], fields["Sources"], fields["Warnings"] = strsOf(fs), strsOf(bs), strsOf(ws)
	pt, dt, ct := r.c.typ("", "ABIParam"), r.c.typ("", "ABIDescriptor"), r.c.typ("", "CompiledContract")
	params := func(ps []string) *T {
		var l []map[string]*T
		for _, p := range ps {
			m := map[string]*T{"Name": constStr("_" + p), "Type": constStr(p), "Indexed": mkBool(true)}
			if p == "tuple" {
				m = map[string]*T{"Name": constStr("t"), "Type": constStr(p), "Components": r.list(st, pt, map[string]*T{"Name": constStr("in"), "Type": constStr("bool")})}
			}
			l = append(l, m)
		}
		return r.list(st, pt, l...)
	}
	var cons []map[string]*T
	for _, n := range names {
		for _, c := range a.contracts {
			if c.name+" "+c.obj != n {
				continue
			}
			n := c.name
			var ds []map[string]*T
			for _, d := range c.abi {
				ds = append(ds, map[string]*T{"Type": constStr(d.typ), "Name": constStr(d.name), "Mutability": constStr(d.mut), "Payable": mkBool(d.payable), "Constant": mkBool(d.konst),
					"Inputs": params(d.in), "Outputs": params(d.out)})
			}
			cons = append(cons, map[string]*T{"Name": constStr(n), "Code": r.x.newBytes(st, cLit(unhexs(c.obj)), types.NewSlice(byteT)), "Sourcemap": mkString(c.srcmap), "ABI": r.list(st, dt, ds...)})
		}
	}
	fields["Contracts"] = r.list(st, ct, cons...)
	return r.x.load(st, r.put(st, r.bundleT, fields), r.bundleT)
}

// check compares a bundle with what the compiler answered
func (r *compileRun) check(b *T, a *canswer, ss []csource) bool {
	got := r.x.load(r.st, b, r.bundleT)
	i := fieldIndex(r.bundleT, func(v *types.Var) bool { return v.Name() == "Contracts" })
	ct := r.c.typ("", "CompiledContract")
	k := fieldIndex(ct, func(v *types.Var) bool { return v.Name() == "Name" })
	kc := fieldIndex(ct, func(v *types.Var) bool { return v.Name() == "Code" })
	var names, all []string
	if l := structField(got, r.bundleT, i); !l.isNil() {
		c := r.x.content(r.st, l)
		n, ok := cLen(c).i64()
		for j := int64(0); ok && j < n; j++ {
			e := cSel(c, mkInt(j), ct)
			s, _ := r.text(strContent(structField(e, ct, k)))
			code, _ := r.text(r.x.content(r.st, structField(e, ct, kc)))
			names = append(names, fmt.Sprintf("%s %x", s, code))
		}
	}
	for _, c := range a.contracts {
		all = append(all, c.name+" "+c.obj)
	}
	x, y := append([]string{}, names...), append([]string{}, all...)
	sort.Strings(x)
	sort.Strings(y)
	if strings.Join(x, ",") != strings.Join(y, ",") {
		return r.say("value", "the bundle has the contracts %v, the compiler made %v", names, all)
	}
	if err := r.same(r.st, r.want(a, ss, names), got, r.bundleT, "bundle"); err != nil {
		return r.say("value", "%s", err)
	}
	r.n++
	return true
}

// right: the compiler was asked about these sources
func (r *compileRun) right(ss []csource) bool {
	if r.runs != 1 {
		return r.say("value", "the compiler ran %d times", r.runs)
	}
	if len(r.asked) != len(ss) {
		return r.say("value", "the compiler is given %d sources of %d", len(r.asked), len(ss))
	}
	for _, s := range ss {
		found := false
		for _, a := range r.asked {
			if a.name != s.name {
				continue
			}
			v, ok := r.text(a.body)
			w, ok2 := r.text(s.body)
			found = ok && ok2 && v == w
		}
		if !found {
			return r.say("value", "the compiler is not given the text of %s", s.name)
		}
	}
	return true
}

// describe reads a value as a message shows it: maps, lists, contents
func (r *compileRun) describe(st *State, v *T, t types.Type) interface{} {
	x := r.x
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if v.isNil() {
			return nil
		}
		return r.describe(st, x.load(st, v, u.Elem()), u.Elem())
	case *types.Interface:
		if v.op != "iface" {
			return nil
		}
		return r.describe(st, v.args[0], v.obj.(types.Type))
	case *types.Struct:
		m := map[string]interface{}{}
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() && jsonName(u, i) != "-" {
				m[jsonName(u, i)] = r.describe(st, structField(v, t, i), u.Field(i).Type())
			}
		}
		return m
	case *types.Map:
		m := map[string]interface{}{}
		es := x.mapEntries(st, v)
		for i := 0; i+1 < len(es); i += 2 {
			k, ok := r.text(strContent(es[i]))
			if !ok {
				x.fail("an unknown key")
			}
			m[k] = r.describe(st, es[i+1], u.Elem())
		}
		return m
	case *types.Slice:
		var l []interface{}
		if v.isNil() {
			return l
		}
		c := x.content(st, v)
		n, ok := cLen(c).i64()
		if !ok {
			x.fail("a list of unknown length")
		}
		for i := int64(0); i < n; i++ {
			l = append(l, r.describe(st, cSel(c, mkInt(i), u.Elem()), u.Elem()))
		}
		return l
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return strContent(v)
		}
	}
	return v
}

func (r *compileRun) told(d interface{}) bool {
	get := func(d interface{}, ks ...string) interface{} {
		for _, k := range ks {
			m, _ := d.(map[string]interface{})
			d = m[k]
		}
		return d
	}
	if l, ok := get(d, "language").(*T); !ok || l != cLit("Solidity") {
		return r.say("value", "the compiler is not told that the language is Solidity")
	}
	srcs, _ := get(d, "sources").(map[string]interface{})
	for n, s := range srcs {
		b, ok := get(s, "content").(*T)
		if !ok {
			return r.say("value", "a source has no content")
		}
		r.asked = append(r.asked, csource{n, b})
	}
	sel, _ := get(d, "settings", "outputSelection", "*", "*").([]interface{})
	code, abi := false, false
	for _, s := range sel {
		t, _ := r.text(s.(*T))
		switch t {
		case "evm":
			code = true
		case "evm.bytecode":
			code = true
		case "abi":
			abi = true
		case "*":
			abi = true
		}
	}
	if !code || !abi {
		return r.say("value", "the compiler is not asked for code and interface")
	}
	return true
}

func (r *compileRun) hook(fr *frame, st *State, fn *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
	x := r.x
	bytesT := types.NewSlice(byteT)
	bad := func(rets ...*T) ([]outcome, bool) {
		st = st.clone()
		e := x.err(nm)
		st.facts = st.facts.push(mkNot(mkEq(e, mkNil(), errorT)))
		return one(st, append(rets, e)...), true
	}
	str := func(t *T) string {
		s, ok := r.text(strContent(t))
		if !ok {
			x.fail("an unknown file name")
		}
		return s
	}
	thing := func(name string, t types.Type) *T {
		v := mk("sym", name, t)
		st = st.clone()
		st.facts = st.facts.push(mkNot(mkEq(v, mkNil(), nil)))
		return v
	}
	bare := func(t *T) *T {
		for t.op == "iface" {
			t = t.args[0]
		}
		return t
	}
	handleOf := func(t *T) *handle {
		t = bare(t)
		if t.op != "sym" {
			return nil
		}
		var i int
		for _, p := range []string{"file#%d", "gzw#%d", "gzr#%d", "msgw#%d", "msgr#%d"} {
			if n, _ := fmt.Sscanf(t.aux, p, &i); n == 1 && i < len(r.handles) {
				return r.handles[i]
			}
		}
		return nil
	}
	num := func(h *handle) int {
		for i := range r.handles {
			if r.handles[i] == h {
				return i
			}
		}
		return -1
	}
	// put writes tokens through to the file
	put := func(h *handle, ts []mtok) bool {
		f := r.files[h.name]
		if !h.open || !h.w || f == nil {
			return false
		}
		r.nwrote++
		if r.failW >= 0 && r.nwrote > r.failW {
			return false
		}
		f.gz = true
		f.toks = append(f.toks, ts...)
		return true
	}
	switch nm {
	case "os.TempDir":
		return one(st, constStr(r.tmp)), true
	case "os.Getenv":
		return one(st, constStr("")), true
	case "path/filepath.Join", "path.Join":
		c := x.content(st, args[0])
		n, ok := cLen(c).i64()
		if !ok {
			return nil, false
		}
		var ps []string
		for i := int64(0); i < n; i++ {
			ps = append(ps, str(cSel(c, mkInt(i), strT())))
		}
		return one(st, constStr(filepath.Join(ps...))), true
	case "path/filepath.Dir":
		return one(st, constStr(filepath.Dir(str(args[0])))), true
	case "path/filepath.Base":
		return one(st, constStr(filepath.Base(str(args[0])))), true
	case "path/filepath.Ext":
		return one(st, constStr(filepath.Ext(str(args[0])))), true
	case "path/filepath.Glob":
		var ms []string
		for f := range r.files {
			m, err := filepath.Match(str(args[0]), f)
			if err != nil {
				return bad(mkNil())
			}
			if m {
				ms = append(ms, f)
			}
		}
		if _, err := filepath.Match(str(args[0]), ""); err != nil {
			return bad(mkNil())
		}
		sort.Strings(ms)
		var el []*T
		for _, m := range ms {
			el = append(el, constStr(m))
		}
		st = st.clone()
		if len(el) == 0 {
			return one(st, mkNil(), mkNil()), true
		}
		return one(st, r.strs(st, el...), mkNil()), true
	case "os.Remove", "os.RemoveAll":
		n := str(args[0])
		if r.files[n] == nil {
			return bad()
		}
		delete(r.files, n)
		r.removed = append(r.removed, n)
		return one(st, mkNil()), true
	case "os.Rename":
		a, b := str(args[0]), str(args[1])
		if r.files[a] == nil || !r.dirs[filepath.Dir(b)] {
			return bad()
		}
		r.files[b] = r.files[a]
		delete(r.files, a)
		return one(st, mkNil()), true
	case "os.MkdirAll", "os.Mkdir":
		if r.noDir {
			return bad()
		}
		for d := str(args[0]); !r.dirs[d]; d = filepath.Dir(d) {
			r.dirs[d] = true
		}
		return one(st, mkNil()), true
	case "os.Open", "os.Create", "os.OpenFile":
		n := str(args[0])
		w := nm == "os.Create"
		if nm == "os.OpenFile" {
			return nil, false
		}
		if !w && (r.noOpen || r.files[n] == nil) || w && (r.noFile || !r.dirs[filepath.Dir(n)]) {
			return bad(mkNil())
		}
		if w {
			r.files[n] = &cfile{}
		}
		r.handles = append(r.handles, &handle{name: n, open: true, w: w})
		return one(st, thing(fmt.Sprintf("file#%d", len(r.handles)-1), sig.Results().At(0).Type()), mkNil()), true
	case "io/ioutil.TempFile", "os.CreateTemp":
		d := str(args[0])
		if d == "" {
			d = r.tmp
		}
		if r.noFile || !r.dirs[d] {
			return bad(mkNil())
		}
		n := fmt.Sprintf("%s/%s%d", d, strings.Replace(str(args[1]), "*", "", 1), len(r.handles)+1000)
		r.files[n] = &cfile{}
		r.handles = append(r.handles, &handle{name: n, open: true, w: true})
		return one(st, thing(fmt.Sprintf("file#%d", len(r.handles)-1), sig.Results().At(0).Type()), mkNil()), true
	case "(*os.File).Close":
		h := handleOf(args[0])
		if h == nil {
			return nil, false
		}
		if !h.open {
			return bad()
		}
		h.open = false
		return one(st, mkNil()), true
	case "(*os.File).Sync":
		return one(st, mkNil()), true
	case "(*os.File).Name":
		if h := handleOf(args[0]); h != nil {
			return one(st, constStr(h.name)), true
		}
	case "io/ioutil.ReadFile", "os.ReadFile":
		n := str(args[0])
		f := r.files[n]
		if f == nil || r.noOpen || f.gz || f.text == nil {
			return bad(mkNil())
		}
		st = st.clone()
		return one(st, x.newBytes(st, f.text, bytesT), mkNil()), true
	case "io/ioutil.ReadAll", "io.ReadAll":
		h := handleOf(args[0])
		if h == nil {
			return nil, false
		}
		f := r.files[h.name]
		if f == nil && h.name != "" || !h.open {
			return bad(mkNil())
		}
		if strings.HasPrefix(bare(args[0]).aux, "gzr#") && !f.gz {
			return bad(mkNil())
		}
		st = st.clone()
		return one(st, x.newBytes(st, r.stream(f.toks), bytesT), mkNil()), true
	case "compress/gzip.NewReader":
		h := handleOf(args[0])
		if h == nil {
			return nil, false
		}
		f := r.files[h.name]
		if f == nil || !h.open || !f.gz {
			return bad(mkNil())
		}
		return one(st, thing(fmt.Sprintf("gzr#%d", num(h)), sig.Results().At(0).Type()), mkNil()), true
	case "compress/gzip.NewWriter", "compress/gzip.NewWriterLevel":
		h := handleOf(args[0])
		if h == nil {
			return nil, false
		}
		v := thing(fmt.Sprintf("gzw#%d", num(h)), sig.Results().At(0).Type())
		if sig.Results().Len() == 2 {
			return one(st, v, mkNil()), true
		}
		return one(st, v), true
	case "(*compress/gzip.Writer).Close", "(*compress/gzip.Writer).Flush":
		h := handleOf(args[0])
		if h == nil {
			return nil, false
		}
		if h.fail || !put(h, h.buf) {
			h.fail = true
			return bad()
		}
		h.buf = nil
		return one(st, mkNil()), true
	case "(*compress/gzip.Writer).Write":
		h := handleOf(args[0])
		if h == nil {
			return nil, false
		}
		c := x.content(st, args[1])
		ts, ok := r.tokens(c)
		if !ok {
			return nil, false
		}
		if h.fail {
			return bad(mkInt(0))
		}
		h.buf = append(h.buf, ts...)
		return one(st, cLen(c), mkNil()), true
	case "(*compress/gzip.Reader).Close":
		return one(st, mkNil()), true
	}
	switch {
	case strings.HasSuffix(nm, "tinylib/msgp/msgp.NewWriter") || strings.HasSuffix(nm, "tinylib/msgp/msgp.NewWriterSize"):
		h := handleOf(args[0])
		if h == nil {
			return nil, false
		}
		r.written, r.nwrites = nil, 0
		return one(st, thing(fmt.Sprintf("msgw#%d", num(h)), sig.Results().At(0).Type())), true
	case strings.HasSuffix(nm, "tinylib/msgp/msgp.NewReader") || strings.HasSuffix(nm, "tinylib/msgp/msgp.NewReaderSize"):
		h := handleOf(args[0])
		if h == nil {
			return nil, false
		}
		r.in = nil
		if f := r.files[h.name]; f != nil && h.open {
			r.in = append(r.in, f.toks...)
		}
		return one(st, thing(fmt.Sprintf("msgr#%d", num(h)), sig.Results().At(0).Type())), true
	case strings.HasSuffix(nm, "tinylib/msgp/msgp.Encode") || strings.HasSuffix(nm, "tinylib/msgp/msgp.Decode"):
		h := handleOf(args[0])
		if h == nil || args[1].op != "iface" {
			return nil, false
		}
		m, end := "DecodeMsg", "msgr"
		if strings.HasSuffix(nm, "Encode") {
			m, end = "EncodeMsg", "msgw"
			r.written, r.nwrites = nil, 0
		} else {
			r.in = nil
			if f := r.files[h.name]; f != nil && h.open {
				r.in = append(r.in, f.toks...)
			}
		}
		sel := types.NewMethodSet(args[1].obj.(types.Type)).Lookup(nil, m)
		if sel == nil {
			return nil, false
		}
		f := x.w.prog.MethodValue(sel)
		v := thing(fmt.Sprintf("%s#%d", end, num(h)), f.Signature.Params().At(0).Type())
		outs := x.runFunc(f, []*T{args[1].args[0], v}, nil, st)
		if m == "DecodeMsg" || len(outs) != 1 || outs[0].panic || !outs[0].rets[0].isNil() {
			return outs, true
		}
		return r.hook(fr, outs[0].st, nil, "(*tinylib/msgp/msgp.Writer).Flush", []*T{v}, sig, pos)
	case strings.HasSuffix(nm, "msgp.Writer).Flush"):
		h := handleOf(args[0])
		if h == nil {
			return nil, false
		}
		ts := r.written
		r.written = nil
		// the writer passes on what it has when it is full, and at the end
		for len(ts) > 0 && !h.fail {
			n := len(ts)/3 + 1
			r.nwrote++
			if r.failW >= 0 && r.nwrote > r.failW {
				h.fail = true
				if f := r.files[h.name]; f != nil && len(h.buf) > 0 {
					f.gz, f.toks = true, append(f.toks, h.buf...)
				}
				break
			}
			h.buf = append(h.buf, ts[:n]...)
			ts = ts[n:]
		}
		if h.fail {
			return bad()
		}
		return one(st, mkNil()), true
	}
	if outs, ok := r.exec(fr, st, fn, nm, args, sig, bad, thing, bare); ok {
		return outs, true
	}
	switch nm {
	case "sort.Slice", "sort.SliceStable":
		return r.sort(fr, st, args)
	case "encoding/hex.DecodeString":
		if s, ok := args[0].str(); ok {
			if b, err := hex.DecodeString(s); err != nil {
				st = st.clone()
				return bad(x.newBytes(st, cLit(string(b)), bytesT))
			}
		}
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		return r.fprint(fr, st, nm, args, pos)
	}
	return r.msgRun.hook(fr, st, fn, nm, args, sig, pos)
}

// exec: the compiler's process
func (r *compileRun) exec(fr *frame, st *State, fn *ssa.Function, nm string, args []*T, sig *types.Signature, bad func(...*T) ([]outcome, bool), thing func(string, types.Type) *T, bare func(*T) *T) ([]outcome, bool) {
	x := r.x
	switch nm {
	case "os/exec.Command":
		if s, ok := args[0].str(); !ok || s != "solc" {
			x.fail("another program is run: %s", args[0])
			return nil, true
		}
		c := x.content(st, args[1])
		std := false
		n, _ := cLen(c).i64()
		for i := int64(0); i < n; i++ {
			s, _ := cSel(c, mkInt(i), strT()).str()
			std = std || s == "--standard-json"
		}
		if !std {
			x.fail("the compiler is not told to read a description from its input")
			return nil, true
		}
		st = st.clone()
		t := deref(sig.Results().At(0).Type())
		p := x.newAlloc("cmd", t)
		x.store(st, p, zeroOf(t), t)
		r.inOpen, r.sent, r.started, r.asked = false, false, false, nil
		r.reply = solcReply{}
		if r.solc != nil {
			r.reply = r.solc(nil)
		}
		return one(st, p), true
	case "(*os/exec.Cmd).StdinPipe":
		if r.reply.inErr {
			return bad(mkNil())
		}
		r.inOpen = true
		v := mk("sym", "solc in", sig.Results().At(0).Type())
		st = st.clone()
		st.facts = st.facts.push(mkNot(mkEq(v, mkNil(), nil)))
		return one(st, v, mkNil()), true
	case "(*os/exec.Cmd).StdoutPipe":
		if r.reply.outErr {
			return bad(mkNil())
		}
		v := mk("sym", "solc out", sig.Results().At(0).Type())
		st = st.clone()
		st.facts = st.facts.push(mkNot(mkEq(v, mkNil(), nil)))
		return one(st, v, mkNil()), true
	case "(*os/exec.Cmd).Start":
		if r.reply.startErr {
			return bad()
		}
		r.started = true
		r.runs++
		return one(st, mkNil()), true
	case "(*os/exec.Cmd).Wait":
		if !r.started {
			return bad()
		}
		if r.inOpen && !r.reply.sendErr {
			x.fail("the compiler is waited for while it waits for more input: hangs")
			return nil, true
		}
		if r.reply.waitErr {
			return bad()
		}
		return one(st, mkNil()), true
	case "encoding/json.NewEncoder":
		if bare(args[0]).aux == "solc in" {
			v := mk("sym", "solc encoder", sig.Results().At(0).Type())
			return one(st, v), true
		}
	case "encoding/json.NewDecoder":
		if bare(args[0]).aux == "solc out" {
			return one(st, mk("sym", "solc decoder", sig.Results().At(0).Type())), true
		}
	case "(*encoding/json.Encoder).Encode":
		if args[0].aux != "solc encoder" {
			return nil, false
		}
		if r.reply.sendErr {
			return bad()
		}
		if !r.started || !r.inOpen || args[1].op != "iface" {
			return bad()
		}
		r.sent = r.told(r.describe(st, args[1].args[0], args[1].obj.(types.Type)))
		return one(st, mkNil()), true
	case "(*encoding/json.Decoder).Decode":
		if args[0].aux != "solc decoder" {
			return nil, false
		}
		if r.inOpen && !r.reply.sendErr {
			x.fail("the compiler's output is read while it waits for more input: hangs")
			return nil, true
		}
		if r.reply.out == nil || !r.started || !r.sent {
			return bad()
		}
		return r.hist.unmarshal(st.clone(), r.reply.out, args[1], fr), true
	case "encoding/json.Marshal":
		if args[0].op == "iface" {
			st = st.clone()
			r.blob = r.describe(st, args[0].args[0], args[0].obj.(types.Type))
			return one(st, x.newBytes(st, cVec(mk("fn", "solc input", nil)), types.NewSlice(byteT)), mkNil()), true
		}
	}
	if len(args) > 0 && bare(args[0]).op == "sym" && bare(args[0]).aux == "solc in" {
		switch nm[strings.LastIndex(nm, ".")+1:] {
		case "Close":
			r.inOpen = false
			return one(st, mkNil()), true
		case "Write":
			if r.reply.sendErr || !r.started || !r.inOpen {
				return bad(mkInt(0))
			}
			c := x.content(st, args[1])
			if cSel(c, mkInt(0), nil).aux == "solc input" {
				r.sent = r.told(r.blob)
			}
			return one(st, cLen(c), mkNil()), true
		}
	}
	if len(args) > 0 && bare(args[0]).op == "sym" && bare(args[0]).aux == "solc out" && strings.HasSuffix(nm, ".Close") {
		return one(st, mkNil()), true
	}
	return nil, false
}

// sort a slice with a function of the program
func (r *compileRun) sort(fr *frame, st *State, args []*T) ([]outcome, bool) {
	x := r.x
	v := args[0]
	if v.op != "iface" {
		return nil, false
	}
	stp, ok := v.obj.(types.Type).Underlying().(*types.Slice)
	if !ok || args[1].op != "closure" && args[1].op != "func" {
		return nil, false
	}
	v = v.args[0]
	less := args[1].obj.(*ssa.Function)
	st = st.clone()
	if v.isNil() {
		return one(st), true
	}
	n, ok := x.sliceLen(v).i64()
	if !ok {
		return nil, false
	}
	p := x.parts(v)
	for i := int64(1); i < n; i++ {
		for j := i; j > 0; j-- {
			outs := x.runFunc(less, []*T{mkInt(j), mkInt(j - 1)}, args[1].args, st)
			if len(outs) != 1 || outs[0].panic {
				return nil, false
			}
			st = outs[0].st
			c := outs[0].rets[0]
			if !c.isTrue() && !c.isFalse() {
				switch r.judge(c) {
				case 1:
					c = mkBool(true)
				case -1:
					c = mkBool(false)
				default:
					return nil, false
				}
			}
			if !c.isTrue() {
				break
			}
			c = x.load(st, p.base, nil)
			a, b := cSel(c, mkAdd(p.off, mkInt(j), intT), stp.Elem()), cSel(c, mkAdd(p.off, mkInt(j-1), intT), stp.Elem())
			x.store(st, p.base, cSplice(c, mkAdd(p.off, mkInt(j-1), intT), cVec(a, b)), nil)
		}
	}
	return one(st), true
}

func (r *sampleRun) fprint(fr *frame, st *State, nm string, args []*T, pos token.Pos) ([]outcome, bool) {
	x := r.x
	if args[0].op != "iface" {
		return nil, false
	}
	t := args[0].obj.(types.Type)
	sel := types.NewMethodSet(t).Lookup(nil, "Write")
	if sel == nil {
		return nil, false
	}
	f := x.w.prog.MethodValue(sel)
	var c *T
	st = st.clone()
	if nm == "io.WriteString" {
		c = strContent(args[1])
	} else {
		vi, form := 1, ""
		if nm == "fmt.Fprintf" {
			var ok bool
			if form, ok = args[1].str(); !ok {
				return nil, false
			}
			vi = 2
		}
		var vals []*T
		if !args[vi].isNil() {
			vc := x.content(st, args[vi])
			n, ok := cLen(vc).i64()
			if !ok {
				return nil, false
			}
			for i := int64(0); i < n; i++ {
				vals = append(vals, cSel(vc, mkInt(i), nil))
			}
		}
		var ok bool
		if c, st, ok = r.render(st, form, nm == "fmt.Fprintf", nm == "fmt.Fprintln", vals); !ok {
			return nil, false
		}
	}
	st = st.clone()
	a := []*T{args[0].args[0], x.newBytes(st, c, types.NewSlice(byteT))}
	if m := x.model(f, fnName(f)); m != nil {
		return m(fr, st, f, a, pos), true
	}
	if !inRepo(f) || len(f.Blocks) == 0 {
		return nil, false
	}
	return x.runFunc(f, a, nil, st), true
}

// ---- the rules ----

// standard is an answer about sources, with everything in it
func (r *compileRun) standard(ss []csource) *canswer {
	a := &canswer{}
	for i, s := range ss {
		a.ids = append(a.ids, s.name)
		if i == 1 {
			continue
		}
		a.contracts = append(a.contracts, ccontract{s.name, fmt.Sprintf("C%d", i), fmt.Sprintf("6080604%x", i), r.bytesSyms("map", 5), []cabi{
			{typ: "function", name: fmt.Sprint("f", i), mut: "view", konst: true, in: []string{"uint256", "address"}, out: []string{"bool"}},
			{typ: "constructor", mut: "payable", payable: true},
		}})
	}
	a.msgs = []cmsg{{"Warning", r.bytesSyms("warn", 4)}}
	return a
}

func (r *compileRun) answers(as *canswer) {
	r.solc = func([]csource) solcReply { return solcReply{out: as.out()} }
}

// good: it compiles, and the result is that of these sources
func (r *compileRun) good(what string, ss []csource, a *canswer, run int) bool {
	r.what = what
	r.answers(a)
	b, failed, ok := r.Compile(ss)
	if !ok {
		return false
	}
	if failed {
		return r.say("value", "it fails")
	}
	if run >= 0 && r.runs != run {
		return r.say("value", "the compiler ran %d times, should be %d", r.runs, run)
	}
	if r.runs > 0 && !r.right(ss) {
		return false
	}
	return r.check(b, a, ss)
}

func runCompileCache(c *Check) {
	r := c.newCompileRun()
	if r == nil {
		return
	}
	for i := 0; i < 4; i++ {
		r.x.backwards = i%2 == 1
		r.tmp = []string{"/tmp", "/t-m.p/x-y"}[i/2]
		if !r.cacheHistory() || !r.cacheTrouble() || !r.cacheFailures() {
			break
		}
	}
	c.obl += r.n
	c.done += r.n
}

func rev(ss []csource) []csource {
	var out []csource
	for i := len(ss) - 1; i >= 0; i-- {
		out = append(out, ss[i])
	}
	return out
}

func (r *compileRun) names() string {
	var l []string
	for f := range r.files {
		l = append(l, f)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (r *compileRun) cacheHistory() bool {
	r.fresh()
	digits := func(s string) *T {
		c := r.bytesSyms("body", len(s))
		r.vals.bytes(c, []byte(s))
		return c
	}
	b1, b2, b3 := digits("contract A {}"), digits("contract Bc {}"), digits("x")
	base := []csource{{"b.sol", b1}, {"a.sol", b2}}
	cut := func(c *T, from, n int64) *T { return cSub(c, mkInt(from), mkInt(n)) }
	type hist struct {
		what string
		ss   []csource
	}
	all := []hist{
		{"one text changed", []csource{{"b.sol", b1}, {"a.sol", digits("contract Bd {}")}}},
		{"the other text changed", []csource{{"b.sol", digits("contract B {}")}, {"a.sol", b2}}},
		{"texts exchanged", []csource{{"b.sol", b2}, {"a.sol", b1}}},
		{"one name changed", []csource{{"c.sol", b1}, {"a.sol", b2}}},
		{"one source less", []csource{{"b.sol", b1}}},
		{"one source more", []csource{{"b.sol", b1}, {"a.sol", b2}, {"c.sol", b3}}},
		{"an empty source more", []csource{{"b.sol", b1}, {"a.sol", b2}, {"", cVec()}}},
		{"the end of a text in the next one", []csource{{"a.sol", cCat(b2, cut(b1, 0, 1))}, {"b.sol", cut(b1, 1, 12)}}},
		{"the start of a text in the one before", []csource{{"a.sol", cut(b2, 0, 13)}, {"b.sol", cCat(cut(b2, 13, 1), b1)}}},
		{"the end of a name in the next one", []csource{{"a.so", b2}, {"lb.sol", b1}}},
		{"both in one", []csource{{"a.solb.sol", cCat(b2, b1)}}},
		{"lengths as parts of texts", []csource{{"a.sol", cCat(b2, cLit("13:"), b1)}, {"b.sol", cVec()}}},
		{"a name in a directory", []csource{{"x/b.sol", b1}, {"a.sol", b2}}},
		{"a name in capitals", []csource{{"B.sol", b1}, {"a.sol", b2}}},
		{"more blanks", []csource{{"b.sol", digits("contract A  {}")}, {"a.sol", b2}}},
		{"another blank", []csource{{"b.sol", digits("contract\tA {}")}, {"a.sol", b2}}},
		{"a text that ends with a line", []csource{{"b.sol", digits("contract A {}\n")}, {"a.sol", b2}}},
		{"a comment", []csource{{"b.sol", digits("contract A {}//")}, {"a.sol", b2}}},
		{"other letters", []csource{{"b.sol", digits("contract a {}")}, {"a.sol", b2}}},
		{"three texts", []csource{{"b.sol", digits("contract X {}")}, {"a.sol", digits("contract Y {}")}, {"c.sol", digits("contract Z {}")}}},
		{"names as parts of texts", []csource{{"a.sol", cCat(b2, cLit("b.sol"))}, {"b.sol", b1}}},
		{"a text that starts with digits", []csource{{"a.sol", cCat(cLit("1"), b2)}, {"b.sol", b1}}},
	}
	ab := r.standard(base)
	other := map[string]bool{}
	for _, f := range []string{"notes.txt", "0011-2233.bundle"} {
		r.files[r.tmp+"/tevm/"+f] = &cfile{text: cLit("mine")}
		r.files[r.tmp+"/"+f] = &cfile{text: cLit("mine")}
		other[r.tmp+"/tevm/"+f], other[r.tmp+"/"+f] = true, true
	}
	for _, f := range []string{"/t-other", "/t-m.p/x-other"} {
		r.files[f] = &cfile{text: cLit("mine")}
		other[f] = true
	}
	kept := func() bool {
		for f := range other {
			if r.files[f] == nil {
				return r.say("value", "the file %s of somebody else is gone", f)
			}
		}
		return true
	}
	if !r.good("sources for the first time", base, ab, 1) || !kept() {
		return false
	}
	if !r.good("the same sources again", base, ab, 0) || !r.good("the same sources in another order", rev(base), ab, 0) || !kept() {
		return false
	}
	key := func(ss []csource) string {
		var l []string
		for _, s := range ss {
			l = append(l, fmt.Sprintf("%q", s.name))
		}
		sort.Strings(l)
		return strings.Join(l, " ")
	}
	seen := map[string]bool{key(base): true}
	for _, h := range all {
		a := r.standard(h.ss)
		before := map[string]bool{}
		for f := range r.files {
			before[f] = true
		}
		if !r.good(h.what, h.ss, a, 1) || !kept() {
			return false
		}
		// only what is of the same files may be removed
		same := seen[key(h.ss)]
		seen[key(h.ss)] = true
		if !same && len(r.removed) > 0 {
			return r.say("value", "%s is removed from the cache", r.removed)
		}
		if same && len(r.files) > len(before) {
			return r.say("value", "what the cache has of the same files before they changed stays")
		}
		if !r.good(h.what+", again", rev(h.ss), a, 0) || !r.good(h.what+", then the first sources again", base, ab, -1) || !r.good("the first sources once more", rev(base), ab, 0) {
			return false
		}
	}
	return true
}

// cacheTrouble: damaged files, and writes that fail
func (r *compileRun) cacheTrouble() bool {
	r.fresh()
	base := []csource{{"b.sol", r.body(9)}, {"a.sol", r.body(7)}}
	a := r.standard(base)
	if !r.good("sources", base, a, 1) {
		return false
	}
	if len(r.files) != 1 {
		return r.say("value", "the cache has the files %s", r.names())
	}
	var name string
	for f := range r.files {
		name = f
	}
	whole := r.normal(r.files[name].toks)
	if len(whole) < 20 {
		return r.say("value", "the cache holds %d tokens", len(whole))
	}
	damage := []*cfile{{}, {text: cLit("junk")}, {gz: true}}
	for i := 1; i < len(whole); i += len(whole)/40 + 1 {
		damage = append(damage, &cfile{gz: true, toks: whole[:i]})
	}
	damage = append(damage, &cfile{gz: true, toks: whole[:len(whole)-1]},
		&cfile{gz: true, toks: append([]mtok{{"b", mkInt(0xc1)}}, whole[1:]...)},
		&cfile{gz: true, toks: whole[1:]})
	st := r.st
	for i, d := range damage {
		r.st = st.clone()
		r.files = map[string]*cfile{name: {gz: d.gz, text: d.text, toks: append([]mtok{}, d.toks...)}}
		if !r.good(fmt.Sprintf("sources whose cached file is damaged (%d)", i), base, a, 1) ||
			!r.good(fmt.Sprintf("sources whose cached file was damaged (%d)", i), rev(base), a, 0) {
			return false
		}
	}
	// nothing can be written
	for i := 0; i < 8; i++ {
		r.st = st.clone()
		r.files = map[string]*cfile{}
		r.dirs = map[string]bool{"/": true, r.tmp: true}
		what := ""
		switch i {
		case 0:
			r.noDir, what = true, "its directory cannot be made"
		case 1:
			r.noFile, what = true, "its file cannot be made"
		case 2:
			r.noOpen, what = true, "its file cannot be opened"
		default:
			r.failW, what = i-3, fmt.Sprintf("%d writes succeed", i-3)
		}
		if !r.good("a cache where "+what, base, a, 1) || !r.good("a cache where "+what+", again", base, a, -1) {
			return false
		}
		if i < 2 && len(r.files) > 0 {
			return r.say("value", "the cache has the files %s", r.names())
		}
		r.noDir, r.noFile, r.noOpen, r.failW = false, false, false, -1
		if !r.good("the cache works after one where "+what, base, a, -1) || !r.good("the cache works after one where "+what+", again", base, a, 0) {
			return false
		}
	}
	return true
}

func (r *compileRun) troubles(a *canswer) map[string]solcReply {
	out := a.out()
	bad := *a
	bad.msgs = append(append([]cmsg{}, a.msgs...), cmsg{"TypeError", r.bytesSyms("error", 6)})
	first := *a
	first.msgs = append([]cmsg{{"ParserError", r.bytesSyms("error", 6)}}, a.msgs...)
	odd, link := *a, *a
	odd.contracts = append([]ccontract{}, a.contracts...)
	odd.contracts[0].obj = "608"
	link.contracts = append([]ccontract{}, a.contracts...)
	link.contracts[0].obj = "6080__a.sol:L______________________________6001"
	return map[string]solcReply{
		"a compiler that cannot be started":       {startErr: true, out: out},
		"a compiler without an input":             {inErr: true, out: out},
		"a compiler without an output":            {outErr: true, out: out},
		"a compiler that does not read its input": {sendErr: true, out: out},
		"a compiler that prints nothing":          {},
		"a compiler that prints something else":   {out: mk("fn", "list", nil)},
		"a compiler that fails":                   {waitErr: true, out: out},
		"a compiler that reports an error last":   {out: bad.out()},
		"a compiler that reports an error first":  {out: first.out()},
		"code with an odd number of digits":       {out: odd.out()},
		"code that is not linked":                 {out: link.out()},
	}
}

func (r *compileRun) cacheFailures() bool {
	r.fresh()
	base := []csource{{"b.sol", r.body(9)}, {"a.sol", r.body(7)}}
	a := r.standard(base)
	ts := r.troubles(a)
	var names []string
	for n := range ts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		r.what = n
		for i := 0; i < 2; i++ {
			r.solc = func([]csource) solcReply { return ts[n] }
			_, failed, ok := r.Compile(base)
			if !ok {
				return false
			}
			if !failed {
				return r.say("value", "there is no error")
			}
			if len(r.files) > 0 {
				return r.say("value", "the failure leaves the files %s", r.names())
			}
			r.n++
		}
	}
	return r.good("sources that failed before", base, a, 1) && r.good("sources that failed before, again", base, a, 0)
}

func runCompileBundle(c *Check) {
	r := c.newCompileRun()
	if r == nil {
		return
	}
	for i := 0; i < 2; i++ {
		r.x.backwards = i%2 == 1
		if !r.bundles() || !r.globs() {
			break
		}
	}
	c.obl += r.n
	c.done += r.n
}

func (r *compileRun) bundles() bool {
	for k := 0; k < 14; k++ {
		r.fresh()
		var ss []csource
		for i := 0; i < 1+k%4; i++ {
			ss = append(ss, csource{[]string{"z.sol", "a.sol", "m/b.sol", "\"q\".sol"}[(i+k/4)%4], r.body((i*5 + k) % 11)})
		}
		a := &canswer{}
		for i := range ss { // numbers are not in the order of the sources
			a.ids = append(a.ids, ss[(i+k)%len(ss)].name)
		}
		for i, s := range ss {
			for j := 0; j < (i+k)%3; j++ {
				con := ccontract{file: s.name, name: fmt.Sprintf("K%d%d", i, j), obj: strings.Repeat("60f0", (i+j+k)%4), srcmap: r.bytesSyms("map", (k+j)%6)}
				for d := 0; d < (i+j+k)%5; d++ {
					ab := cabi{typ: []string{"function", "event", "constructor", "fallback"}[d%4], name: fmt.Sprintf("n%d", d), mut: []string{"pure", "view", "nonpayable", "payable"}[(d+k)%4], payable: (d+k)%2 == 0, konst: (d+k)%3 == 0}
					for p := 0; p < (d+k)%4; p++ {
						ab.in = append(ab.in, []string{"uint8", "bytes", "tuple", "address[]"}[(p+k)%4])
						ab.out = append([]string{[]string{"string", "tuple", "bytes32", "int64"}[(p+k)%4]}, ab.out...)
					}
					con.abi = append(con.abi, ab)
				}
				if k > 6 && i > 0 && j == 0 { // a name that another file has too
					con.name, con.obj = "K00", fmt.Sprintf("60f0%02x", i)
				}
				a.contracts = append(a.contracts, con)
			}
		}
		for i := 0; i < k%4; i++ {
			a.msgs = append(a.msgs, cmsg{"Warning", r.bytesSyms("warn", 3+i)})
		}
		what := fmt.Sprintf("%d sources with %d contracts and %d warnings", len(ss), len(a.contracts), len(a.msgs))
		if !r.good("Compile of "+what, ss, a, 1) {
			return false
		}
		// an error in any place among the warnings
		for i := 0; i <= len(a.msgs); i++ {
			e := *a
			e.msgs = append(append(append([]cmsg{}, a.msgs[:i]...), cmsg{[]string{"TypeError", "ParserError", "warning", ""}[(i+k)%4], r.bytesSyms("error", 4)}), a.msgs[i:]...)
			r.what = fmt.Sprintf("Compile of %s with error %d", what, i)
			r.files = map[string]*cfile{}
			r.solc = func([]csource) solcReply { return solcReply{out: e.out()} }
			_, failed, ok := r.Compile(ss)
			if !ok {
				return false
			}
			if !failed {
				return r.say("value", "there is no error")
			}
			r.n++
		}
		// the same as files, and from a string
		r.files, r.dirs = map[string]*cfile{}, map[string]bool{"/": true, r.tmp: true}
		var fs []csource
		fa := *a
		fa.ids = nil
		for i, s := range ss {
			fs = append(fs, csource{fmt.Sprintf("src/%d.sol", i), s.body})
			r.files[fs[i].name] = &cfile{text: s.body}
		}
		for _, id := range a.ids {
			for i, s := range ss {
				if s.name == id {
					fa.ids = append(fa.ids, fs[i].name)
				}
			}
		}
		fa.contracts = append([]ccontract{}, a.contracts...)
		for i := range fa.contracts {
			for j, s := range ss {
				if s.name == a.contracts[i].file {
					fa.contracts[i].file = fs[j].name
				}
			}
		}
		r.files["src/5.txt"], r.files["other/1.sol"] = &cfile{text: cLit("no")}, &cfile{text: cLit("no")}
		r.what = "CompileGlob of " + what
		r.answers(&fa)
		b, failed, ok := r.run(r.c.fn("", "CompileGlob"), constStr("src/*.sol"))
		if !ok {
			return false
		}
		if failed {
			return r.say("value", "it fails")
		}
		if !r.right(fs) || !r.check(b, &fa, fs) {
			return false
		}
		if len(ss) > 1 {
			continue
		}
		one := []csource{{"<stdin>", ss[0].body}}
		oa := *a
		oa.ids = []string{"<stdin>"}
		oa.contracts = append([]ccontract{}, a.contracts...)
		for i := range oa.contracts {
			oa.contracts[i].file = "<stdin>"
		}
		for i := 0; i < 2; i++ {
			r.what = "CompileString of " + what
			r.answers(&oa)
			b, failed, ok = r.run(r.c.fn("", "CompileString"), mkString(ss[0].body))
			if !ok {
				return false
			}
			if failed {
				return r.say("value", "it fails")
			}
			if r.runs > 0 || i == 0 {
				if len(r.asked) != 1 {
					return r.say("value", "the compiler is given %d sources", len(r.asked))
				}
				oa.ids[0] = r.asked[0].name
				one[0].name = r.asked[0].name
				if !r.right(one) {
					return false
				}
			}
			if !r.check(b, &oa, one) {
				return false
			}
		}
	}
	// a compiler in trouble
	r.fresh()
	ss := []csource{{"b.sol", r.body(9)}}
	a := r.standard(ss)
	sa := *a
	sa.ids = []string{"<stdin>"}
	sa.contracts = append([]ccontract{}, a.contracts...)
	for i := range sa.contracts {
		sa.contracts[i].file = "<stdin>"
	}
	r.files["b.sol"] = &cfile{text: ss[0].body}
	ts, tss := r.troubles(a), r.troubles(&sa)
	var names []string
	for n := range ts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for i, f := range []string{"Compile", "CompileGlob", "CompileString"} {
			r.what = f + " with " + n
			r.solc = func([]csource) solcReply { return ts[n] }
			var arg *T
			switch i {
			case 0:
				arg = r.sources(ss)
			case 1:
				arg = constStr("*.sol")
			case 2:
				r.solc = func([]csource) solcReply { return tss[n] }
				arg = mkString(ss[0].body)
			}
			_, failed, ok := r.run(r.c.fn("", f), arg)
			if !ok {
				return false
			}
			if !failed {
				return r.say("value", "there is no error")
			}
			r.n++
		}
	}
	return true
}

func (r *compileRun) globs() bool {
	r.fresh()
	ss := []csource{{"b.sol", r.body(9)}, {"a.sol", r.body(7)}}
	a := r.standard(ss)
	fn := r.c.fn("", "CompileGlob")
	fails := func(what, glob string) bool {
		r.what = "CompileGlob of " + what
		r.answers(a)
		_, failed, ok := r.run(fn, constStr(glob))
		if !ok {
			return false
		}
		if !failed {
			return r.say("value", "there is no error")
		}
		if r.runs > 0 {
			return r.say("value", "the compiler runs")
		}
		r.n++
		return true
	}
	if !fails("nothing", "*.sol") || !fails("a pattern that is none", "[") {
		return false
	}
	for _, s := range ss {
		r.files[s.name] = &cfile{text: s.body}
	}
	if !fails("other files", "*.txt") {
		return false
	}
	r.files["c.sol"] = &cfile{} // cannot be read
	if !fails("a file that cannot be read", "*.sol") {
		return false
	}
	delete(r.files, "c.sol")
	for i := 0; i < 2; i++ {
		r.what = "CompileGlob of two files"
		r.answers(a)
		b, failed, ok := r.run(fn, constStr("*.sol"))
		if !ok {
			return false
		}
		if failed {
			return r.say("value", "it fails")
		}
		if r.runs > 0 && !r.right(ss) {
			return false
		}
		if !r.check(b, a, ss) {
			return false
		}
	}
	// the text of a file changes
	ss[0].body = r.body(9)
	r.files["b.sol"] = &cfile{text: ss[0].body}
	r.what = "CompileGlob of a file that has changed"
	b, failed, ok := r.run(fn, constStr("*.sol"))
	if !ok {
		return false
	}
	if failed {
		return r.say("value", "it fails")
	}
	return r.right(ss) && r.check(b, a, ss)
}
