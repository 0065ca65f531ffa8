package main

// C34: the Go code that bindgen writes for a contract. The generator is
// interpreted for contracts with all kinds of functions; the code it writes
// is type-checked against the package and interpreted in turn.

import (
	"fmt"
	"go/ast"
	goparser "go/parser"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C34"] = &CheckDef{
		title:     "Code generated by bindgen calls exactly the functions of the contract",
		technique: "static abstract interpretation over SSA of the generator; the code generated is type-checked, built into SSA and interpreted against a recording sender",
		explanation: "bindgen is interpreted from main on for contracts with functions of every type and number of arguments and results, events and constructors, for one and several contracts, with and without code. What it writes is parsed and type-checked against the package, and every method generated is interpreted: the one request it makes must go to the contract through the sender, with the signature in the ABI and the arguments in order, " +
			"and what a constant function answers must be what the method returns. The types must be those that the encoder and decoder of the package take for the type in the ABI. Command lines, files, compilers and outputs in trouble must end it with a failure and nothing written.",
		assumptions: []string{"imports.Process removes and adds imports, formats, and does nothing else", "the compiler is the subject of other properties", "functions behave alike whatever their names"},
		min:         500,
		run:         runBindgen,
	}
}

type bindRun struct {
	*ethRun
	cold     *State // before the package is initialised
	args     []string
	sources  map[string]*T
	compiled *T
	badComp  bool
	badImp   bool
	badWrite bool
	asked    []csource
	made     int
	// what generated code does
	sent  []bindCall
	fails bool
	outs  []*T
}

type bindCall struct {
	kind       string
	recv, addr *T
	sig        string
	args       []*T // interface values
	st         *State
	out        *T
}

type bfunc struct {
	name    string
	typ     string
	konst   bool
	in, out []string
}

type bcontract struct {
	name string
	code []byte
	fns  []bfunc
}

func runBindgen(c *Check) {
	s := c.newSampleRun()
	e := &ethRun{sampleRun: s, inits: map[*T]*flagSet{}, std: map[string]*T{}, env: map[string]string{}, files: map[string]*T{}, wrote: map[string]*T{}}
	e.flags = e.inits
	r := &bindRun{ethRun: e, sources: map[string]*T{}}
	main := c.fn("bindgen", "main")
	if main == nil {
		return
	}
	e.main, s.fn = main, main
	s.extra = r.hook
	s.x.maxSteps, s.x.unrollMax = 6000000, 5000
	st := s.base.clone()
	for _, n := range []string{"Stdin", "Stdout", "Stderr"} {
		g := c.w.prog.ImportedPackage("os").Var(n)
		p := s.x.newAlloc(n, deref(deref(g.Type())))
		e.std[n] = p
		st.mem = st.mem.set(c.w.global(g), p)
	}
	for _, m := range c.w.pkgs["bindgen"].Members {
		if g, ok := m.(*ssa.Global); ok {
			s.x.store(st, c.w.global(g), zeroOf(deref(g.Type())), deref(g.Type()))
		}
	}
	r.cold = st
	_ = r.contracts() && r.trouble()
	c.obl += s.n
	c.done += s.n
}

func (r *bindRun) hook(fr *frame, st *State, fn *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
	s := r.ethRun.sampleRun
	x := s.x
	bytesT := types.NewSlice(byteT)
	bad := func(tag string, rets ...*T) ([]outcome, bool) {
		st = st.clone()
		e := x.err(tag)
		st.facts = st.facts.push(mkNot(mkEq(e, mkNil(), errorT)))
		return one(st, append(rets, e)...), true
	}
	vals := func(v *T) ([]*T, bool) {
		if v.isNil() {
			return nil, true
		}
		c := x.content(st, v)
		n, ok := cLen(c).i64()
		var out []*T
		for i := int64(0); ok && i < n; i++ {
			out = append(out, cSel(c, mkInt(i), nil))
		}
		return out, ok
	}
	switch nm {
	case "flag.StringVar", "flag.BoolVar", "flag.IntVar", "flag.NArg", "flag.Arg", "flag.Args", "flag.PrintDefaults":
		return r.flag(st, strings.TrimPrefix(nm, "flag."), append([]*T{mkNil()}, args...))
	case "flag.String", "flag.Bool", "flag.Int":
		st = st.clone()
		p := x.newAlloc("flag", deref(sig.Results().At(0).Type()))
		outs, ok := r.flag(st, strings.TrimPrefix(nm, "flag.")+"Var", append([]*T{mkNil(), p}, args...))
		if ok {
			outs[0].rets = []*T{p}
		}
		return outs, ok
	case "flag.Parse":
		st = st.clone()
		var as []*T
		for _, a := range r.args {
			as = append(as, constStr(a))
		}
		outs, ok := r.flag(st, "Parse", []*T{mkNil(), s.strs(st, as...)})
		if ok && !outs[0].panic {
			outs[0].rets = nil
		}
		return outs, ok
	case "os.Exit", "os.Getenv", "os.LookupEnv", "io/ioutil.ReadFile", "os.ReadFile", "os.Create", "(*os.File).Close", "os.Stat":
		return r.ethRun.hook(fr, st, fn, nm, args, sig, pos)
	case "io/ioutil.WriteFile", "os.WriteFile":
		n, ok := args[0].str()
		if !ok {
			return nil, false
		}
		if r.noCreate {
			return bad(nm)
		}
		r.wrote[n] = x.content(st, args[1])
		if r.badWrite {
			r.wrote[n] = cVec()
			return bad(nm)
		}
		return one(st, mkNil()), true
	case "(*os.File).Write", "(*os.File).WriteString":
		if r.badWrite && args[0] != r.std["Stderr"] {
			return bad(nm, mkInt(0))
		}
		return r.print(fr, st, nm, args)
	case "seth.Compile":
		r.asked = nil
		vs, ok := vals(args[0])
		if !ok {
			return nil, false
		}
		t := s.c.typ("", "Source")
		for _, v := range vs {
			n, ok := structField(v, t, fieldIdx(t, "Filename")).str()
			if !ok {
				return nil, false
			}
			r.asked = append(r.asked, csource{n, strContent(structField(v, t, fieldIdx(t, "Body")))})
		}
		if r.badComp {
			return bad(nm, mkNil())
		}
		return one(st, r.compiled, mkNil()), true
	case "golang.org/x/tools/imports.Process", "go/format.Source":
		src := args[0]
		if len(args) > 1 {
			src = args[1]
		}
		c := x.content(st, src)
		b, ok := longBytes(c)
		if !ok {
			x.fail("what is generated is not known")
			return nil, true
		}
		if _, err := goparser.ParseFile(token.NewFileSet(), "", b, 0); err != nil || r.badImp {
			return bad(nm, mkNil())
		}
		st = st.clone()
		return one(st, x.newBytes(st, c, bytesT), mkNil()), true
	case "bytes.NewBuffer", "bytes.NewBufferString":
		st = st.clone()
		c := cVec()
		if nm == "bytes.NewBufferString" {
			c = strContent(args[0])
		} else if !args[0].isNil() {
			c = x.content(st, args[0])
		}
		t := deref(sig.Results().At(0).Type())
		p := x.newAlloc("buffer", t)
		x.store(st, p, zeroOf(t), t)
		if b, ok := constBytes(c); !ok || len(b) > 0 {
			return nil, false
		}
		return one(st, p), true
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "fmt.Errorf":
		f, as := "", args[0]
		if nm == "fmt.Sprintf" || nm == "fmt.Errorf" {
			var ok bool
			if f, ok = args[0].str(); !ok {
				return nil, false
			}
			as = args[1]
		}
		if nm == "fmt.Errorf" {
			return nil, false
		}
		vs, ok := vals(as)
		if !ok {
			return nil, false
		}
		c, s2, ok := s.render(st, f, nm == "fmt.Sprintf", nm == "fmt.Sprintln", vs)
		if !ok {
			return nil, false
		}
		return one(s2, mkString(c)), true
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		to := args[0]
		if to.op == "iface" {
			to = to.args[0]
		}
		if to == r.std["Stderr"] {
			return one(st, mkInt(0), mkNil()), true
		}
		if to == r.std["Stdout"] || to.op == "sym" {
			if r.badWrite {
				return bad(nm, mkInt(0))
			}
			return r.print(fr, st, nm, args)
		}
		return s.fprint(fr, st, nm, args, pos)
	case "fmt.Print", "fmt.Printf", "fmt.Println":
		return r.print(fr, st, nm, args)
	case "(*seth.Sender).Send", "(*seth.Sender).ConstCall":
		st = st.clone()
		q := bindCall{kind: nm[strings.LastIndex(nm, ".")+1:], recv: args[0], addr: args[1], st: st}
		var ok bool
		if q.sig, ok = args[2].str(); !ok {
			return nil, false
		}
		rest := args[3]
		if q.kind == "ConstCall" {
			q.out, rest = args[3], args[4]
		}
		if q.args, ok = vals(rest); !ok {
			return nil, false
		}
		r.sent = append(r.sent, q)
		ht := sig.Results()
		if q.kind == "Send" {
			h := mk("sym", "hash", ht.At(0).Type())
			if r.fails {
				return bad(nm, zeroOf(h.typ))
			}
			return one(st, h, mkNil()), true
		}
		r.outs = nil
		d := q.out
		dt, _ := d.obj.(types.Type)
		if d.op == "iface" {
			d = d.args[0]
		}
		if r.fails {
			return bad(nm)
		}
		if dt == nil || types.TypeString(deref(dt), nil) != modPath+".ABIDecoder" {
			x.fail("the answer is decoded into %s", clip(q.out.String(), 80))
			return nil, true
		}
		ps, ok := vals(x.load(st, d, deref(dt)))
		if !ok {
			return nil, false
		}
		for i, p := range ps {
			if p.op != "iface" {
				return nil, false
			}
			et := deref(p.obj.(types.Type))
			if et == nil {
				x.fail("the answer is decoded into a value")
				return nil, true
			}
			v := r.opaque(fmt.Sprintf("answer%d", i), et)
			x.store(st, p.args[0], v, et)
			r.outs = append(r.outs, v)
		}
		return one(st, mkNil()), true
	}
	return nil, false
}

func fieldIdx(t types.Type, n string) int {
	u, _ := t.Underlying().(*types.Struct)
	for i := 0; u != nil && i < u.NumFields(); i++ {
		if u.Field(i).Name() == n {
			return i
		}
	}
	return -1
}

// opaque is an unknown value of a type
func (r *bindRun) opaque(name string, t types.Type) *T {
	r.made++
	return mk("sym", fmt.Sprintf("%s#%d", name, r.made), t)
}

// ---- the generator ----

// generate runs a command line
func (r *bindRun) generate(cs []bcontract, args ...string) bool {
	s := r.ethRun.sampleRun
	r.args = args
	r.inits = map[*T]*flagSet{}
	r.flags = r.inits
	r.out, r.exit, r.wrote, r.asked = nil, 0, map[string]*T{}, nil
	max := s.x.maxSteps
	st, ok := s.initPackage(r.cold, "bindgen")
	s.x.maxSteps = max
	if !ok {
		return false
	}
	st = st.clone()
	var list []map[string]*T
	dt, pt := s.c.typ("", "ABIDescriptor"), s.c.typ("", "ABIParam")
	params := func(ts []string) *T {
		var ps []map[string]*T
		for i, t := range ts {
			ps = append(ps, map[string]*T{"Name": constStr(fmt.Sprint("p", i)), "Type": constStr(t)})
		}
		return s.list(st, pt, ps...)
	}
	for _, c := range cs {
		var ds []map[string]*T
		for _, f := range c.fns {
			ds = append(ds, map[string]*T{"Type": constStr(f.typ), "Name": constStr(f.name), "Constant": mkBool(f.konst), "Inputs": params(f.in), "Outputs": params(f.out)})
		}
		list = append(list, map[string]*T{"Name": constStr(c.name), "Code": s.x.newBytes(st, cLit(string(c.code)), types.NewSlice(byteT)), "ABI": s.list(st, dt, ds...)})
	}
	bt := s.c.typ("", "CompiledBundle")
	r.compiled = s.put(st, bt, map[string]*T{"Contracts": s.list(st, s.c.typ("", "CompiledContract"), list...)})
	g := s.c.w.prog.ImportedPackage("os").Var("Args")
	as := []*T{constStr("bindgen")}
	for _, a := range args {
		as = append(as, constStr(a))
	}
	st.mem = st.mem.set(s.c.w.global(g), s.strs(st, as...))
	s.fn = r.main
	s.hist.x.failed = ""
	outs := s.hist.call(st, r.main)
	if s.hist.fail != "" {
		f := s.hist.fail
		s.hist.fail = ""
		return s.say("analysis", "%s", f)
	}
	if len(outs) != 1 {
		for _, o := range outs {
			for f := o.st.facts; f != nil; f = f.parent {
				fmt.Println("OUT", o.panic, clip(f.t.String(), 300))
			}
		}
		return s.say("analysis", "%d outcomes", len(outs))
	}
	if outs[0].panic && r.exit == 0 {
		return s.say("panic", "it panics")
	}
	return true
}

func (r *bindRun) say(rule, f string, a ...interface{}) bool {
	return r.ethRun.sampleRun.say(rule, f, a...)
}

// written is the code that was generated, and nothing else was
func (r *bindRun) written(file string) (string, bool) {
	if r.exit != 0 {
		return "", r.say("value", "it fails")
	}
	c := cCat(r.out...)
	if file != "" {
		if b, ok := constBytes(c); !ok || len(b) > 0 {
			return "", r.say("value", "the code is printed")
		}
		if len(r.wrote) != 1 || r.wrote[file] == nil {
			return "", r.say("value", "the file is not written")
		}
		c = r.wrote[file]
	} else if len(r.wrote) > 0 {
		return "", r.say("value", "a file is written")
	}
	b, ok := longBytes(c)
	if !ok {
		return "", r.say("analysis", "what is written is not known")
	}
	return string(b), true
}

// ---- what is generated ----

type bindImporter struct{ w *World }

func (i bindImporter) Import(path string) (*types.Package, error) {
	for _, p := range i.w.prog.AllPackages() {
		if p.Pkg.Path() == path {
			return p.Pkg, nil
		}
	}
	return nil, fmt.Errorf("no package %s", path)
}

// build type-checks code and builds its SSA
func (r *bindRun) build(src, name string) *ssa.Package {
	s := r.ethRun.sampleRun
	w := s.c.w
	f, err := goparser.ParseFile(w.prog.Fset, "generated.go", src, goparser.SkipObjectResolution)
	if err != nil {
		r.say("compile", "what is generated is not Go: %s", err)
		return nil
	}
	// as imports.Process does
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if e, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := e.X.(*ast.Ident); ok {
				used[id.Name] = true
			}
		}
		return true
	})
	have := map[string]bool{}
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		n := p[strings.LastIndex(p, "/")+1:]
		if i.Name != nil {
			n = i.Name.Name
		}
		have[n] = true
	}
	if used["seth"] && !have["seth"] {
		spec := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(modPath), ValuePos: f.Name.End()}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, TokPos: f.Name.End(), Specs: []ast.Spec{spec}}}, f.Decls...)
		f.Imports = append(f.Imports, spec)
	}
	if f.Name.Name != name {
		r.say("value", "the package is %s, not %s", f.Name.Name, name)
		return nil
	}
	var errs []string
	conf := types.Config{Importer: bindImporter{w}, Error: func(err error) {
		if !strings.Contains(err.Error(), "imported and not used") {
			errs = append(errs, err.Error())
		}
	}}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
	r.made++
	pkg, _ := conf.Check(fmt.Sprintf("%s/generated%d", modPath, r.made), w.prog.Fset, []*ast.File{f}, info)
	if len(errs) > 0 {
		r.say("compile", "what is generated does not compile: %s", strings.Join(errs, "; "))
		return nil
	}
	p := w.prog.CreatePackage(pkg, []*ast.File{f}, info, false)
	p.Build()
	return p
}

// the types that the encoder takes for a type of an argument
func bindArg(t string) []string {
	switch {
	case t == "bool" || strings.HasPrefix(t, "uint") && !strings.HasSuffix(t, "]") || strings.HasPrefix(t, "int") && !strings.HasSuffix(t, "]"):
		return []string{"seth.Int"}
	case t == "address":
		return []string{"seth.Address"}
	case t == "bytes" || t == "string":
		return []string{"seth.Bytes"}
	case t == "address[]":
		return []string{"seth.AddrSlice"}
	case t == "uint256[]":
		return []string{"seth.IntSlice"}
	case t == "bytes32[]":
		return []string{"seth.DataSlice"}
	}
	return []string{"seth.Data"} // bytes1 to bytes32
}

// the types that hold any result of a type
func bindRet(t string) []string {
	for _, k := range []string{"uint", "int"} {
		if n, err := strconv.Atoi(strings.TrimPrefix(t, k)); err == nil && strings.HasPrefix(t, k) {
			var out []string
			for _, w := range []int{8, 16, 32, 64} {
				if w >= n {
					out = append(out, fmt.Sprint(k, w))
				}
			}
			if n > 64 && k == "int" {
				return nil
			}
			if k == "uint" {
				out = append(out, "seth.Int", "big.Int")
			}
			return out
		}
	}
	switch t {
	case "bool", "string":
		return []string{t}
	case "bytes":
		return []string{"[]byte", "[]uint8", "seth.Bytes"}
	case "address":
		return []string{"seth.Address"}
	case "address[]":
		return []string{"seth.AddrSlice"}
	case "uint256[]":
		return []string{"seth.IntSlice"}
	case "bytes32[]":
		return []string{"seth.DataSlice"}
	}
	return []string{"seth.Data"}
}

func goName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// verify compares what was generated with the contracts
func (r *bindRun) verify(src, pkg string, bin bool, cs []bcontract) bool {
	s := r.ethRun.sampleRun
	x := s.x
	p := r.build(src, pkg)
	if p == nil {
		return false
	}
	s.c.w.pkgs["generated"] = p
	defer delete(s.c.w.pkgs, "generated")
	base, ok := s.initPackage(s.base, "generated")
	if !ok {
		return false
	}
	decl := map[string]bool{"init": true, "init$guard": true}
	for _, c := range cs {
		decl[c.name], decl["New"+c.name] = true, true
		what := r.what()
		if v := p.Var(c.name + "Code"); bin != (v != nil) {
			return r.say("value", "contract %s: the code is declared: %v", c.name, v != nil)
		} else if bin {
			decl[c.name+"Code"] = true
			b, ok := constBytes(x.content(base, x.load(base, s.c.w.global(v), deref(v.Type()))))
			if !ok || string(b) != string(c.code) {
				return r.say("value", "contract %s: the code is another", c.name)
			}
			s.n++
		}
		tn := p.Type(c.name)
		mk := p.Func("New" + c.name)
		if tn == nil || mk == nil {
			return r.say("value", "contract %s has no type and constructor", c.name)
		}
		T := tn.Type()
		sg := mk.Signature
		if sg.Params().Len() != 2 || goName(sg.Params().At(0).Type()) != "*seth.Address" || goName(sg.Params().At(1).Type()) != "*seth.Sender" || sg.Results().Len() != 1 || !types.Identical(sg.Results().At(0).Type(), types.NewPointer(T)) {
			return r.say("value", "the constructor of contract %s is a %s", c.name, goName(sg))
		}
		st := base.clone()
		addr := x.newAlloc("addr", s.c.typ("", "Address"))
		sender := x.newAlloc("sender", s.c.typ("", "Sender"))
		x.store(st, addr, r.opaque("address", deref(addr.typ)), deref(addr.typ))
		r.setWhat(what + ", constructor of " + c.name)
		s2, rets, ok := s.call(st, mk, addr, sender)
		if !ok {
			return false
		}
		z := rets[0]
		ms := types.NewMethodSet(types.NewPointer(T))
		left := map[string]bool{}
		for i := 0; i < ms.Len(); i++ {
			left[ms.At(i).Obj().Name()] = true
		}
		for _, f := range c.fns {
			if f.typ != "function" || f.konst && len(f.out) == 0 {
				continue
			}
			r.setWhat(fmt.Sprintf("%s, method for %s(%s) (%s)", what, f.name, strings.Join(f.in, ","), strings.Join(f.out, ",")))
			n := strings.ToUpper(f.name[:1]) + f.name[1:]
			sel := ms.Lookup(p.Pkg, n)
			if sel == nil {
				return r.say("value", "there is no method %s", n)
			}
			delete(left, n)
			for _, fails := range []bool{false, true} {
				r.fails = fails
				if !r.method(s2, s.c.w.prog.MethodValue(sel), z, addr, sender, f) {
					return false
				}
				s.n++
			}
			r.fails = false
		}
		r.setWhat(what)
		for n := range left {
			return r.say("value", "contract %s has a method %s", c.name, n)
		}
	}
	var more []string
	for n := range p.Members {
		if !decl[n] {
			more = append(more, n)
		}
	}
	sort.Strings(more)
	for _, n := range more {
		// helpers, but no other contracts
		if t, ok := p.Members[n].(*ssa.Type); ok && token.IsExported(n) {
			return r.say("value", "there is a type %s", t.Name())
		}
		if strings.HasSuffix(n, "Code") {
			return r.say("value", "there is a variable %s", n)
		}
	}
	return true
}

func (r *bindRun) what() string     { return r.ethRun.sampleRun.what }
func (r *bindRun) setWhat(w string) { r.ethRun.sampleRun.what = w }

func isOneOf(s string, l []string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return l == nil
}

// method: what one does
func (r *bindRun) method(st *State, fn *ssa.Function, z, addr, sender *T, f bfunc) bool {
	s := r.ethRun.sampleRun
	x := s.x
	sg := fn.Signature
	if sg.Params().Len() != len(f.in) || sg.Variadic() {
		return r.say("value", "it takes %d arguments", sg.Params().Len())
	}
	st = st.clone()
	args := []*T{z}
	var want []*T
	for i := range f.in {
		t := sg.Params().At(i).Type()
		et, ptr := t, false
		if d := deref(t); d != nil && t != d {
			et, ptr = d, true
		}
		if !isOneOf(goName(et), bindArg(f.in[i])) {
			return r.say("type", "argument %d, a %s, is of type %s", i, f.in[i], goName(t))
		}
		v := r.opaque(fmt.Sprint("arg", i), et)
		want = append(want, v)
		if !ptr {
			args = append(args, v)
			continue
		}
		p := x.newAlloc(fmt.Sprint("arg", i), et)
		x.store(st, p, v, et)
		args = append(args, p)
	}
	res := sg.Results()
	k := 1
	if f.konst {
		k = len(f.out)
	}
	if res.Len() != k+1 || !types.Identical(res.At(k).Type(), errorT) {
		return r.say("value", "it returns %s", goName(res))
	}
	r.sent = nil
	_, rets, ok := s.call(st, fn, args...)
	if !ok {
		return false
	}
	if len(r.sent) != 1 {
		return r.say("value", "it makes %d requests", len(r.sent))
	}
	q := r.sent[0]
	kind := "Send"
	if f.konst {
		kind = "ConstCall"
	}
	if q.kind != kind {
		return r.say("value", "it makes a %s", q.kind)
	}
	if q.recv != sender {
		return r.say("value", "it does not use the sender")
	}
	if x.load(q.st, q.addr, deref(addr.typ)) != x.load(st, addr, deref(addr.typ)) {
		return r.say("value", "the request does not go to the contract")
	}
	if w := f.name + "(" + strings.Join(f.in, ",") + ")"; q.sig != w {
		return r.say("value", "it calls %q", q.sig)
	}
	if len(q.args) != len(want) {
		return r.say("value", "%d arguments are passed", len(q.args))
	}
	for i, a := range q.args {
		if a.op != "iface" {
			return r.say("value", "argument %d is nil", i)
		}
		t := deref(a.obj.(types.Type))
		if t == nil || !types.Identical(t, want[i].typ) || !r.equal(q.st, x.load(q.st, a.args[0], t), want[i], t) {
			return r.say("value", "argument %d is passed as something else", i)
		}
	}
	failed := !rets[k].isNil()
	if failed != r.fails {
		return r.say("value", "an error of the request is not returned")
	}
	if r.fails {
		return true
	}
	if !f.konst {
		if goName(res.At(0).Type()) != "seth.Hash" || rets[0] != mk("sym", "hash", rets[0].typ) && !(rets[0].op == "sym" && rets[0].aux == "hash") {
			return r.say("value", "the hash is not returned")
		}
		return true
	}
	if len(r.outs) != len(f.out) {
		return r.say("value", "the answer is decoded into %d values", len(r.outs))
	}
	for i := range f.out {
		if !isOneOf(goName(res.At(i).Type()), bindRet(f.out[i])) {
			return r.say("type", "result %d, a %s, is of type %s", i, f.out[i], goName(res.At(i).Type()))
		}
		if !r.equal(st, rets[i], r.outs[i], res.At(i).Type()) {
			return r.say("value", "result %d is something else", i)
		}
	}
	return true
}

func (r *bindRun) equal(st *State, a, b *T, t types.Type) bool {
	return a == b || a.typ != nil && b.typ != nil && a.String() == b.String()
}

// ---- the rules ----

var bindTypes = []string{"bool", "uint8", "uint16", "uint32", "uint64", "uint128", "uint256", "int8", "int16", "int32", "int64", "int128", "int256",
	"address", "bytes32", "bytes4", "bytes20", "string", "bytes", "address[]", "uint256[]", "bytes32[]"}

func (r *bindRun) contracts() bool {
	s := r.ethRun.sampleRun
	all := bcontract{name: "Everything", code: []byte{0x60, 0x80, 0x00, 0x01, 0xff, '"', '%', 0x0a}}
	for i, t := range bindTypes {
		n := len(bindTypes)
		u, v := bindTypes[(i+7)%n], bindTypes[(i+12)%n]
		all.fns = append(all.fns,
			bfunc{name: fmt.Sprint("in", i), typ: "function", in: []string{t}},
			bfunc{name: fmt.Sprint("outReturned", i), typ: "function", in: []string{t}, out: []string{u}},
			bfunc{name: fmt.Sprint("get", i), typ: "function", konst: true, out: []string{t}},
			bfunc{name: fmt.Sprint("arg0get", i), typ: "function", konst: true, in: []string{t}, out: []string{u}},
			bfunc{name: fmt.Sprint("Many", i), typ: "function", konst: true, in: []string{t, u, v, t}, out: []string{u, t, t, v, u}},
			bfunc{name: fmt.Sprint("err", i), typ: "function", in: []string{v, t, u, "address", "uint256", "bool", t, t, t, t, u}, out: []string{t}},
		)
	}
	token := bcontract{name: "token", code: []byte{}, fns: []bfunc{
		{typ: "constructor", in: []string{"uint256"}},
		{typ: "fallback"},
		{name: "Transfer", typ: "event", in: []string{"address", "address", "uint256"}},
		{name: "transfer", typ: "function", in: []string{"address", "uint256"}, out: []string{"bool"}},
		{name: "balanceOf", typ: "function", konst: true, in: []string{"address"}, out: []string{"uint256"}},
		{name: "stop", typ: "function"},
		{name: "check", typ: "function", konst: true, in: []string{"bool"}},
		{name: "x", typ: "function", konst: true, out: []string{"bool"}},
		{name: "addr", typ: "function", konst: true, out: []string{"address"}},
		{name: "two_words", typ: "function", konst: true, out: []string{"string"}},
		{name: "z", typ: "function", konst: true, in: []string{"address"}, out: []string{"string", "bytes"}},
		{name: "d", typ: "function", in: []string{"address"}},
		{name: "s", typ: "function", in: []string{"address"}},
		{name: "string", typ: "function", konst: true, out: []string{"string"}},
		{name: "func", typ: "function", in: []string{"string"}},
	}}
	// an upgrade: names that begin alike
	empty := bcontract{name: "Empty", code: []byte{0}}
	empty2 := bcontract{name: "Empty2", code: []byte{1, 2}, fns: []bfunc{{name: "stop", typ: "function"}}}
	r.files["a.sol"], r.files["b/c.sol"] = symsOf("a", 6), symsOf("c", 9)
	cs := []bcontract{empty2, all, token, empty}
	cases := []struct {
		what string
		env  string
		args []string
		file string
		pkg  string
		bin  bool
		srcs []string
		want []bcontract
	}{
		{"all types", "", []string{"-c", "Everything", "-p", "abc", "a.sol"}, "", "abc", false, []string{"a.sol"}, []bcontract{all}},
		{"all types, with code, in a file", "", []string{"-b", "-o", "x/out.go", "-p=abc", "-c=Everything", "a.sol", "b/c.sol"}, "x/out.go", "abc", true, []string{"a.sol", "b/c.sol"}, []bcontract{all}},
		{"a token, package by the environment", "envpkg", []string{"-c=token", "b/c.sol", "a.sol"}, "", "envpkg", false, []string{"b/c.sol", "a.sol"}, []bcontract{token}},
		{"a token, package by both", "envpkg", []string{"-c=token", "-p", "mine", "b/c.sol", "a.sol"}, "", "mine", false, []string{"b/c.sol", "a.sol"}, []bcontract{token}},
		{"several contracts", "p", []string{"-b", "-c=token,Empty,Empty2", "-o", "out.go", "a.sol"}, "out.go", "p", true, []string{"a.sol"}, []bcontract{token, empty, empty2}},
		{"contracts with similar names", "p", []string{"-c=Empty2,Empty", "a.sol"}, "", "p", false, []string{"a.sol"}, []bcontract{empty2, empty}},
		{"one with a similar name", "p", []string{"-c=Empty", "a.sol"}, "", "p", false, []string{"a.sol"}, []bcontract{empty}},
	}
	for _, k := range cases {
		s.what = "bindgen of " + k.what
		r.env["GOPACKAGE"] = k.env
		if !r.generate(cs, k.args...) {
			return false
		}
		src, ok := r.written(k.file)
		if !ok {
			return false
		}
		if !r.compiledFrom(k.srcs) {
			return false
		}
		if !r.verify(src, k.pkg, k.bin, k.want) {
			return false
		}
		s.n++
	}
	return true
}

// compiledFrom: the compiler was asked about these files
func (r *bindRun) compiledFrom(names []string) bool {
	if len(r.asked) != len(names) {
		return r.say("value", "%d files are compiled", len(r.asked))
	}
	for i, n := range names {
		found := false
		for _, a := range r.asked {
			if a.name == n && a.body == r.files[n] {
				found = true
			}
		}
		if !found {
			return r.say("value", "file %d is not compiled as it is", i)
		}
	}
	return true
}

// trouble: it ends with a failure, and nothing is written
func (r *bindRun) trouble() bool {
	s := r.ethRun.sampleRun
	cs := []bcontract{{name: "A", code: []byte{1}, fns: []bfunc{{name: "f", typ: "function"}}}, {name: "B", code: []byte{1}}}
	odd := []bcontract{{name: "A", code: []byte{1}, fns: []bfunc{{name: "f$g", typ: "function"}}}}
	r.env["GOPACKAGE"] = "p"
	cases := []struct {
		what string
		args []string
		set  *bool
		cs   []bcontract
		// the output may have been opened
		late bool
	}{
		{"no files", []string{"-c", "A"}, nil, cs, false},
		{"no arguments", nil, nil, cs, false},
		{"no contract named", []string{"a.sol"}, nil, cs, false},
		{"an unknown contract", []string{"-c=C", "-o", "out.go", "a.sol"}, nil, cs, false},
		{"a contract named by another case", []string{"-c=a", "-o", "out.go", "a.sol"}, nil, cs, false},
		{"an unknown contract after another", []string{"-c=A,C", "-o", "out.go", "a.sol"}, nil, cs, false},
		{"an unknown contract before another", []string{"-c=C,A", "a.sol"}, nil, cs, false},
		{"a file that cannot be read", []string{"-c=A", "-o", "out.go", "missing.sol"}, nil, cs, false},
		{"a second file that cannot be read", []string{"-c=A", "a.sol", "missing.sol"}, nil, cs, false},
		{"an unknown flag", []string{"-q", "-c=A", "a.sol"}, nil, cs, false},
		{"a compiler that fails", []string{"-c=A", "-o", "out.go", "a.sol"}, &r.badComp, cs, false},
		{"a compiler that fails, printing", []string{"-c=A", "a.sol"}, &r.badComp, cs, false},
		{"code that is not Go", []string{"-c=A", "-o", "out.go", "a.sol"}, &r.badImp, cs, false},
		{"a name that is not one in Go", []string{"-c=A", "-o", "out.go", "a.sol"}, nil, odd, false},
		{"an output that cannot be opened", []string{"-c=A", "-o", "out.go", "a.sol"}, &r.noCreate, cs, false},
		{"an output that cannot be written", []string{"-c=A", "-o", "out.go", "a.sol"}, &r.badWrite, cs, true},
		{"a standard output that cannot be written", []string{"-c=A", "a.sol"}, &r.badWrite, cs, false},
	}
	for _, k := range cases {
		s.what = "bindgen with " + k.what
		if k.set != nil {
			*k.set = true
		}
		ok := r.generate(k.cs, k.args...)
		if k.set != nil {
			*k.set = false
		}
		if !ok {
			return false
		}
		if r.exit == 0 {
			return r.say("value", "it does not fail")
		}
		if b, ok := constBytes(cCat(r.out...)); !ok || len(b) > 0 {
			return r.say("value", "something is printed")
		}
		if len(r.wrote) > 0 && !k.late {
			return r.say("value", "a file is written")
		}
		s.n++
	}
	return true
}

// longBytes is a known content of any length
func longBytes(c *T) ([]byte, bool) {
	var out []byte
	for _, p := range segs(c) {
		b, ok := constBytes(p)
		if !ok {
			return nil, false
		}
		out = append(out, b...)
	}
	return out, true
}
