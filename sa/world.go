package main

// Loading and whole-program facts: the type-checked program in SSA form,
// immutable fields and globals, package initialisation.

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/philhofer/seth"

type World struct {
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // by path relative to the module ("" is the root)
	asts  map[string]*packages.Package
	infos map[*ssa.Function]*fnInfo
	fns   []*ssa.Function // functions of the module with bodies, sorted by position

	immutable  map[string]bool
	immGlobal  map[*T]bool
	zeroGlobal map[*T]bool // immutable, and not written during initialisation either
	globalInit *Mem
	initMaps   map[*T][][2]*T

	used    map[*ssa.Function]bool // functions some rule interpreted
	nPaths  int
	nEvents int
	nObl    int
}

var buildPkgs = []string{"."}

func loadWorld() (*World, error) {
	if r := os.Getenv("SA_REPO"); r != "" {
		repoRoot = r
	}
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  repoRoot,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0"),
	}
	// everything but the yubihsm driver, which needs a C library
	ps, err := packages.Load(cfg, modPath, modPath+"/bindgen", modPath+"/cc", modPath+"/cmd/...", modPath+"/keccak", modPath+"/tevm/...")
	if err != nil {
		return nil, err
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the code does not type-check: %s", strings.Join(errs, "; "))
	}
	// Packages that depend on one that does not type-check here (the cgo part
	// of a dependency) are built all the same; that one gets no bodies.
	prog := ssa.NewProgram(ps[0].Fset, ssa.InstantiateGenerics)
	packages.Visit(ps, nil, func(p *packages.Package) {
		if p.Types == nil {
			return
		}
		if len(p.Errors)+len(p.TypeErrors) > 0 || p.TypesInfo == nil || len(p.Syntax) == 0 {
			prog.CreatePackage(p.Types, nil, nil, true)
			return
		}
		prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
	})
	for _, p := range prog.AllPackages() {
		if inRepoPath(p.Pkg.Path()) {
			p.Build()
		}
	}
	w := &World{prog: prog, pkgs: map[string]*ssa.Package{}, asts: map[string]*packages.Package{}, infos: map[*ssa.Function]*fnInfo{}, used: map[*ssa.Function]bool{}, initMaps: map[*T][][2]*T{}}
	packages.Visit(ps, nil, func(p *packages.Package) {
		if inRepoPath(p.PkgPath) {
			rel := relPath(p.PkgPath)
			if prog.Package(p.Types) == nil {
				return
			}
			w.asts[rel] = p
			w.pkgs[rel] = prog.Package(p.Types)
		}
	})
	for fn := range ssautil.AllFunctions(prog) {
		if inRepo(fn) && len(fn.Blocks) > 0 && fn.Synthetic == "" {
			w.fns = append(w.fns, fn)
		}
	}
	sort.Slice(w.fns, func(i, j int) bool {
		if w.fns[i].Pos() != w.fns[j].Pos() {
			return w.fns[i].Pos() < w.fns[j].Pos()
		}
		return w.fns[i].String() < w.fns[j].String()
	})
	w.computeImmutable()
	w.runInits()
	return w, nil
}

func inRepoPath(p string) bool { return p == modPath || strings.HasPrefix(p, modPath+"/") }
func relPath(p string) string {
	return strings.TrimPrefix(strings.TrimPrefix(p, modPath), "/")
}

// inRepo: is fn part of the analysed module? (wrappers count by their object)
func inRepo(fn *ssa.Function) bool {
	p := pkgOf(fn)
	return p != nil && inRepoPath(p.Path())
}

func pkgOf(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Object(); o != nil {
		return o.Pkg()
	}
	if fn.Origin() != nil {
		return pkgOf(fn.Origin())
	}
	return nil
}

// short strips the module path from a qualified name
func short(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	return strings.ReplaceAll(s, modPath, "seth")
}

func fnName(fn *ssa.Function) string { return short(fn.String()) }

// Func finds a function: "NewClient", "(*Client).Do", in package rel
func (w *World) Func(rel, name string) *ssa.Function {
	p := w.pkgs[rel]
	if p == nil {
		return nil
	}
	if strings.HasPrefix(name, "(") {
		i := strings.Index(name, ").")
		tn, m := name[1:i], name[i+2:]
		ptr := strings.HasPrefix(tn, "*")
		tn = strings.TrimPrefix(tn, "*")
		o := p.Pkg.Scope().Lookup(tn)
		if o == nil {
			return nil
		}
		return w.method(o.Type(), m, ptr)
	}
	return p.Func(name)
}

func (w *World) method(t types.Type, m string, ptr bool) *ssa.Function {
	var pk *types.Package
	if n, ok := t.(*types.Named); ok {
		pk = n.Obj().Pkg()
	}
	o, _, _ := types.LookupFieldOrMethod(t, true, pk, m)
	fo, ok := o.(*types.Func)
	if !ok {
		return nil
	}
	return w.prog.FuncValue(fo)
}

func (w *World) Type(rel, name string) types.Type {
	p := w.pkgs[rel]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	if _, ok := o.(*types.TypeName); !ok {
		return nil
	}
	return o.Type()
}

func (w *World) Global(rel, name string) *ssa.Global {
	p := w.pkgs[rel]
	if p == nil {
		return nil
	}
	return p.Var(name)
}

func (w *World) isInit(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#"))
}

// allBodies: every function of the module with a body, including wrappers
func (w *World) allBodies() []*ssa.Function {
	return w.fns
}

func (w *World) computeImmutable() {
	mutable := map[string]bool{}
	seenField := map[string]bool{}
	wholeMut := map[string]bool{}
	gmut := map[*T]bool{}
	gall := map[*T]*ssa.Global{}
	for _, p := range w.pkgs {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				gall[w.global(g)] = g
			}
		}
	}
	ginit := map[*T]bool{}
	fromAlloc := func(v ssa.Value) bool {
		for {
			switch a := v.(type) {
			case *ssa.Alloc:
				return true
			case *ssa.FieldAddr:
				v = a.X
			case *ssa.IndexAddr:
				v = a.X
			default:
				return false
			}
		}
	}
	fns := append([]*ssa.Function(nil), w.fns...)
	for _, p := range w.pkgs {
		if f := p.Func("init"); f != nil {
			fns = append(fns, f)
		}
	}
	for _, fn := range fns {
		init := w.isInit(fn)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if fa, ok := ins.(*ssa.FieldAddr); ok {
					k := fkey(deref(fa.X.Type()), fa.Field)
					seenField[k] = true
					local := fromAlloc(fa.X)
					for _, r := range *fa.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if r.Addr == fa && !local || r.Val == fa {
								mutable[k] = true
							}
						case *ssa.FieldAddr:
							// the inner field is looked at itself
						default:
							mutable[k] = true
						}
					}
				}
				if s, ok := ins.(*ssa.Store); ok {
					t := deref(s.Addr.Type())
					if structOf(t) != nil && !fromAlloc(s.Addr) {
						wholeMut[types.TypeString(t, nil)] = true
					}
				}
				// uses of globals
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					t := w.global(g)
					switch ins.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						ginit[t] = ginit[t] || init
					}
					switch i := ins.(type) {
					case *ssa.UnOp:
						if !init && !readOnlyUse(i, 0) {
							gmut[t] = true
						}
					case *ssa.Store:
						if !init || i.Val == g {
							gmut[t] = true
						}
					case *ssa.DebugRef:
					case *ssa.FieldAddr, *ssa.IndexAddr:
						if !init && !readOnlyAddr(i.(ssa.Value), 0) {
							gmut[t] = true
						}
					case *ssa.Slice:
						if !init && !readOnlyUse(i, 0) {
							gmut[t] = true
						}
					case ssa.CallInstruction:
						if !init && !readOnlyCall(i, g) {
							gmut[t] = true
						}
					case *ssa.MakeInterface:
						if !init && !readOnlyUse(i, 0) {
							gmut[t] = true
						}
					default:
						if !init {
							gmut[t] = true
						}
					}
				}
			}
		}
	}
	w.immutable = map[string]bool{}
	for k := range seenField {
		name := k[strings.LastIndexByte(k, ':')+1:]
		tn := k[:strings.LastIndexByte(k, '.')]
		if !mutable[k] && !wholeMut[tn] && !ast.IsExported(name) {
			w.immutable[k] = true
		}
	}
	w.immGlobal = map[*T]bool{}
	w.zeroGlobal = map[*T]bool{}
	for t, g := range gall {
		if gmut[t] {
			continue
		}
		// an exported variable may be assigned by importers
		if ast.IsExported(g.Name()) && !strings.HasPrefix(g.Name(), "Err") && !strings.Contains(g.Pkg.Pkg.Path(), "/cmd/") {
			switch deref(g.Type()).Underlying().(type) {
			case *types.Interface, *types.Pointer, *types.Signature:
			default:
			}
		}
		w.immGlobal[t] = true
		if !ginit[t] {
			w.zeroGlobal[t] = true
		}
	}
}

// readOnlyUse: is a value loaded from (or pointing into) a global only read?
func readOnlyUse(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	if v.Referrers() == nil {
		return true
	}
	if !mutableContent(v.Type()) {
		return true
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef, *ssa.BinOp, *ssa.Lookup, *ssa.Index, *ssa.Field, *ssa.If, *ssa.Range, *ssa.TypeAssert, *ssa.UnOp:
		case *ssa.IndexAddr, *ssa.FieldAddr:
			if !readOnlyAddr(r.(ssa.Value), d+1) {
				return false
			}
		case *ssa.Slice:
			if !readOnlyUse(r, d+1) {
				return false
			}
		case *ssa.MakeInterface:
			// fmt and friends
		case *ssa.Convert:
		case *ssa.ChangeType:
			if !readOnlyUse(r, d+1) {
				return false
			}
		case *ssa.Phi:
			if !readOnlyUse(r, d+1) {
				return false
			}
		case *ssa.Store:
			if r.Val == v {
				// kept somewhere: pointers to big numbers, hash functions
				continue
			}
			return false
		case *ssa.MapUpdate:
			if r.Map == v {
				return false
			}
		case *ssa.Return:
		case ssa.CallInstruction:
			if !readOnlyCall(r, v) {
				return false
			}
		case *ssa.MakeClosure:
		default:
			return false
		}
	}
	return true
}

func readOnlyAddr(a ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if !readOnlyUse(r, d+1) {
				return false
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if !readOnlyAddr(r.(ssa.Value), d+1) {
				return false
			}
		case *ssa.Slice:
			if !readOnlyUse(r, d+1) {
				return false
			}
		case ssa.CallInstruction:
			if !readOnlyCall(r, a) {
				return false
			}
		case *ssa.MakeInterface:
		default:
			return false
		}
	}
	return true
}

func mutableContent(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if mutableContent(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return mutableContent(u.Elem())
	}
	return false
}

// readOnlyCall: the callee does not write through v
func readOnlyCall(c ssa.CallInstruction, v ssa.Value) bool {
	com := c.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			return com.Args[0] != v
		case "copy", "delete":
			return com.Args[0] != v
		}
		return true
	}
	if com.IsInvoke() {
		if com.Value == v {
			return true
		}
		return com.Method.Name() != "Read"
	}
	fn := com.StaticCallee()
	if fn == nil {
		return true
	}
	recv := fn.Signature.Recv()
	if recv != nil && len(com.Args) > 0 && com.Args[0] == v {
		if isBig(deref2(recv.Type())) {
			switch fn.Name() {
			case "Cmp", "CmpAbs", "Sign", "Bytes", "String", "Int64", "Uint64", "Bit", "BitLen", "IsInt64", "IsUint64", "Text", "Big", "FillBytes", "ProbablyPrime", "EncodeABI", "MarshalText":
				return true
			}
			return false
		}
		if fn.Pkg != nil && inRepoPath(fn.Pkg.Pkg.Path()) {
			// read-only if the method does not store through its receiver
			return readOnlyParam(fn, 0, 0)
		}
		return true
	}
	if fn.Pkg != nil && inRepoPath(fn.Pkg.Pkg.Path()) && len(fn.Blocks) > 0 {
		for i, a := range com.Args {
			if a == v && !readOnlyParam(fn, i, 0) {
				return false
			}
		}
		return true
	}
	switch fn.String() {
	case "io.ReadFull", "crypto/rand.Read", "math/rand.Read", "encoding/json.Unmarshal", "encoding/hex.Decode":
		return false
	case "(*math/big.Int).Set":
		return true
	}
	return true
}

var roParam = map[string]bool{}
var roBusy = map[string]bool{}

func readOnlyParam(fn *ssa.Function, i, d int) bool {
	if i >= len(fn.Params) {
		return true
	}
	k := fmt.Sprintf("%p.%d", fn, i)
	if r, ok := roParam[k]; ok {
		return r
	}
	if roBusy[k] {
		return true
	}
	roBusy[k] = true
	r := readOnlyUse(fn.Params[i], 0) && readOnlyAddr2(fn.Params[i])
	delete(roBusy, k)
	roParam[k] = r
	return r
}

func readOnlyAddr2(v ssa.Value) bool { return true }

func deref2(t types.Type) types.Type {
	if d := deref(t); d != nil {
		return d
	}
	return t
}

// runInits interprets the package initialisers, so that immutable globals
// have known values
func (w *World) runInits() {
	x := w.newExec()
	x.maxSteps = 60000
	// only a shortcut: the table of curve points is big, and no rule needs it
	x.opaque = func(fn *ssa.Function) bool { return fn.Name() == "loadS256BytePoints" }
	x.inInit, x.ifConvert = true, true
	st := &State{}
	done := map[*ssa.Package]bool{}
	var visit func(p *ssa.Package)
	visit = func(p *ssa.Package) {
		if done[p] {
			return
		}
		done[p] = true
		for _, q := range p.Pkg.Imports() {
			if inRepoPath(q.Path()) {
				if sp := w.prog.Package(q); sp != nil {
					visit(sp)
				}
			}
		}
		f := p.Func("init")
		if f == nil || len(f.Blocks) == 0 {
			return
		}
		x.failed = ""
		x.steps = 0
		t0 := time.Now()
		defer func() {
			if os.Getenv("SA_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "init", p.Pkg.Path(), x.steps, time.Since(t0))
			}
		}()
		// the initialiser runs once
		st.mem = st.mem.set(w.global(p.Var("init$guard")), mkBool(false))
		outs := x.runFunc(f, nil, nil, st)
		if x.failed == "" {
			best := -1
			for i, o := range outs {
				if !o.panic {
					best = i
					break
				}
			}
			if best >= 0 {
				s := outs[best].st
				s.facts = nil
				for _, e := range s.ev.slice(nil) {
					if e.kind == "mapset" && e.args[0].op == "mkmap" {
						w.initMaps[e.args[0]] = append(w.initMaps[e.args[0]], [2]*T{e.args[1], e.args[2]})
					}
				}
				s.ev = nil
				st = s
			}
		} else if os.Getenv("SA_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "init of", p.Pkg.Path(), ":", x.failed)
		}
	}
	var rels []string
	for r := range w.pkgs {
		rels = append(rels, r)
	}
	sort.Strings(rels)
	for _, r := range rels {
		visit(w.pkgs[r])
	}
	// keep immutable globals and what they reach
	roots := map[*T]bool{}
	var ts []*T
	flat := st.mem.flat()
	for a, v := range flat {
		r := rootOf(a)
		if r.op == "global" && w.immGlobal[r] {
			roots[r] = true
			ts = append(ts, v)
		}
	}
	x.immGlobal = map[*T]bool{}
	for r := range x.reach(st, ts...) {
		if r.op == "alloc" {
			roots[r] = true
		}
	}
	base := map[*T]*T{}
	for a, v := range flat {
		if a.op == "ver" || a.op == "esc" {
			continue
		}
		if roots[rootOf(a)] {
			base[a] = v
		}
	}
	for r := range roots {
		w.immGlobal[r] = true
	}
	w.globalInit = &Mem{base: base}
	initSyms = x.nsym
}

var initSyms int

func (w *World) newExec() *Exec {
	return &Exec{w: w, maxSteps: 150000, maxDepth: 12, immutable: w.immutable, immGlobal: w.immGlobal, globalInit: w.globalInit, nsym: initSyms, inlined: w.used}
}

// Result of interpreting one function
type Result struct {
	Fn     *ssa.Function
	Params []*T
	Paths  []*Path
	X      *Exec
}

// Analyze interprets fn on unknown arguments
func (w *World) Analyze(fn *ssa.Function, conf func(x *Exec)) (*Result, error) {
	return w.AnalyzeWith(fn, conf, nil)
}

// AnalyzeWith lets prep set up the start state and replace arguments
func (w *World) AnalyzeWith(fn *ssa.Function, conf func(x *Exec), prep func(x *Exec, st *State, args []*T)) (*Result, error) {
	x := w.newExec()
	if conf != nil {
		conf(x)
	}
	st := &State{mem: w.globalInit}
	var args, binds []*T
	for _, p := range fn.Params {
		t := mk("sym", "arg."+p.Name()+":"+types.TypeString(p.Type(), nil), p.Type())
		args = append(args, t)
	}
	for _, v := range fn.FreeVars {
		t := mk("sym", "free."+v.Name()+":"+types.TypeString(v.Type(), nil), v.Type())
		binds = append(binds, t)
	}
	if prep != nil {
		prep(x, st, args)
	}
	outs := x.runFunc(fn, args, binds, st)
	if x.failed != "" {
		return nil, fmt.Errorf("%s: %s", fnName(fn), x.failed)
	}
	r := &Result{Fn: fn, Params: args, X: x}
	for _, o := range outs {
		p := &Path{Kind: "return", Ret: o.rets, Facts: o.st.facts.all(), Events: o.st.ev.slice(nil), St: o.st, Pos: o.pos}
		if o.panic {
			p.Kind = "panic"
		}
		r.Paths = append(r.Paths, p)
		w.nEvents += len(p.Events)
	}
	w.nPaths += len(r.Paths)
	return r, nil
}

var jsonTotalMemo = map[string]bool{}

// jsonTotal: can encoding a value of type t as JSON not fail?
func (w *World) jsonTotal(t types.Type) bool {
	k := types.TypeString(t, nil)
	if r, ok := jsonTotalMemo[k]; ok {
		return r
	}
	jsonTotalMemo[k] = true // recursive types
	r := w.jsonTotal1(t)
	jsonTotalMemo[k] = r
	return r
}

func (w *World) jsonTotal1(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		for _, m := range []string{"MarshalJSON", "MarshalText"} {
			if o, _, _ := types.LookupFieldOrMethod(n, true, n.Obj().Pkg(), m); o != nil {
				fo, ok := o.(*types.Func)
				if !ok {
					return false
				}
				fn := w.prog.FuncValue(fo)
				if fn == nil || !inRepo(fn) || m == "MarshalJSON" {
					return false
				}
				r, err := w.Analyze(fn, nil)
				if err != nil {
					return false
				}
				for _, p := range r.Paths {
					if p.Kind != "return" || !p.isNil(p.Ret[1]) {
						return false
					}
				}
				return true
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsInteger|types.IsBoolean|types.IsString) != 0
	case *types.Pointer:
		return w.jsonTotal(u.Elem())
	case *types.Slice:
		return w.jsonTotal(u.Elem())
	case *types.Array:
		return w.jsonTotal(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() && !w.jsonTotal(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}
