package main

// Calls: inlining of module functions, builtins, opaque callees.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) callee(f *fst, c *ssa.CallCommon) (fnv *T, args []*T) {
	fnv = x.eval(f, c.Value)
	for _, a := range c.Args {
		args = append(args, x.eval(f, a))
	}
	return
}

func calleeName(c *ssa.CallCommon, fnv *T) string {
	if c.IsInvoke() {
		return short(c.Method.FullName())
	}
	if fnv != nil && (fnv.op == "func" || fnv.op == "closure") {
		return fnName(fnv.obj.(*ssa.Function))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return "dynamic"
}

func (x *Exec) call(fr *frame, f *fst, ins *ssa.Call) []outcome {
	fnv, args := x.callee(f, &ins.Call)
	return x.apply(fr, f, &ins.Call, fnv, args, ins.Pos(), false)
}

func (x *Exec) apply(fr *frame, f *fst, c *ssa.CallCommon, fnv *T, args []*T, pos token.Pos, isDefer bool) []outcome {
	if fnv.op == "ite" && !c.IsInvoke() {
		a, b := x.split(f, fnv.args[0])
		var out []outcome
		if a != nil {
			out = append(out, x.apply(fr, a, c, fnv.args[1], args, pos, isDefer)...)
		}
		if b != nil {
			out = append(out, x.apply(fr, b, c, fnv.args[2], args, pos, isDefer)...)
		}
		return out
	}
	st := f.st
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, f, b, c, args, pos)
	}
	var binds []*T
	var fn *ssa.Function
	name := calleeName(c, fnv)
	sig := c.Signature()
	if c.IsInvoke() {
		if fnv.op == "iface" {
			dt := fnv.obj.(types.Type)
			fn = x.w.prog.LookupMethod(dt, c.Method.Pkg(), c.Method.Name())
			if fn == nil {
				x.fail("method %s not found on %s", c.Method.Name(), dt)
				return nil
			}
			args = append([]*T{fnv.args[0]}, args...)
			name = fnName(fn)
		} else {
			args = append([]*T{fnv}, args...)
		}
	} else if fnv.op == "func" {
		fn = fnv.obj.(*ssa.Function)
	} else if fnv.op == "closure" {
		fn = fnv.obj.(*ssa.Function)
		binds = fnv.args
	} else {
		args = append([]*T{fnv}, args...)
	}
	if x.hook != nil {
		if outs, ok := x.hook(fr, st, fn, name, args, sig, pos); ok {
			return outs
		}
	}
	if fn != nil && x.inInit && fn.Name() == "init" && fn.Pkg != nil && fn.Signature.Recv() == nil && fn.Synthetic != "" {
		return []outcome{{st: st}}
	}
	if fn != nil && (x.opaque == nil || !x.opaque(fn)) {
		if m := x.foldStrings(name); m != nil {
			if outs := m(fr, st, fn, args, pos); outs != nil {
				return outs
			}
		}
		if m := x.model(fn, name); m != nil {
			return m(fr, st, fn, args, pos)
		}
		if (inRepo(fn) || fn.Synthetic != "" && fn.Pkg == nil) && len(fn.Blocks) > 0 && len(x.stack) < x.maxDepth {
			n := 0
			for _, s := range x.stack {
				if s == fn {
					n++
				}
			}
			if n <= x.recLimit {
				return x.runFunc(fn, args, binds, st)
			}
		}
	} else if fn == nil && c.IsInvoke() {
		if m := x.model(nil, name); m != nil {
			return m(fr, st, nil, args, pos)
		}
	}
	if x.ignore != nil && x.ignore(name) {
		return []outcome{{st: st, rets: x.freshResults(name, sig)}}
	}
	return x.opaqueCall(fr, st, fn, name, args, sig, pos)
}

func (x *Exec) freshResults(name string, sig *types.Signature) []*T {
	var rs []*T
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, x.fresh("ret."+name, sig.Results().At(i).Type()))
	}
	return rs
}

// opaqueCall records the call and forgets what the callee can reach
func (x *Exec) opaqueCall(fr *frame, st *State, fn *ssa.Function, name string, args []*T, sig *types.Signature, pos token.Pos) []outcome {
	rs := x.freshResults(name, sig)
	e := &Event{kind: "call", name: name, args: args, res: rs, pos: pos, fn: fr.fn, mem: st.mem, st: st.clone()}
	st.ev = st.ev.push(e)
	x.havoc(st, args...)
	return []outcome{{st: st, rets: rs}}
}

func one(st *State, rs ...*T) []outcome { return []outcome{{st: st, rets: rs}} }

func (x *Exec) builtin(fr *frame, f *fst, b *ssa.Builtin, c *ssa.CallCommon, args []*T, pos token.Pos) []outcome {
	st := f.st
	switch b.Name() {
	case "len":
		t := c.Args[0].Type()
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return one(st, x.sliceLen(args[0]))
		case *types.Basic:
			return one(st, strLen(args[0]))
		case *types.Array:
			return one(st, mkInt(u.Len()))
		case *types.Pointer:
			return one(st, mkInt(arrayOf(u.Elem()).Len()))
		}
		if _, ok := t.Underlying().(*types.Map); ok && x.single {
			return one(st, mkInt(int64(len(x.mapEntries(st, args[0]))/2)))
		}
		r := x.fresh("len", intT)
		st.facts = st.facts.push(leT(mkInt(0), r))
		if _, ok := t.Underlying().(*types.Map); ok {
			st.ev = st.ev.push(&Event{kind: "maplen", args: args, res: []*T{r}, pos: pos, fn: fr.fn, mem: st.mem})
		}
		return one(st, r)
	case "cap":
		if _, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			return one(st, x.parts(args[0]).cap)
		}
		r := x.fresh("cap", intT)
		st.facts = st.facts.push(leT(mkInt(0), r))
		return one(st, r)
	case "append":
		t := c.Args[0].Type()
		var add *T
		if isStringT(c.Args[1].Type()) {
			add = strContent(args[1])
		} else {
			add = x.content(st, args[1])
		}
		if n, ok := cLen(add).i64(); ok && n == 0 {
			return one(st, args[0])
		}
		r := x.appendIn(st, args[0], add, t)
		if x.onAppend != nil {
			x.onAppend(fr, st, args[0], r, pos)
		}
		return one(st, r)
	case "copy":
		dst := x.parts(args[0])
		var src *T
		if isStringT(c.Args[1].Type()) {
			src = strContent(args[1])
		} else {
			src = x.content(st, args[1])
		}
		n := cLen(src)
		put := func(g *fst, n *T) outcome {
			base := x.load(g.st, dst.base, nil)
			x.store(g.st, dst.base, cSplice(base, dst.off, cSub(src, mkInt(0), n)), nil)
			return outcome{st: g.st, rets: []*T{n}}
		}
		a, e := x.split(f, leT(n, dst.len))
		var out []outcome
		if a != nil {
			out = append(out, put(a, n))
		}
		if e != nil {
			out = append(out, put(e, dst.len))
		}
		return out
	case "delete":
		if x.single {
			x.mapDel(st, args[0], args[1], c.Args[0].Type())
			return one(st)
		}
		st.ev = st.ev.push(&Event{kind: "mapdel", args: args, pos: pos, fn: fr.fn, mem: st.mem, st: st.clone()})
		return one(st)
	case "close":
		st.ev = st.ev.push(&Event{kind: "close", args: args, pos: pos, fn: fr.fn, mem: st.mem, st: st.clone()})
		x.havocShared(st)
		return one(st)
	case "print", "println":
		return one(st)
	case "recover":
		return one(st, x.fresh("recover", nil))
	case "StringData":
		return one(st, mk("fn", "strdata", b.Type().(*types.Signature).Results().At(0).Type(), args[0]))
	case "Slice":
		if d := args[0]; d.op == "fn" && d.aux == "strdata" && args[1] == strLen(d.args[0]) {
			return one(st, x.newBytes(st, strContent(d.args[0]), types.NewSlice(byteT)))
		}
	case "ssa:wrapnilchk":
		return one(st, args[0])
	}
	x.fail("unsupported builtin %s", b.Name())
	return nil
}

// ---- helpers for models and rules ----

// deep is the value of v with everything it points to, for serialisers
func (x *Exec) deep(st *State, v *T, typ types.Type, d int) *T {
	if v == nil || d > 8 {
		return v
	}
	if v.op == "iface" {
		return mk("iface", v.aux, nil, x.deep(st, v.args[0], v.obj.(types.Type), d+1))
	}
	if typ == nil {
		return v
	}
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		if v.isNil() {
			return v
		}
		if isBig(u.Elem()) || atomicType(u.Elem()) {
			return mk("ptr", "", nil, x.load(st, v, u.Elem()))
		}
		if v.op == "alloc" || v.op == "faddr" || v.op == "sym" || v.op == "mem" || v.op == "iaddr" {
			return mk("ptr", "", nil, x.deep(st, x.load(st, v, u.Elem()), u.Elem(), d+1))
		}
	case *types.Map:
		if x.single && v.op == "mkmap" {
			es := x.mapEntries(st, v)
			var el []*T
			for i := 0; i+1 < len(es); i += 2 {
				el = append(el, es[i], x.deep(st, es[i+1], u.Elem(), d+1))
			}
			return mk("mapd", "", nil, el...)
		}
	case *types.Slice:
		if v.isNil() {
			return v
		}
		c := x.content(st, v)
		if c.op == "vec" {
			var el []*T
			for _, e := range c.args {
				el = append(el, x.deep(st, e, u.Elem(), d+1))
			}
			c = cVec(el...)
		}
		return mk("bytes", "", nil, c)
	case *types.Struct:
		if atomicType(typ) {
			return v
		}
		var fs []*T
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, x.deep(st, structField(v, typ, i), u.Field(i).Type(), d+1))
		}
		return mk("struct", typeKey(typ), typ, fs...)
	}
	return v
}

func strT() types.Type  { return types.Typ[types.String] }
func boolT() types.Type { return types.Typ[types.Bool] }

func constStr(s string) *T { return mkConst(constant.MakeString(s), strT()) }

func hasPrefixName(n string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}
