package main

// Histories of the test chain: mining, sealing, copies and RPC queries,
// with the virtual machine replaced by scripted outcomes.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- values as messages ----

// encoded is the content a serialiser makes of a value; the value can be
// had back from it
func (h *hist) encoded(st *State, v *T, typ types.Type, how string) *T {
	d := h.x.deep(st, v, typ, 0)
	if how == "json" {
		d = h.exported(d, typ)
	}
	t := mk("fn", how, nil, d, mkStr(types.TypeString(typ, nil)))
	h.types[types.TypeString(typ, nil)] = typ
	return t
}

// exported drops what encoding/json does not encode
func (h *hist) exported(v *T, typ types.Type) *T {
	for _, t := range []types.Type{typ, types.NewPointer(typ)} {
		for _, m := range []string{"MarshalJSON", "MarshalText"} {
			if types.NewMethodSet(t).Lookup(nil, m) != nil {
				return v
			}
		}
	}
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		if v.op == "ptr" {
			return mk("ptr", "", nil, h.exported(v.args[0], u.Elem()))
		}
	case *types.Slice:
		if v.op == "bytes" && v.args[0].op == "vec" {
			if _, ok := u.Elem().Underlying().(*types.Basic); ok {
				return v
			}
			var el []*T
			for _, e := range v.args[0].args {
				el = append(el, h.exported(e, u.Elem()))
			}
			return mk("bytes", "", nil, cVec(el...))
		}
	case *types.Struct:
		if v.op == "struct" && !atomicType(typ) {
			var fs []*T
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				emb := structOf(f.Type())
				if jsonName(u, i) == "-" || !f.Exported() && !(f.Anonymous() && emb != nil) {
					fs = append(fs, zeroOf(f.Type()))
				} else {
					fs = append(fs, h.exported(v.args[i], f.Type()))
				}
			}
			return mk("struct", v.aux, v.typ, fs...)
		}
	}
	return v
}

// decoded is the value in an encoded content
func (h *hist) decoded(st *State, c *T) (*T, types.Type, bool) {
	if c.op == "sub" && c.args[0].op == "fn" {
		c = c.args[0]
	}
	if c.op != "fn" || len(c.args) != 2 {
		return nil, nil, false
	}
	s, ok := c.args[1].str()
	if !ok || h.types[s] == nil {
		return nil, nil, false
	}
	return h.undeep(st, c.args[0], h.types[s]), h.types[s], true
}

// undeep rebuilds in memory what deep took apart
func (h *hist) undeep(st *State, v *T, typ types.Type) *T {
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		if v.op == "ptr" {
			a := h.x.newAlloc("decoded", u.Elem())
			h.x.store(st, a, h.undeep(st, v.args[0], u.Elem()), u.Elem())
			return a
		}
	case *types.Map:
		if v.op == "mapd" {
			h.x.nsym++
			m := mk("mkmap", fmt.Sprintf("%d", h.x.nsym), typ)
			for i := 0; i+1 < len(v.args); i += 2 {
				h.x.mapPut(st, m, v.args[i], h.undeep(st, v.args[i+1], u.Elem()), typ)
			}
			return m
		}
	case *types.Slice:
		if v.op == "bytes" {
			c := v.args[0]
			if c.op == "vec" {
				var el []*T
				for _, e := range c.args {
					el = append(el, h.undeep(st, e, u.Elem()))
				}
				c = cVec(el...)
			}
			return h.x.newBytes(st, c, typ)
		}
	case *types.Struct:
		if v.op == "struct" && !atomicType(typ) {
			var fs []*T
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, h.undeep(st, v.args[i], u.Field(i).Type()))
			}
			return mk("struct", typeKey(typ), typ, fs...)
		}
	}
	return v
}

// ---- the chain ----

type vmCall struct {
	kind                string // Call, Create, StaticCall
	caller, to          *T
	input, gas, value   *T
	context, readOnly   *T
	ret, left, addr, er *T
}

type chainRun struct {
	*stateRun
	chain     *T
	chainT    types.Type
	ctxT, vmT types.Type
	*vmState
	newChain *ssa.Function
	bases    bool
	lastSnap *T                 // a snapshot taken by build
	sealedTx map[int64]int      // the number of transactions there were
	sealed   map[int64]chainObs // the accounts when the blocks were sealed
	seen     map[string]bool
}

// vmState is shared by the chains of a run
type vmState struct {
	script []vmScript // what the next executions do
	calls  []vmCall
	probe  func(st *State, db *stateRun, k *vmCall) // looks at the state an execution begins with
}

// vmScript is the outcome of an execution
type vmScript struct {
	fail bool
	ops  []string // state operations, as in stateRun.step
	left int64    // gas left over
	logs int
	spec []logSpec // logs with given addresses and topics
}

// logSpec is a log an execution makes
type logSpec struct {
	addr   string
	topics string // a letter for each
	data   *T     // set by the execution
}

// topicConst is a topic that can be named in a message
func topicConst(c byte) *T {
	b := make([]byte, 32)
	b[0], b[31] = c, 1
	return cLit(string(b))
}

func (r *chainRun) method(name string) *ssa.Function {
	return r.c.fn("tevm", "(*Chain)."+name)
}

func namedIn(c *Check, pkg, name string) types.Type {
	for _, p := range c.w.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

const vmPath = "github.com/ethereum/go-ethereum/core/vm"

// newChainRun builds a chain with its constructor
func (c *Check) newChainRun(meths ...string) (*chainRun, *State) {
	r := &chainRun{vmState: &vmState{}, stateRun: &stateRun{vals: new(int), m: map[string]*ssa.Function{}}, seen: map[string]bool{}}
	r.stateT, r.chainT = c.typ("tevm", "State"), c.typ("tevm", "Chain")
	r.newChain = c.fn("tevm", "NewChain")
	sd := c.fn("tevm", "(*State).StateDB")
	r.ctxT, r.vmT = namedIn(c, vmPath, "Context"), namedIn(c, vmPath, "EVM")
	if r.stateT == nil || r.chainT == nil || r.newChain == nil || sd == nil {
		return nil, nil
	}
	if r.ctxT == nil || r.vmT == nil {
		c.bad("anchor", "tevm", r.newChain.Pos(), "the virtual machine's types were not found")
		return nil, nil
	}
	var st *State
	r.hist, st = c.newHist(func(x *Exec) { x.hook = r.intercept; x.maxDepth = 80 })
	r.types = map[string]types.Type{}
	st, rets, ok := r.do(st, r.newChain)
	if !ok {
		c.bad("analysis", "tevm.NewChain", r.newChain.Pos(), "%s", r.fail)
		return nil, nil
	}
	r.chain = rets[0]
	i := fieldIndex(r.chainT, func(v *types.Var) bool { return types.Identical(v.Type(), r.stateT) })
	if i < 0 {
		c.bad("anchor", "tevm.Chain", r.newChain.Pos(), "the chain has no state")
		return nil, nil
	}
	r.state = faddr(r.chain, r.chainT, i)
	st, rets, ok = r.do(st, sd, r.state)
	if !ok || rets[0].op != "iface" {
		c.bad("analysis", "tevm.State.StateDB", sd.Pos(), "no state database: %s", r.fail)
		return nil, nil
	}
	r.recv = rets[0].args[0]
	for _, n := range stateMeths {
		f := c.w.prog.LookupMethod(rets[0].obj.(types.Type), nil, n)
		if f == nil {
			c.bad("anchor", "tevm.State", sd.Pos(), "the state database has no method %s", n)
			return nil, nil
		}
		r.m[n] = f
	}
	for _, n := range meths {
		f := r.method(n)
		if f == nil {
			return nil, nil
		}
		r.m["Chain."+n] = f
		c.fns[fnName(f)] = true
	}
	return r, st
}

// at gives the same operations on another chain
func (r *chainRun) at(chain *T) *chainRun {
	n := *r
	s := *r.stateRun
	n.stateRun = &s
	n.chain = chain
	n.state = faddr(chain, r.chainT, fieldIndex(r.chainT, func(v *types.Var) bool { return types.Identical(v.Type(), r.stateT) }))
	n.recv = n.state
	return &n
}

func (r *chainRun) intercept(fr *frame, st *State, fn *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
	x := r.x
	if outs, ok := r.treeOrder(st, nm, args); ok {
		return outs, true
	}
	bt := types.NewSlice(byteT)
	switch nm {
	case "time.Now":
		return one(st, mk("sym", "now", sig.Results().At(0).Type())), true
	case "(time.Time).Unix":
		return one(st, mk("sym", "unix", types.Typ[types.Int64])), true
	case "math/rand.Read":
		p := x.parts(args[0])
		(*r.vals)++
		var el []*T
		n, _ := p.len.i64()
		for i := int64(0); i < n; i++ {
			el = append(el, mkInt((int64(*r.vals)*7+i)%256))
		}
		x.store(st, p.base, cSplice(x.load(st, p.base, nil), p.off, cVec(el...)), nil)
		return one(st, p.len, mkNil()), true
	case "encoding/json.Marshal", "encoding/json.MarshalIndent":
		return r.marshal(st, args[0])
	case "encoding/json.Unmarshal":
		return r.unmarshal(st, x.content(st, args[0]), args[1], fr), true
	}
	if fn != nil && fn.Signature.Recv() != nil && len(args) > 0 {
		rt := fn.Signature.Recv().Type()
		switch fn.Name() {
		case "MarshalMsg":
			if pt, ok := rt.(*types.Pointer); ok {
				c := r.encoded(st, x.load(st, args[0], pt.Elem()), pt.Elem(), "msgp")
				return one(st, x.newBytes(st, cCat(x.content(st, args[1]), c), bt), mkNil()), true
			}
		case "UnmarshalMsg":
			if pt, ok := rt.(*types.Pointer); ok {
				v, t, ok := r.decoded(st, x.content(st, args[1]))
				if !ok || !types.Identical(t, pt.Elem()) {
					x.fail("a %s is decoded from something else", typeName(pt.Elem()))
					return nil, true
				}
				x.store(st, args[0], v, t)
				return one(st, x.newBytes(st, cVec(), bt), mkNil()), true
			}
		}
	}
	switch short(nm) {
	case vmPath + ".NewEVM":
		a := x.newAlloc("evm", r.vmT)
		for i, k := 0, structOf(r.vmT); i < k.NumFields(); i++ {
			switch {
			case types.Identical(k.Field(i).Type(), r.ctxT):
				x.store(st, faddr(a, r.vmT, i), args[0], r.ctxT)
			case k.Field(i).Name() == "StateDB":
				x.store(st, faddr(a, r.vmT, i), args[1], k.Field(i).Type())
			}
		}
		return one(st, a), true
	case "(*" + vmPath + ".EVM).Call", "(*" + vmPath + ".EVM).Create", "(*" + vmPath + ".EVM).StaticCall":
		return r.execute(st, strings.TrimPrefix(short(nm), "(*"+vmPath+".EVM)."), args, sig), true
	}
	return nil, false
}

// marshal is the message of a value
func (r *hist) marshal(st *State, v *T) ([]outcome, bool) {
	x := r.x
	bt := types.NewSlice(byteT)
	if v.op != "iface" {
		return nil, false
	}
	t := v.obj.(types.Type)
	if types.TypeString(t, nil) == "encoding/json.RawMessage" {
		if v.args[0].isNil() {
			return one(st, x.newBytes(st, cLit("null"), bt), mkNil()), true
		}
		return one(st, x.newBytes(st, x.content(st, v.args[0]), bt), mkNil()), true
	}
	val := v.args[0]
	for {
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok || val.isNil() {
			break
		}
		if val.op == "struct" || val.op == "ptr" {
			break
		}
		val, t = x.load(st, val, pt.Elem()), pt.Elem()
	}
	if val.isNil() {
		return one(st, x.newBytes(st, cLit("null"), bt), mkNil()), true
	}
	return one(st, x.newBytes(st, r.encoded(st, val, t, "json"), bt), mkNil()), true
}

// unmarshal decodes a message or a literal into what target points to
func (r *hist) unmarshal(st *State, c, target *T, fr *frame) []outcome {
	x := r.x
	bad := func() []outcome { return one(st, x.err("encoding/json.Unmarshal")) }
	if target.op != "iface" {
		x.fail("json into something unknown")
		return nil
	}
	pt := target.obj.(types.Type)
	t := deref(pt)
	p := target.args[0]
	if types.TypeString(t, nil) == "encoding/json.RawMessage" {
		x.store(st, p, x.newBytes(st, c, t), t)
		return one(st, mkNil())
	}
	if c.op == "sub" && c.args[0].op == "fn" {
		c = c.args[0]
	}
	if v, vt, ok := r.decoded(st, c); ok {
		for deref(vt) != nil && !types.Identical(vt, t) {
			if v.isNil() {
				return one(st, mkNil())
			}
			v = x.load(st, v, deref(vt))
			vt = deref(vt)
		}
		if vp, ok := vt.Underlying().(*types.Map); ok {
			_ = vp
		}
		if !types.Identical(vt.Underlying(), t.Underlying()) {
			return bad()
		}
		x.store(st, p, v, t)
		return one(st, mkNil())
	}
	// an object written out by the rule
	if mt, ok := t.Underlying().(*types.Map); ok && c.op == "fn" && c.aux == "object" {
		m := x.load(st, p, t)
		if m.isNil() {
			x.nsym++
			m = mk("mkmap", fmt.Sprintf("%d", x.nsym), t)
			x.store(st, p, m, t)
		}
		for i := 0; i+1 < len(c.args); i += 2 {
			a := x.newAlloc("json", mt.Elem())
			x.store(st, a, zeroOf(mt.Elem()), mt.Elem())
			outs := r.unmarshal(st, c.args[i+1], mkIface(types.NewPointer(mt.Elem()), a), fr)
			if len(outs) != 1 || !outs[0].rets[0].isNil() {
				return outs
			}
			st = outs[0].st
			x.mapPut(st, m, c.args[i], x.load(st, a, mt.Elem()), t)
		}
		return one(st, mkNil())
	}
	if c.op == "fn" && c.aux == "object" {
		s := structOf(t)
		if s == nil {
			return bad()
		}
		wrong := false // a value of a wrong type is skipped
		for i := 0; i+1 < len(c.args); i += 2 {
			name, _ := c.args[i].str()
			for j := 0; j < s.NumFields(); j++ {
				if !jsonMatches(s, j, name) {
					continue
				}
				ft := s.Field(j).Type()
				a := faddr(p, t, j)
				if pt, ok := ft.(*types.Pointer); ok {
					if c.args[i+1] == cLit("null") {
						x.store(st, a, mkNil(), ft)
						continue
					}
					n := x.newAlloc("json", pt.Elem())
					x.store(st, a, n, ft)
					a, ft = n, pt.Elem()
				}
				outs := r.unmarshal(st, c.args[i+1], mkIface(types.NewPointer(ft), a), fr)
				if len(outs) != 1 {
					return outs
				}
				wrong = wrong || !outs[0].rets[0].isNil()
				st = outs[0].st
			}
		}
		if wrong {
			return bad()
		}
		return one(st, mkNil())
	}
	if c.op == "fn" && c.aux == "list" {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return bad()
		}
		var el []*T
		for _, e := range c.args {
			ft := s.Elem()
			a := x.newAlloc("json", ft)
			if pt, ok := ft.(*types.Pointer); ok {
				if e == cLit("null") {
					el = append(el, mkNil())
					continue
				}
				n := x.newAlloc("json", pt.Elem())
				outs := r.unmarshal(st, e, mkIface(ft, n), fr)
				if len(outs) != 1 || !outs[0].rets[0].isNil() {
					return outs
				}
				st = outs[0].st
				el = append(el, n)
				continue
			}
			outs := r.unmarshal(st, e, mkIface(types.NewPointer(ft), a), fr)
			if len(outs) != 1 || !outs[0].rets[0].isNil() {
				return outs
			}
			st = outs[0].st
			el = append(el, x.load(st, a, ft))
		}
		x.store(st, p, x.newBytes(st, cVec(el...), t), t)
		return one(st, mkNil())
	}
	if c.op == "fn" && c.aux == "jstr" {
		if sel := types.NewMethodSet(pt).Lookup(nil, "UnmarshalText"); sel != nil && types.NewMethodSet(pt).Lookup(nil, "UnmarshalJSON") == nil {
			if f := x.w.prog.MethodValue(sel); f != nil && inRepo(f) && len(f.Blocks) > 0 {
				return x.runFunc(f, []*T{p, x.newBytes(st, c.args[0], types.NewSlice(byteT))}, nil, st)
			}
		}
		if u, ok := t.Underlying().(*types.Basic); !ok || u.Info()&types.IsString == 0 {
			return bad()
		}
		x.store(st, p, mkString(c.args[0]), t)
		return one(st, mkNil())
	}
	b, known := constBytes(c)
	if !known {
		x.fail("json content unknown: %s into %s", clip(c.String(), 80), t)
		return nil
	}
	text := string(b)
	// 32-byte and 20-byte values and quantities read themselves
	for _, m := range []string{"UnmarshalJSON", "UnmarshalText"} {
		sel := types.NewMethodSet(pt).Lookup(nil, m)
		if sel == nil {
			continue
		}
		if text == "null" && m == "UnmarshalText" {
			return one(st, mkNil())
		}
		f := x.w.prog.MethodValue(sel)
		if f == nil {
			continue
		}
		if m == "UnmarshalText" {
			if len(text) < 2 || text[0] != '"' || text[len(text)-1] != '"' {
				return bad()
			}
			text = text[1 : len(text)-1]
		}
		if !inRepo(f) || len(f.Blocks) == 0 {
			return r.foreignJSON(st, p, t, text, bad)
		}
		return x.runFunc(f, []*T{p, x.newBytes(st, cLit(text), types.NewSlice(byteT))}, nil, st)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if text == "null" {
			return one(st, mkNil())
		}
		if u.Kind() == types.Bool && (text == "true" || text == "false") {
			x.store(st, p, mkBool(text == "true"), t)
			return one(st, mkNil())
		}
		if u.Info()&types.IsString != 0 {
			var s string
			if json.Unmarshal(b, &s) == nil {
				x.store(st, p, mkStr(s), t)
				return one(st, mkNil())
			}
		}
		if u.Info()&types.IsInteger != 0 {
			k, _ := kindOf(t)
			if v, ok := new(big.Int).SetString(text, 10); ok && v.Cmp(k.min()) >= 0 && v.Cmp(k.max()) <= 0 {
				x.store(st, p, mkBig(v), t)
				return one(st, mkNil())
			}
		}
	}
	return bad()
}

// foreignJSON: types of the virtual machine's library read hex strings
func (r *hist) foreignJSON(st *State, p *T, t types.Type, text string, bad func() []outcome) []outcome {
	text = strings.Trim(text, `"`)
	a := arrayOf(t)
	if a == nil || !strings.HasPrefix(text, "0x") || int64(len(text)) != 2+2*a.Len() {
		return bad()
	}
	v, ok := new(big.Int).SetString(text[2:], 16)
	if !ok {
		return bad()
	}
	buf := make([]byte, a.Len())
	v.FillBytes(buf)
	r.x.store(st, p, cLit(string(buf)), t)
	return one(st, mkNil())
}

// jsonMatches: names may differ in case if there is none that does not
func jsonMatches(s *types.Struct, i int, name string) bool {
	if jsonName(s, i) == name {
		return true
	}
	for j := 0; j < s.NumFields(); j++ {
		if jsonName(s, j) == name {
			return false
		}
	}
	return strings.EqualFold(jsonName(s, i), name) && s.Field(i).Exported()
}

func jsonName(s *types.Struct, i int) string {
	tag := s.Tag(i)
	if k := strings.Index(tag, `json:"`); k >= 0 {
		tag = tag[k+6:]
		if e := strings.IndexAny(tag, `",`); e > 0 {
			return tag[:e]
		}
	}
	return s.Field(i).Name()
}

// vmField is a field of a virtual machine or of its context
func (r *chainRun) vmField(st *State, vm *T, name string) *T {
	x := r.x
	for i, f := 0, structOf(r.vmT); i < f.NumFields(); i++ {
		if f.Field(i).Name() == name {
			return x.load(st, faddr(vm, r.vmT, i), f.Field(i).Type())
		}
		if types.Identical(f.Field(i).Type(), r.ctxT) {
			if fa := fieldAddrOf(faddr(vm, r.vmT, i), r.ctxT, name); fa != nil {
				return x.load(st, fa, deref(fa.typ))
			}
		}
	}
	return mkNil()
}

// execute is an execution by the virtual machine, with the effects that
// executions have besides those of the program
func (r *chainRun) execute(st *State, kind string, args []*T, sig *types.Signature) []outcome {
	x := r.x
	steps := x.steps
	k := vmCall{kind: kind}
	k.caller = args[1]
	if v := args[1]; v.op == "iface" { // the account behind a contract reference
		k.caller = x.load(st, v.args[0], deref(v.obj.(types.Type)))
	}
	a := args[2:]
	if kind != "Create" {
		k.to = a[0]
		a = a[1:]
	}
	k.input, k.gas = x.content(st, a[0]), a[1]
	if kind != "StaticCall" {
		k.value = x.bigVal(st, a[2])
	}
	for i, f := 0, structOf(r.vmT); i < f.NumFields(); i++ {
		if types.Identical(f.Field(i).Type(), r.ctxT) {
			k.context = x.deep(st, x.load(st, faddr(args[0], r.vmT, i), r.ctxT), r.ctxT, 0)
		}
	}
	db := r.vmField(st, args[0], "StateDB")
	s := vmScript{}
	if len(r.script) > 0 {
		s = r.script[0]
		r.script = r.script[1:]
	}
	if db.op != "iface" {
		x.fail("the virtual machine has no state")
		return nil
	}
	sub := *r.stateRun
	sub.recv = db.args[0]
	failed := false
	op := func(name string, args ...*T) []*T {
		if failed {
			return []*T{mkNil(), mkNil()}
		}
		s2, rets, ok := sub.op(st, name, args...)
		if !ok {
			failed = true
			return []*T{mkNil(), mkNil()}
		}
		st = s2
		return rets
	}
	context := func(name string, args ...*T) []*T {
		fv := r.vmField(st, args0(args), name)
		if failed || fv.op != "func" {
			if !failed {
				r.fail = "the virtual machine has no function " + name
			}
			failed = true
			return []*T{mkBool(false)}
		}
		s2, rets, ok := r.do(st, fv.obj.(*ssa.Function), args[1:]...)
		if !ok {
			failed = true
			return []*T{mkBool(false)}
		}
		st = s2
		return rets
	}
	st = st.clone()
	zero := bigConst(new(big.Int))
	k.ret, k.er, k.left = cVec(mk("sym", fmt.Sprintf("ret%d", *r.vals+1), byteT)), mkNil(), mkInt(s.left)
	(*r.vals)++
	if r.probe != nil {
		r.probe(st, &sub, &k)
	}
	if kind == "Create" {
		n, _ := op("GetNonce", k.caller)[0].i64()
		k.addr = acctConst(string(rune('n' + n%8)))
	}
	broke := func() {
		k.er = x.err("vm")
		st.facts = st.facts.push(mkNot(mkEq(k.er, mkNil(), errorT)))
	}
	done := func() []outcome {
		x.steps = steps
		if failed {
			x.fail("the execution's effects cannot be followed: %s", r.fail)
			return nil
		}
		rets := []*T{x.newBytes(st, k.ret, types.NewSlice(byteT))}
		if kind == "Create" {
			rets = append(rets, k.addr)
		}
		rets = append(rets, k.left, k.er)
		r.calls = append(r.calls, k)
		return one(st, rets...)
	}
	if kind != "StaticCall" {
		can := context("CanTransfer", args[0], db, k.caller, a[2])[0]
		if can == mkBool(false) {
			k.ret, k.left = cVec(), k.gas
			broke()
			return done()
		}
		if can != mkBool(true) && !failed {
			r.fail, failed = "it is unknown whether the value can be sent", true
		}
	}
	if kind == "Create" {
		n, _ := op("GetNonce", k.caller)[0].i64()
		op("SetNonce", k.caller, mkInt(n+1))
	}
	snap := op("Snapshot")[0]
	switch kind {
	case "StaticCall":
		op("AddBalance", k.to, x.newBig(st, zero))
	case "Call":
		if op("Exist", k.to)[0] != mkBool(true) {
			op("CreateAccount", k.to)
		}
		context("Transfer", args[0], db, k.caller, k.to, a[2])
	case "Create":
		op("CreateAccount", k.addr)
		op("SetNonce", k.addr, mkInt(1))
		context("Transfer", args[0], db, k.caller, k.addr, a[2])
	}
	if kind != "StaticCall" {
		for _, o := range s.ops {
			if failed {
				break
			}
			if f := strings.Fields(o); f[0] == "pay" { // a call of the program that sends ether
				st = st.clone()
				b, _ := new(big.Int).SetString(f[3], 10)
				v := x.newBig(st, bigConst(b))
				if context("CanTransfer", args[0], db, acctConst(f[1]), v)[0] == mkBool(true) {
					context("Transfer", args[0], db, acctConst(f[1]), acctConst(f[2]), v)
				}
				continue
			} else if f[0] == "die" { // the program destroys its account
				v := op("GetBalance", acctConst(f[1]))[0]
				op("AddBalance", acctConst(f[2]), v)
				op("Suicide", acctConst(f[1]))
				continue
			}
			s2, _, ok := sub.stepState(st, o)
			if !ok {
				failed = true
				break
			}
			st = s2
		}
		for i := 0; i < s.logs+len(s.spec) && !failed; i++ {
			var spec *logSpec
			if i >= s.logs {
				spec = &s.spec[i-s.logs]
			}
			(*r.vals)++
			f := r.m["AddLog"]
			lt := f.Signature.Params().At(0).Type()
			l := x.newAlloc("log", deref(lt))
			li := structOf(deref(lt))
			for j := 0; j < li.NumFields(); j++ {
				ft := li.Field(j).Type()
				switch li.Field(j).Name() {
				case "Address":
					a := acctConst("l")
					if spec != nil {
						a = acctConst(spec.addr)
					}
					x.store(st, faddr(l, deref(lt), j), a, ft)
				case "Data":
					d := cVec(mk("sym", fmt.Sprintf("logdata%d", *r.vals), byteT))
					if spec != nil {
						spec.data = d
					}
					x.store(st, faddr(l, deref(lt), j), x.newBytes(st, d, ft), ft)
				case "Topics":
					if spec != nil {
						var el []*T
						for k := range spec.topics {
							el = append(el, topicConst(spec.topics[k]))
						}
						x.store(st, faddr(l, deref(lt), j), x.newBytes(st, cVec(el...), ft), ft)
						continue
					}
					x.store(st, faddr(l, deref(lt), j), x.newBytes(st, cVec(unknownHash(fmt.Sprintf("topic%d", *r.vals))), ft), ft)
				case "BlockNumber":
					// the virtual machine sets the number of the block
					x.store(st, faddr(l, deref(lt), j), r.blockNumber(k.context), ft)
				}
			}
			op("AddLog", l)
		}
		if kind == "Create" && !s.fail {
			op("SetCode", k.addr, x.newBytes(st, k.ret, types.NewSlice(byteT)))
		}
	}
	if s.fail {
		op("RevertToSnapshot", snap)
		broke()
	}
	return done()
}

func args0(a []*T) *T { return a[0] }

// blockNumber is the number of the block in an execution's context
func (r *chainRun) blockNumber(ctx *T) *T {
	if ctx.op == "struct" {
		for i, f := 0, structOf(r.ctxT); i < f.NumFields(); i++ {
			if f.Field(i).Name() == "BlockNumber" {
				if v := ctx.args[i]; v.op == "ptr" {
					if b, ok := bigOf(v.args[0]); ok {
						return mkInt(b.Int64())
					}
				}
			}
		}
	}
	return mkInt(0)
}

// stepState performs a state operation without a model
func (r *stateRun) stepState(st *State, o string) (*State, []*T, bool) {
	ref := &refState{acc: map[string]refAcct{}, code: map[string]string{}, slot: map[string]string{}}
	f := strings.Fields(o)
	ref.acc[f[1]] = refAcct{exists: true, bal: new(big.Int).Lsh(big.NewInt(1), 200)}
	s2, _, ok := r.step(st, ref, o, " "+o)
	return s2, nil, ok
}

// ---- queries ----

// rpc performs a query; bad tells that it was answered with an error
func (r *chainRun) rpc(st *State, method string, params ...*T) (st2 *State, res *T, resT types.Type, bad, ok bool) {
	x := r.x
	st = st.clone()
	f := r.m["Chain.Execute"]
	qt, at := deref(f.Signature.Params().At(0).Type()), deref(f.Signature.Params().At(1).Type())
	q, a := x.newAlloc("request", qt), x.newAlloc("response", at)
	rt := types.NewSlice(byteT)
	var ps []*T
	for _, p := range params {
		ps = append(ps, x.newBytes(st, p, rt))
	}
	set := func(name string, v *T) {
		fa := fieldAddrOf(q, qt, name)
		x.store(st, fa, v, deref(fa.typ))
	}
	set("Version", mkStr("2.0"))
	set("Method", mkStr(method))
	set("Params", x.newBytes(st, cVec(ps...), types.NewSlice(rt)))
	set("ID", mkInt(77))
	s2, rets, ok := r.do(st, f, r.chain, q, a)
	if !ok {
		r.fail = method + ": " + r.fail
		return nil, nil, nil, false, false
	}
	if !rets[0].isNil() {
		r.fail = method + ": the transport fails"
		return nil, nil, nil, false, false
	}
	if v := x.fieldVal(s2, a, at, "ID"); v != mkInt(77) {
		r.fail = method + ": the response does not carry the id of the request"
		return nil, nil, nil, false, false
	}
	et := deref(fieldAddrOf(a, at, "Error").typ)
	code := x.fieldVal(s2, fieldAddrOf(a, at, "Error"), et, "Code")
	c, known := code.i64()
	if !known {
		r.fail = method + ": it is unknown whether the answer is an error"
		return nil, nil, nil, false, false
	}
	rv := x.fieldVal(s2, a, at, "Result")
	if c != 0 {
		if !rv.isNil() {
			r.fail = method + ": an error with a result"
			return nil, nil, nil, false, false
		}
		return s2, nil, nil, true, true
	}
	content := x.content(s2, rv)
	if content == cLit("null") {
		return s2, nil, nil, false, true
	}
	if content.op == "sub" && content.args[0].op == "fn" {
		content = content.args[0]
	}
	if content.op != "fn" || len(content.args) != 2 {
		r.fail = method + ": the result is not an encoded value"
		return nil, nil, nil, false, false
	}
	tn, _ := content.args[1].str()
	return s2, content.args[0], r.types[tn], false, true
}

// dfield is a field of a deep value, without pointers
func dfield(v *T, t types.Type, name string) *T {
	for v.op == "ptr" {
		v = v.args[0]
		if deref(t) != nil {
			t = deref(t)
		}
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || v.op != "struct" {
		return mkStr("?")
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			f := v.args[i]
			for f.op == "ptr" {
				f = f.args[0]
			}
			return f
		}
	}
	return mkStr("?")
}

func fieldTypeOf(t types.Type, name string) types.Type {
	if d := deref(t); d != nil {
		t = d
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

// dlist is the elements of a deep slice
func dlist(v *T) ([]*T, bool) {
	if v.isNil() {
		return nil, true
	}
	if v.op != "bytes" {
		return nil, false
	}
	if n, ok := cLen(v.args[0]).i64(); ok && n == 0 {
		return nil, true
	}
	if v.args[0].op != "vec" {
		return nil, false
	}
	return v.args[0].args, true
}
