package main

// C20: the state of the test chain under all short histories of the
// operations of the virtual machine, compared with a plain model.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C20"] = &CheckDef{
		title:     "Reverting restores everything",
		technique: "static abstract interpretation over SSA of all short histories of state operations, with unknown code, storage values, logs and hash images; comparison with a model of the state",
		explanation: "The state database handed to the virtual machine is interpreted, together with the trees below it, on every sequence of operations up to a depth from several starting states, for several accounts and storage slots. After each step every account field, code, slot, log and the refund is read through " +
			"the interface the virtual machine uses and compared with a plain model in which a snapshot is a copy of everything.",
		assumptions: []string{"Keccak-256 images of different contents differ", "math/big and encoding/binary behave as documented"},
		min:         3000,
		run:         runState,
	}
}

type refAcct struct {
	exists, dead bool
	bal          *big.Int
	nonce        int64
}

type refState struct {
	acc    map[string]refAcct
	code   map[string]string
	slot   map[string]string // "a/1"
	refund int64
	logs   []string
	snaps  []*refState
	ids    []*T
}

func (r *refState) copy() *refState {
	n := &refState{acc: map[string]refAcct{}, code: cpMap(r.code), slot: cpMap(r.slot), refund: r.refund, logs: r.logs[:len(r.logs):len(r.logs)], snaps: r.snaps[:len(r.snaps):len(r.snaps)], ids: r.ids[:len(r.ids):len(r.ids)]}
	for k, v := range r.acc {
		n.acc[k] = v
	}
	return n
}

func (r *refState) balance(a string) *big.Int {
	if b := r.acc[a].bal; b != nil {
		return b
	}
	return new(big.Int)
}

type stateRun struct {
	*hist
	recv, state *T
	stateT      types.Type
	m           map[string]*ssa.Function
	vals        *int
	nodes, obs  int
	bad         bool
	snapshot    bool // within the history of a snapshot
}

// order of tree keys: any order of different contents will do
func (h *hist) treeOrder(st *State, nm string, args []*T) ([]outcome, bool) {
	if nm != "bytes.Compare" && nm != "bytes.Equal" || len(args) != 2 {
		return nil, false
	}
	a, b := h.x.content(st, args[0]), h.x.content(st, args[1])
	if _, ok := constBytes(a); ok {
		if _, ok := constBytes(b); ok {
			return nil, false
		}
	}
	if !isHash(a) || !isHash(b) {
		return nil, false
	}
	if nm == "bytes.Equal" {
		return one(st, mkBool(a == b)), true
	}
	return one(st, mkInt(int64(strings.Compare(a.String(), b.String())))), true
}

func isHash(c *T) bool {
	if c.op == "sub" {
		c = c.args[0]
	}
	return c.op == "fn" && c.aux == "keccak256"
}

// newStateRun makes an empty state and looks up the operations of the
// virtual machine on it
func (c *Check) newStateRun(meths ...string) (*stateRun, *State) {
	sd := c.fn("tevm", "(*State).StateDB")
	t := c.typ("tevm", "State")
	if sd == nil || t == nil {
		return nil, nil
	}
	r := &stateRun{vals: new(int), m: map[string]*ssa.Function{}, stateT: t}
	var st *State
	r.hist, st = c.newHist(func(x *Exec) {
		x.hook = func(fr *frame, st *State, fn *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
			return r.treeOrder(st, nm, args)
		}
	})
	r.state = r.x.newAlloc("state", t)
	st, rets, ok := r.do(st, sd, r.state)
	if !ok || rets[0].op != "iface" {
		c.bad("analysis", "tevm.State.StateDB", sd.Pos(), "no state database: %s", r.fail)
		return nil, nil
	}
	r.recv = rets[0].args[0]
	dt := rets[0].obj.(types.Type)
	for _, n := range meths {
		f := c.w.prog.LookupMethod(dt, nil, n)
		if f == nil {
			c.bad("anchor", "tevm.State", sd.Pos(), "the state database has no method %s", n)
			return nil, nil
		}
		r.m[n] = f
		c.fns[fnName(f)] = true
	}
	return r, st
}

func acctConst(a string) *T {
	return cCat(cZeros(mkInt(19), zeroByte()), cVec(mkInt(int64(a[0]))))
}

func slotConst(s string) *T {
	return cCat(cZeros(mkInt(31), zeroByte()), cVec(mkInt(int64(s[0]))))
}

// an unknown 32-byte value that is not zero
func unknownHash(name string) *T {
	var v []*T
	v = append(v, mkInt(1))
	for i := 1; i < 32; i++ {
		v = append(v, mk("sym", fmt.Sprintf("%s.%d", name, i), byteT))
	}
	return cVec(v...)
}

func (r *stateRun) op(st *State, name string, args ...*T) (*State, []*T, bool) {
	return r.do(st, r.m[name], append([]*T{r.recv}, args...)...)
}

func (r *stateRun) report(fn *ssa.Function, rule, trail, f string, a ...interface{}) bool {
	if !r.bad {
		r.c.bad(rule, "tevm.State", fn.Pos(), "after%s: "+f, append([]interface{}{trail}, a...)...)
	}
	r.bad = true
	return false
}

var stateMeths = []string{"CreateAccount", "AddBalance", "SubBalance", "GetBalance", "SetNonce", "GetNonce", "SetCode", "GetCode", "GetCodeHash", "GetCodeSize", "SetState", "GetState", "Exist", "Empty",
	"Suicide", "HasSuicided", "Snapshot", "RevertToSnapshot", "AddLog", "AddRefund", "SubRefund", "GetRefund"}

func runState(c *Check) {
	r, st := c.newStateRun(stateMeths...)
	if r == nil {
		return
	}
	empty := &refState{acc: map[string]refAcct{}, code: map[string]string{}, slot: map[string]string{}}
	type start struct {
		ops   []string
		depth int
	}
	full := []string{"CreateAccount a", "AddBalance a 300", "SetNonce a", "SetCode a", "SetState a 1", "AddBalance b 7", "AddLog", "AddRefund"}
	change := []string{"SubBalance a 2", "SetNonce a", "SetState a 1", "SetState a 2", "AddBalance c 1", "AddLog", "AddRefund"}
	cat := func(ls ...[]string) (out []string) {
		for _, l := range ls {
			out = append(out, l...)
		}
		return
	}
	snap := []string{"Snapshot"}
	for _, s := range []start{
		{nil, 3},
		{cat(full), 2},
		{cat(snap, full), 2},
		{cat(full, snap), 3},
		{cat(full, snap, change), 2},
		{cat(full, snap, change, snap), 2},
		{cat(full, snap, []string{"SetState a 1", "DeleteState a 1", "Suicide a"}), 2},
		{cat(full, snap, change, []string{"Revert 0"}, snap, []string{"DeleteState a 1"}, snap), 2},
	} {
		cur, ref := st, empty
		trail := ""
		for _, o := range s.ops {
			var ok bool
			trail += " " + o
			cur, ref, ok = r.step(cur, ref, o, trail)
			if !ok {
				return
			}
		}
		r.explore(cur, ref, trail, s.depth)
		if r.bad {
			return
		}
	}
	c.obl += r.obs
	c.done += r.obs
	c.rules["reads"] = r.obs
	c.ob("histories", "tevm.State", r.m["Snapshot"].Pos(), r.nodes > 1000, "only %d histories were analysed", r.nodes)
	c.notes = append(c.notes, fmt.Sprintf("%d histories, %d reads", r.nodes, r.obs))
}

// step performs one operation on the state and on the model; a nil model
// means that the operation is not applicable
func (r *stateRun) step(st *State, ref *refState, o, trail string) (*State, *refState, bool) {
	f := strings.Fields(o)
	n := ref.copy()
	arg := func(i int) string {
		if i < len(f) {
			return f[i]
		}
		return ""
	}
	a := arg(1)
	ac := n.acc[a]
	var ok bool
	var rets []*T
	var used *ssa.Function
	do := func(name string, args ...*T) {
		used = r.m[name]
		st, rets, ok = r.op(st, name, args...)
	}
	bigArg := func() *T {
		v, _ := new(big.Int).SetString(f[2], 10)
		st = st.clone()
		return r.x.newBig(st, bigConst(v))
	}
	(*r.vals)++
	switch f[0] {
	case "CreateAccount":
		if n.code[a] != "" {
			return st, nil, true
		}
		do("CreateAccount", acctConst(a))
		n.acc[a] = refAcct{exists: true, bal: n.balance(a)}
	case "AddBalance":
		v := bigArg()
		do("AddBalance", acctConst(a), v)
		b, _ := new(big.Int).SetString(f[2], 10)
		ac.exists, ac.bal = true, b.Add(b, n.balance(a))
		n.acc[a] = ac
	case "SubBalance":
		b, _ := new(big.Int).SetString(f[2], 10)
		if n.balance(a).Cmp(b) < 0 {
			return st, nil, true
		}
		do("SubBalance", acctConst(a), bigArg())
		ac.exists, ac.bal = true, b.Sub(n.balance(a), b)
		n.acc[a] = ac
	case "SetNonce":
		v := int64(*r.vals)<<33 + 1
		do("SetNonce", acctConst(a), mkInt(v))
		ac.exists, ac.nonce = true, v
		n.acc[a] = ac
	case "SetCode":
		if !ac.exists {
			return st, nil, true
		}
		v := fmt.Sprintf("code%d", *r.vals)
		st = st.clone()
		do("SetCode", acctConst(a), r.x.newBytes(st, cVec(mk("sym", v, byteT), mk("sym", v+"'", byteT)), types.NewSlice(byteT)))
		n.code[a] = v
	case "SetState":
		v := fmt.Sprintf("word%d", *r.vals)
		do("SetState", acctConst(a), slotConst(f[2]), unknownHash(v))
		n.slot[a+"/"+f[2]] = v
	case "DeleteState":
		do("SetState", acctConst(a), slotConst(f[2]), cZeros(mkInt(32), zeroByte()))
		delete(n.slot, a+"/"+f[2])
	case "Suicide":
		do("Suicide", acctConst(a))
		if ac.exists && !ac.dead {
			ac.dead, ac.bal = true, nil
			n.acc[a] = ac
		} else if ac.dead {
			return st, nil, true
		}
	case "AddLog":
		v := fmt.Sprintf("log%d", *r.vals)
		do("AddLog", mk("sym", v, r.m["AddLog"].Signature.Params().At(0).Type()))
		n.logs = append(n.logs, v)
	case "AddRefund":
		do("AddRefund", mkInt(int64(*r.vals)))
		n.refund += int64(*r.vals)
	case "SubRefund":
		if n.refund < 1 {
			return st, nil, true
		}
		do("SubRefund", mkInt(1))
		n.refund--
	case "Snapshot":
		do("Snapshot")
		if ok {
			n.snaps = append(n.snaps, ref)
			n.ids = append(n.ids, rets[0])
		}
	case "Revert":
		i := int(f[1][0] - '0')
		if i >= len(n.snaps) {
			return st, nil, true
		}
		do("RevertToSnapshot", n.ids[i])
		n = n.snaps[i].copy()
	default:
		panic("unknown operation " + o)
	}
	if !ok {
		return nil, nil, r.report(used, "analysis", trail, "%s", r.fail)
	}
	return st, n, true
}

func (r *stateRun) explore(st *State, ref *refState, trail string, depth int) {
	if r.bad || !r.inspect(st, ref, trail) || depth == 0 {
		return
	}
	ops := []string{"CreateAccount a", "AddBalance a 300", "AddBalance b 1", "SubBalance a 2", "SetNonce a", "SetNonce b", "SetCode a", "SetState a 1", "SetState a 2", "SetState b 1", "DeleteState a 1", "Suicide a", "AddLog", "AddRefund", "SubRefund", "Snapshot"}
	for i := range ref.snaps {
		ops = append(ops, fmt.Sprintf("Revert %d", i))
	}
	for _, o := range ops {
		if r.bad {
			return
		}
		tr := trail + " " + o
		s2, n, ok := r.step(st, ref, o, tr)
		if ok && n != nil {
			r.explore(s2, n, tr, depth-1)
		}
	}
}

// inspect reads everything
func (r *stateRun) inspect(st *State, ref *refState, trail string) bool {
	r.nodes++
	read := func(name string, want *T, args ...*T) bool {
		r.obs++
		s2, rets, ok := r.op(st, name, args...)
		if !ok {
			return r.report(r.m[name], "analysis", trail, "%s", r.fail)
		}
		got := rets[0]
		switch name {
		case "GetBalance":
			got = r.x.bigVal(s2, got)
		case "GetCode":
			got = r.x.content(s2, got)
		}
		if got != want {
			who := ""
			for _, a := range args {
				if b, ok := constBytes(a); ok {
					who += " " + string(rune(b[len(b)-1]))
				}
			}
			return r.report(r.m[name], "reads", trail, "%s%s gives %s and not %s", name, who, clip(got.String(), 80), clip(want.String(), 80))
		}
		return true
	}
	for _, a := range []string{"a", "b", "c"} {
		addr := acctConst(a)
		ac := ref.acc[a]
		code := cVec()
		if v := ref.code[a]; v != "" {
			code = cVec(mk("sym", v, byteT), mk("sym", v+"'", byteT))
		}
		empty := !ac.exists || ref.balance(a).Sign() == 0 && ac.nonce == 0 && ref.code[a] == ""
		if !read("GetBalance", bigConst(ref.balance(a)), addr) ||
			!read("GetNonce", mkInt(ac.nonce), addr) ||
			!read("GetCode", code, addr) ||
			!read("GetCodeSize", cLen(code), addr) ||
			!read("Exist", mkBool(ac.exists), addr) ||
			!read("Empty", mkBool(empty), addr) ||
			!read("HasSuicided", mkBool(ac.dead), addr) {
			return false
		}
	}
	for _, s := range []string{"a/1", "a/2", "b/1"} {
		want := cZeros(mkInt(32), zeroByte())
		if v := ref.slot[s]; v != "" {
			want = unknownHash(v)
		}
		if !read("GetState", want, acctConst(s[:1]), slotConst(s[2:])) {
			return false
		}
	}
	if !read("GetRefund", mkInt(ref.refund)) {
		return false
	}
	// logs are read from the field
	i := fieldIndex(r.stateT, func(v *types.Var) bool { return v.Name() == "Logs" })
	if i < 0 {
		return r.report(r.m["AddLog"], "anchor", trail, "the state has no field Logs")
	}
	s2 := st.clone()
	l := r.x.load(s2, faddr(r.state, r.stateT, i), structOf(r.stateT).Field(i).Type())
	var logs []*T
	for _, v := range ref.logs {
		logs = append(logs, mk("sym", v, r.m["AddLog"].Signature.Params().At(0).Type()))
	}
	r.obs++
	if got := r.x.content(s2, l); got != cVec(logs...) {
		return r.report(r.m["AddLog"], "reads", trail, "the logs are %s and not %s", clip(got.String(), 100), clip(cVec(logs...).String(), 100))
	}
	return true
}
