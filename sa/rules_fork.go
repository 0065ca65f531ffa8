package main

// C23: a fork of a chain is that chain with local changes over it.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C23"] = &CheckDef{
		title:     "A fork reads the remote block under its own changes",
		technique: "static abstract interpretation over SSA of all short histories of state operations on a fork, with the client's reads replaced by a remote state of unknown code and storage; comparison with a model",
		explanation: "NewFork is interpreted with a client whose reads are answered from a remote state with a contract, a plain account, an account with only code and one that does not exist. Every sequence of state operations up to a depth, from several starts, is followed by reading every account, code and slot; " +
			"the model is the remote state with the local changes written over it. Every read of the client must name the block of the fork.",
		assumptions: []string{"the client's reads of balances, nonces, code and storage answer as C02 and C03 have it", "Keccak-256 images of different contents differ"},
		min:         3000,
		run:         runFork,
	}
}

type forkRun struct {
	*chainRun
	block  int64
	remote *refState
	nilled bool // how the client gives no code
	wrong  string
	reads  int
}

const forkBlock = 70000

func (r *forkRun) intercept(fr *frame, st *State, fn *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
	if fn == nil || fn.Signature.Recv() == nil || !inRepo(fn) || typeName(deref(fn.Signature.Recv().Type())) != "seth.Client" {
		return r.chainRun.intercept(fr, st, fn, nm, args, sig, pos)
	}
	x := r.x
	st = st.clone()
	blk := args[len(args)-1]
	if n, ok := blk.i64(); fn.Signature.Params().Len() < 2 || !ok || n != r.block {
		if r.wrong == "" {
			r.wrong = fmt.Sprintf("%s reads another block (%s) of the remote chain", fn.Name(), clip(blk.String(), 40))
		}
	}
	r.reads++
	b, ok := constBytes(x.load(st, args[1], r.c.typ("", "Address")))
	if !ok {
		x.fail("the address of a remote read is unknown")
		return nil, true
	}
	a := string(rune(b[19]))
	if bt, _ := constBytes(acctConst(a)); string(bt) != string(b) {
		a = "?"
	}
	rt := sig.Results().At(0).Type()
	switch fn.Name() {
	case "GetBalanceAt":
		return one(st, bigConst(r.remote.balance(a)), mkNil()), true
	case "GetNonceAt":
		return one(st, mkInt(r.remote.acc[a].nonce), mkNil()), true
	case "GetCodeAt":
		v := r.remote.code[a]
		if v == "" {
			if r.nilled {
				return one(st, mkNil(), mkNil()), true
			}
			return one(st, x.newBytes(st, cVec(), rt), mkNil()), true
		}
		return one(st, x.newBytes(st, cVec(mk("sym", v, byteT), mk("sym", v+"'", byteT)), rt), mkNil()), true
	case "StorageAt":
		k, ok := constBytes(x.load(st, args[2], r.c.typ("", "Hash")))
		if !ok {
			x.fail("the slot of a remote read is unknown")
			return nil, true
		}
		v := r.remote.slot[a+"/"+string(rune(k[31]))]
		if v == "" {
			return one(st, cZeros(mkInt(32), zeroByte()), mkNil()), true
		}
		return one(st, unknownHash(v), mkNil()), true
	}
	x.fail("a read of the remote chain by %s is not known to the check", fn.Name())
	return nil, true
}

func (c *Check) newForkRun(nilled bool) (*forkRun, *State) {
	nf := c.fn("tevm", "NewFork")
	cl := c.typ("", "Client")
	cr, st := c.newChainRun("Mine", "Seal", "Execute", "AddBalance", "AtBlock", "Copy", "BalanceOf")
	if cr == nil || nf == nil || cl == nil {
		return nil, nil
	}
	r := &forkRun{block: forkBlock, nilled: nilled}
	st = st.clone()
	client := cr.x.newAlloc("client", cl)
	st, rets, ok := cr.do(st, nf, client, mkInt(forkBlock))
	if !ok {
		c.bad("analysis", "tevm.NewFork", nf.Pos(), "%s", cr.fail)
		return nil, nil
	}
	r.chainRun = cr.at(rets[0])
	r.x.hook = r.intercept
	r.remote = &refState{
		acc: map[string]refAcct{
			"a": {exists: true, bal: big.NewInt(5000), nonce: 9},
			"b": {exists: true, bal: big.NewInt(77)},
			"e": {exists: true, nonce: 3},
		},
		code: map[string]string{"a": "remotecode", "d": "othercode"},
		slot: map[string]string{"a/1": "remote1", "b/1": "remote2", "d/1": "remote3"},
	}
	r.remote.acc["d"] = refAcct{exists: true}
	return r, st
}

func runFork(c *Check) {
	total := 0
	change := []string{"AddBalance a 5", "SetNonce a", "SetState a 1", "SetState a 2", "SetCode d", "DeleteState d 1"}
	starts := []struct {
		ops   string
		depth int
	}{
		{"", 2},
		{"Snapshot", 2},
		{strings.Join(change, ";") + ";Snapshot", 1},
		{"Snapshot;" + strings.Join(change, ";") + ";Snapshot;Suicide a;DeleteState a 1", 1},
		{"Snapshot;" + strings.Join(change, ";") + ";Revert 0", 1},
		{"SubBalance b 77;Snapshot;SetState b 1;DeleteState b 1;SetCode b;NoCode a;Snapshot", 1},
	}
	for _, nilled := range []bool{false, true} {
		for i, s := range starts {
			r, st := c.newForkRun(nilled)
			if r == nil {
				return
			}
			if nilled && i > 0 {
				continue
			}
			ref, trail := r.remote.copy(), " forking"
			ok := true
			for _, o := range strings.Split(s.ops, ";") {
				if o == "" {
					continue
				}
				trail += " " + o
				if st, ref, ok = r.forkStep(st, ref, o, trail); !ok {
					return
				}
			}
			r.exploreFork(st, ref, trail, s.depth)
			if !r.bad && !r.blocks(st, trail) {
				return
			}
			if r.bad {
				return
			}
			total += r.nodes
			c.obl += r.obs
			c.done += r.obs
			c.rules["reads"] += r.obs
			c.notes = append(c.notes, fmt.Sprintf("%d histories, %d reads, %d of them remote", r.nodes, r.obs, r.reads))
		}
	}
	c.ob("histories", "tevm.NewFork", c.fn("tevm", "NewFork").Pos(), total > 300, "only %d histories were analysed", total)
}

func (r *forkRun) forkStep(st *State, ref *refState, o, trail string) (*State, *refState, bool) {
	f := strings.Fields(o)
	var s2 *State
	var n *refState
	var ok bool
	switch f[0] {
	case "NoCode": // the code is removed
		if !ref.acc[f[1]].exists {
			return st, nil, true
		}
		var rets []*T
		s2, rets, ok = r.op(st, "SetCode", acctConst(f[1]), mkNil())
		_ = rets
		n = ref.copy()
		delete(n.code, f[1])
		if !ok {
			return nil, nil, r.report(r.m["SetCode"], "analysis", trail, "%s", r.fail)
		}
	case "Copy": // the copy goes on, the chain it was made of is changed
		s2, rets, ok := r.do(st, r.m["Chain.Copy"], r.chain)
		if !ok {
			return nil, nil, r.report(r.m["Chain.Copy"], "analysis", trail, "%s", r.fail)
		}
		n = ref.copy()
		n.snaps, n.ids = nil, nil
		old := r.stateRun.recv
		for _, o := range []string{"AddBalance a 1", "SetState a 1", "SetState a 2", "DeleteState d 1", "SetNonce b", "SetCode d", "AddBalance c 3", "AddRefund", "AddLog"} {
			if s2, _, ok = r.step(s2, ref, o, trail+" (changing the original)"); !ok {
				return nil, nil, false
			}
		}
		cp := r.at(rets[0])
		cp.stateRun.nodes, cp.stateRun.obs = 0, 0
		ok = cp.inspect(s2, n, trail)
		r.obs += cp.obs
		r.bad = r.bad || cp.stateRun.bad
		r.stateRun.recv = old
		return st, nil, ok
	default:
		s2, n, ok = r.step(st, ref, o, trail)
	}
	return s2, n, ok
}

func (r *forkRun) exploreFork(st *State, ref *refState, trail string, depth int) {
	if r.bad {
		return
	}
	if !r.inspect(st, ref, trail) || !r.more(st, ref, trail) {
		return
	}
	if depth == 0 {
		return
	}
	ops := []string{"CreateAccount c", "CreateAccount b", "AddBalance a 300", "AddBalance c 1", "SubBalance a 5000", "SetNonce a", "SetNonce d", "SetCode a", "SetCode b", "NoCode a", "NoCode d", "SetState a 1", "SetState a 2", "DeleteState a 1", "DeleteState a 2", "DeleteState b 1", "Suicide a", "Suicide d", "AddLog", "Snapshot", "Copy"}
	for i := range ref.snaps {
		ops = append(ops, fmt.Sprintf("Revert %d", i))
	}
	for _, o := range ops {
		if r.bad {
			return
		}
		tr := trail + " " + o
		s2, n, ok := r.forkStep(st, ref, o, tr)
		if ok && n != nil {
			r.exploreFork(s2, n, tr, depth-1)
		}
	}
}

// more reads what inspect does not: the accounts only a fork has
func (r *forkRun) more(st *State, ref *refState, trail string) bool {
	if r.wrong != "" {
		return r.report(r.m["GetBalance"], "remote", trail, "%s", r.wrong)
	}
	read := func(name string, want *T, args ...*T) bool {
		r.obs++
		s2, rets, ok := r.op(st, name, args...)
		if !ok {
			return r.report(r.m[name], "analysis", trail, "%s", r.fail)
		}
		got := rets[0]
		if name == "GetCode" {
			got = r.x.content(s2, got)
		}
		if got != want {
			return r.report(r.m[name], "reads", trail, "%s of an account of the remote chain gives %s and not %s", name, clip(got.String(), 80), clip(want.String(), 80))
		}
		return true
	}
	for _, a := range []string{"d", "e"} {
		ac := ref.acc[a]
		code := cVec()
		if v := ref.code[a]; v != "" {
			code = cVec(mk("sym", v, byteT), mk("sym", v+"'", byteT))
		}
		empty := ref.balance(a).Sign() == 0 && ac.nonce == 0 && ref.code[a] == ""
		if a == "e" && !read("Exist", mkBool(true), acctConst(a)) {
			return false
		}
		if ref.code[a] != "" && !read("Exist", mkBool(true), acctConst(a)) {
			return false
		}
		if !read("GetNonce", mkInt(ac.nonce), acctConst(a)) ||
			!read("GetCodeSize", cLen(code), acctConst(a)) ||
			!read("GetCode", code, acctConst(a)) ||
			!read("Empty", mkBool(empty), acctConst(a)) {
			return false
		}
		want := cZeros(mkInt(32), zeroByte())
		if v := ref.slot[a+"/1"]; v != "" {
			want = unknownHash(v)
		}
		if !read("GetState", want, acctConst(a), slotConst("1")) {
			return false
		}
	}
	return true
}

// blocks mines on the fork and looks for the blocks
func (r *forkRun) blocks(st *State, trail string) bool {
	ex := r.m["Chain.Execute"]
	_, v, _, bad, ok := r.rpc(st, "eth_blockNumber")
	if !ok {
		return r.report(ex, "analysis", trail, "%s", r.fail)
	}
	for v != nil && v.op == "ptr" {
		v = v.args[0]
	}
	r.obs++
	if bad || v != mkInt(forkBlock+1) {
		return r.report(ex, "blocks", trail, "the pending block is %s and not the one after the fork's", clip(fmt.Sprint(v), 60))
	}
	var hash *T
	for i := int64(0); i < 3; i++ {
		for j := int64(1); j <= i+1; j++ {
			_, v, t, bad, ok := r.rpc(st, "eth_getBlockByNumber", cLit(fmt.Sprintf(`"0x%x"`, forkBlock+j)), cLit("false"))
			if !ok {
				return r.report(ex, "analysis", trail, "%s", r.fail)
			}
			r.obs++
			if bad || v == nil || dfield(v, t, "Number") != mkInt(forkBlock+j) {
				return r.report(ex, "blocks", trail, "after sealing %d blocks, block %d of the fork is not found", i, j)
			}
			if j == 1 {
				if hash == nil {
					hash = dfield(v, t, "Hash")
				}
				if hash != dfield(v, t, "Hash") {
					return r.report(ex, "blocks", trail, "the hash of block 1 of the fork changes when it is sealed")
				}
			}
		}
		st = st.clone()
		r.script = []vmScript{{left: 5}}
		s2, _, ok := r.do(st, r.m["Chain.Mine"], r.chain, r.txArg(st, "a", "b", "1"))
		if !ok {
			return r.report(r.m["Chain.Mine"], "analysis", trail, "%s", r.fail)
		}
		if s2, _, ok = r.do(s2, r.m["Chain.Seal"], r.chain); !ok {
			return r.report(r.m["Chain.Seal"], "analysis", trail, "%s", r.fail)
		}
		st = s2
	}
	return true
}
