package main

// C26: every RPC request to the test chain gets its answer.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C26"] = &CheckDef{
		title:     "The test chain answers every request, malformed ones with an error",
		technique: "static abstract interpretation over SSA of the RPC dispatcher for every method with well-formed, missing, surplus and malformed parameters; path enumeration of the HTTP handler",
		explanation: "Every method of the service is interpreted through Chain.Execute with valid parameters and with every kind of malformed ones: a malformed request has to give an error response with the request's ID, without a result, " +
			"without a panic and without any change of the chain. The HTTP handler is interpreted path by path.",
		assumptions: []string{"encoding/json decodes as documented and refuses text that is not JSON"},
		min:         300,
		run:         runDispatch,
	}
}

type dispatchRun struct {
	*chainRun
	hashes []*T
	before chainObs
	n      int
}

type rpcParam struct {
	kind string
	good []*T
	bad  []*T
}

func runDispatch(c *Check) {
	cr, st := c.newChainRun(chainMeths...)
	if cr == nil {
		return
	}
	r := &dispatchRun{chainRun: cr}
	ex := r.m["Chain.Execute"]
	st, hs, ok := r.build(st, "fund a 1000; SetState a 1; mine; seal; mine")
	if !ok {
		c.bad("analysis", "tevm.Chain", ex.Pos(), "%s", r.fail)
		return
	}
	r.hashes = hs
	if r.before, ok = r.observe(st, hs); !ok {
		c.bad("analysis", "tevm.Chain", ex.Pos(), "%s", r.fail)
		return
	}
	s2, _, _, bad, ok := r.rpc(st, "eth_newFilter", jObject("fromBlock", `"latest"`, "toBlock", `"latest"`))
	if !ok || bad {
		r.say(ex, "answers", "a filter cannot be installed: %s", r.fail)
		return
	}
	withFilter := s2
	hash := func(h *T) *T { return r.hashParam(st, h) }
	lits := func(s ...string) []*T {
		var out []*T
		for _, l := range s {
			out = append(out, cLit(l))
		}
		return out
	}
	addrBad := lits(`"0x"`, `"0x12"`, `5`, `"zz"`, `"`+"0x"+strings.Repeat("12", 21)+`"`, `"`+"0x"+strings.Repeat("zz", 20)+`"`)
	hashBad := lits(`"0x"`, `"0x12"`, `5`, `"zz"`, `"`+"0x"+strings.Repeat("12", 33)+`"`, `"`+"0x"+strings.Repeat("zz", 32)+`"`)
	numBad := lits(`"foo"`, `"0xzz"`, `"0xffffffffffffffff"`, `"0xfffffffffffffffe"`, `"0x8000000000000000"`, `"0x10000000000000000"`, `9223372036854775808`, `1.5`, `"`, `true`)
	call := func(kv ...interface{}) *T { return jObject(append([]interface{}{"from", jAcct("a")}, kv...)...) }
	params := map[string]rpcParam{
		"block": {"block", lits(`"pending"`, `"latest"`, `"0x64"`, `100`), numBad},
		"bool":  {"bool", lits(`true`, `false`), lits(`"x"`, `5`, `"true"`)},
		"hash":  {"hash", []*T{hash(hs[0])}, hashBad},
		"block hash": {"block hash", []*T{hash(mk("fn", "keccak256", nil,
			cCat(cVec(mkInt(100)), cZeros(mkInt(7), zeroByte()))))}, hashBad},
		"address": {"address", lits(jAcct("a"), jAcct("z")), addrBad},
		"id":      {"id", lits(`"0x1"`), lits(`"zz"`, `"0xzz"`, `true`)},
		"call": {"call", []*T{call("to", jAcct("b")), call("to", jAcct("b"), "data", `"0x0102"`, "value", `"0x5"`, "gas", `"0x100"`, "gasPrice", `"0x1"`), call()},
			[]*T{jObject("from", `"0x12"`), call("to", `"zz"`), call("data", `"xy"`), call("gas", `"0x10000000000000000"`), call("gas", `"gg"`), call("value", `"0xzz"`), call("gasPrice", `"-"`), cLit("5"), cLit(`"0x"`)}},
		"filter": {"filter", []*T{jObject("fromBlock", `"0x64"`, "toBlock", `"0x65"`), jObject("fromBlock", `"0x1"`, "toBlock", `"latest"`, "address", jAcct("l")), jObject("topics", mk("fn", "list", nil, cLit("null"), hash(hs[0])))},
			[]*T{jObject("fromBlock", `"foo"`), jObject("toBlock", `"0xffffffffffffffff"`), jObject("address", `"0x12"`), jObject("topics", mk("fn", "list", nil, cLit(`"0x12"`))), jObject("topics", `5`), cLit(`[]`), jObject("fromBlock", `"0x65"`, "toBlock", `"0x64"`)}},
	}
	methods := []struct {
		name   string
		params string
		writes bool
	}{
		{"eth_protocolVersion", "", false}, {"eth_syncing", "", false}, {"eth_gasPrice", "", false}, {"eth_blockNumber", "", false},
		{"eth_call", "call,block", false}, {"eth_estimateGas", "call,block", false}, {"eth_sendTransaction", "call", true},
		{"eth_getTransactionReceipt", "hash", false}, {"eth_getTransactionByHash", "hash", false}, {"eth_getBalance", "address,block", false},
		{"eth_getBlockByHash", "block hash,bool", false}, {"eth_getBlockByNumber", "block,bool", false},
		{"eth_newFilter", "filter", false}, {"eth_getFilterChanges", "id", false}, {"eth_getFilterLogs", "id", false}, {"eth_uninstallFilter", "id", false},
	}
	for _, m := range methods {
		var kinds []string
		if m.params != "" {
			kinds = strings.Split(m.params, ",")
		}
		good := func(skip int) []*T { // the first good value of every parameter
			var ps []*T
			for i, k := range kinds {
				if i != skip {
					ps = append(ps, params[k].good[0])
				}
			}
			return ps
		}
		ok := true
		for i, k := range kinds {
			for _, g := range params[k].good {
				ps := good(-1)
				ps[i] = g
				ok = ok && r.accepts(withFilter, m.name, m.writes, ps)
			}
			for _, b := range params[k].bad {
				ps := good(-1)
				ps[i] = b
				ok = ok && r.refuses(withFilter, m.name, fmt.Sprintf("a malformed %s %s", k, clip(showJSON(b), 60)), ps)
			}
			ok = ok && r.refuses(withFilter, m.name, "parameter "+fmt.Sprint(i)+" missing", good(i))
		}
		if len(kinds) == 0 {
			ok = ok && r.accepts(withFilter, m.name, false, nil)
		}
		ok = ok && r.refuses(withFilter, m.name, "a surplus parameter", append(good(-1), cLit("true"))) &&
			(len(kinds) < 2 || r.refuses(withFilter, m.name, "no parameters", nil))
		if !ok {
			return
		}
	}
	for _, m := range []string{"eth_nothing", "", "net_version", "eth_getBlockByNumber2"} {
		for _, ps := range [][]*T{nil, lits(`"latest"`), lits(`"latest"`, `true`)} {
			if !r.refuses(withFilter, m, "that is no method", ps) {
				return
			}
		}
	}
	for _, m := range []string{"eth_getFilterChanges", "eth_getFilterLogs"} {
		if !r.refuses(withFilter, m, "a filter that does not exist", lits(`"0x55"`)) {
			return
		}
	}
	for _, n := range []string{"0x1", "0x63", "0x66", "0x100000064", "0x7fffffffffffffff"} {
		at := cLit(`"` + n + `"`)
		if !r.refuses(withFilter, "eth_call", "the unknown block "+n, []*T{call("to", jAcct("b")), at}) ||
			!r.refuses(withFilter, "eth_estimateGas", "the unknown block "+n, []*T{call("to", jAcct("b")), at}) ||
			!r.refuses(withFilter, "eth_getBalance", "the unknown block "+n, []*T{cLit(jAcct("a")), at}) {
			return
		}
	}
	r.send(withFilter)
	c.obl += r.n
	c.done += r.n
	if !r.bad {
		c.runServe()
	}
}

func showJSON(t *T) string {
	if b, ok := constBytes(t); ok {
		return string(b)
	}
	var sb strings.Builder
	for _, a := range t.args {
		if s, ok := a.str(); ok {
			sb.WriteString(s + ":")
		} else {
			sb.WriteString(showJSON(a) + " ")
		}
	}
	return sb.String()
}

func (r *dispatchRun) say(fn *ssa.Function, rule, f string, a ...interface{}) bool {
	if !r.bad {
		r.c.bad(rule, "tevm.Chain", fn.Pos(), f, a...)
	}
	r.bad = true
	return false
}

func (r *dispatchRun) accepts(st *State, m string, writes bool, ps []*T) bool {
	ex := r.m["Chain.Execute"]
	what := m
	for _, p := range ps {
		what += " " + clip(showJSON(p), 60)
	}
	r.script = []vmScript{{left: 5}}
	s2, v, _, bad, ok := r.rpc(st, m, ps...)
	if !ok {
		return r.say(ex, "analysis", "%s: %s", what, r.fail)
	}
	r.n++
	if bad || v == nil {
		return r.say(ex, "answers", "%s is answered with an error or nothing", what)
	}
	return writes || r.same(s2, what)
}

func (r *dispatchRun) same(st *State, what string) bool {
	ex := r.m["Chain.Execute"]
	o, ok := r.observe(st, r.hashes)
	if !ok {
		return r.say(ex, "analysis", "after %s: %s", what, r.fail)
	}
	r.n++
	if d := r.before.differs(o); d != "" {
		return r.say(ex, "changes", "after %s, %s", what, d)
	}
	return true
}

func (r *dispatchRun) refuses(st *State, m, why string, ps []*T) bool {
	ex := r.m["Chain.Execute"]
	r.script, r.calls = []vmScript{{left: 5}}, nil
	s2, _, _, bad, ok := r.rpc(st, m, ps...)
	if !ok {
		return r.say(ex, "refuses", "%q with %s: %s", m, why, r.fail)
	}
	r.n++
	if !bad {
		return r.say(ex, "refuses", "%q with %s is accepted", m, why)
	}
	if len(r.calls) != 0 {
		return r.say(ex, "refuses", "%q with %s is executed", m, why)
	}
	return r.same(s2, fmt.Sprintf("%q with %s", m, why))
}

// send: a transaction that is sent is mined and sealed
func (r *dispatchRun) send(st *State) {
	ex := r.m["Chain.Execute"]
	arg := jObject("from", jAcct("a"), "to", jAcct("b"), "value", `"0x5"`, "gas", `"0x9000"`, "data", `"0x01"`)
	d, pt := r.pendingDeep(st)
	n0, _ := dfield(d, pt, "Number").i64()
	for _, fail := range []bool{false, true} {
		r.script, r.calls = []vmScript{{left: 5, fail: fail}}, nil
		s2, v, _, bad, ok := r.rpc(st, "eth_sendTransaction", arg)
		if !ok {
			r.say(ex, "analysis", "eth_sendTransaction: %s", r.fail)
			return
		}
		r.n += 4
		if len(r.calls) != 1 || r.calls[0].kind != "Call" || r.calls[0].caller != acctConst("a") || r.calls[0].to != acctConst("b") ||
			r.calls[0].gas != mkInt(0x9000) || r.calls[0].value != bigConst(big.NewInt(5)) || r.calls[0].input != cVec(mkInt(1)) {
			r.say(ex, "sends", "eth_sendTransaction does not execute the transaction that was sent")
			return
		}
		if bad != fail {
			r.say(ex, "sends", "eth_sendTransaction is answered with success=%v when its execution fails=%v", !bad, fail)
			return
		}
		if fail {
			continue
		}
		if v == nil {
			r.say(ex, "sends", "eth_sendTransaction gives no hash")
			return
		}
		d, pt := r.pendingDeep(s2)
		n1, _ := dfield(d, pt, "Number").i64()
		if n1 != n0+1 {
			r.say(ex, "sends", "after eth_sendTransaction the pending block is %d and not %d", n1, n0+1)
			return
		}
		for v.op == "ptr" {
			v = v.args[0]
		}
		for _, m := range []string{"eth_getTransactionByHash", "eth_getTransactionReceipt"} {
			_, x, _, bad, ok := r.rpc(s2, m, r.hashParam(s2, v))
			if !ok || bad || x == nil {
				r.say(ex, "sends", "%s does not find what eth_sendTransaction sent: %s", m, r.fail)
				return
			}
		}
	}
}

// ---- the HTTP handler ----

func (c *Check) runServe() {
	f := c.fn("tevm", "(*Chain).ServeHTTP")
	ex := c.fn("tevm", "(*Chain).Execute")
	if f == nil || ex == nil {
		return
	}
	x := c.w.newExec()
	x.maxDepth = 40
	var qt, at types.Type = deref(ex.Signature.Params().At(0).Type()), deref(ex.Signature.Params().At(1).Type())
	kinds := func(st *State, k string) []*Event {
		var out []*Event
		for _, e := range st.ev.slice(nil) {
			if e.kind == "call" && e.name == "serve:"+k {
				out = append(out, e)
			}
		}
		return out
	}
	emit := func(st *State, kind string, pos token.Pos, args ...*T) {
		st.ev = st.ev.push(&Event{kind: "call", name: "serve:" + kind, args: args, pos: pos, fn: f, mem: st.mem})
	}
	x.hook = func(fr *frame, st *State, fn *ssa.Function, nm string, args []*T, sig *types.Signature, pos token.Pos) ([]outcome, bool) {
		nm = short(nm)
		if os.Getenv("SA_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "serve:", nm, args)
		}
		fail := func(kind string, ok func(st *State), vals ...*T) []outcome {
			a, b := st.clone(), st.clone()
			emit(a, kind, pos, append([]*T{mkBool(true)}, vals...)...)
			emit(b, kind, pos, append([]*T{mkBool(false)}, vals...)...)
			if ok != nil {
				ok(a)
			}
			e := x.err(kind)
			b.facts = b.facts.push(mkNot(mkEq(e, mkNil(), errorT)))
			return []outcome{{st: a, rets: []*T{mkNil()}}, {st: b, rets: []*T{e}}}
		}
		switch {
		case fn == ex:
			return fail("execute", nil, args[1], args[2]), true
		case nm == "encoding/json.NewDecoder" || nm == "encoding/json.NewEncoder":
			return one(st, mk("fn", nm, sig.Results().At(0).Type(), args[0])), true
		case nm == "(*encoding/json.Decoder).Decode":
			v := args[1]
			if v.op != "iface" {
				return nil, false
			}
			return fail("decode", func(st *State) {
				if t := v.obj.(types.Type); types.Identical(deref(t), qt) {
					x.store(st, v.args[0], x.fresh("request", qt), qt)
				}
			}, v, args[0]), true
		case nm == "(*encoding/json.Encoder).Encode":
			return fail("encode", nil, args[1], args[0]), true
		case nm == "encoding/json.Unmarshal":
			v := args[1]
			if v.op != "iface" {
				return nil, false
			}
			return fail("decode", func(st *State) {
				if t := v.obj.(types.Type); types.Identical(deref(t), qt) {
					x.store(st, v.args[0], x.fresh("request", qt), qt)
				}
			}, v, args[0]), true
		case nm == "io.ReadAll" || nm == "io/ioutil.ReadAll":
			outs := fail("read", nil)
			outs[0].rets = []*T{x.newBytes(outs[0].st, mk("sym", "text", nil), types.NewSlice(byteT)), mkNil()}
			outs[1].rets = []*T{mkNil(), outs[1].rets[0]}
			return outs, true
		case nm == "(net/http.ResponseWriter).Write" || strings.HasSuffix(nm, "ResponseWriter.Write"):
			emit(st, "write", pos, args[1])
			return one(st, x.fresh("written", types.Typ[types.Int]), mkNil()), true
		case nm == "encoding/json.Marshal":
			if v := args[0]; v.op == "iface" {
				outs := fail("encode", nil, v, mkNil())
				outs[0].rets = []*T{x.newBytes(outs[0].st, mk("fn", "json", nil, v.args[0]), types.NewSlice(byteT)), mkNil()}
				outs[1].rets = []*T{mkNil(), outs[1].rets[0]}
				return outs, true
			}
		case nm == "(net/http.ResponseWriter).WriteHeader" || strings.HasSuffix(nm, ".WriteHeader"):
			emit(st, "status", pos, args[1])
			return one(st), true
		case nm == "net/http.Error":
			emit(st, "status", pos, args[2])
			return one(st), true
		case strings.HasSuffix(nm, ".Close"):
			emit(st, "close", pos)
			return one(st, x.fresh("closeerr", errorT)), true
		case strings.HasPrefix(nm, "log."):
			return one(st), true
		}
		return nil, false
	}
	var params []*T
	for _, p := range f.Params {
		params = append(params, mk("sym", p.Name(), p.Type()))
	}
	outs := x.runFunc(f, params, nil, &State{mem: c.w.globalInit})
	if x.failed != "" {
		c.bad("analysis", fnName(f), f.Pos(), "%s", x.failed)
		return
	}
	c.ob("paths", fnName(f), f.Pos(), len(outs) >= 3, "only %d paths were found", len(outs))
	for _, o := range outs {
		if o.panic {
			c.bad("handler", fnName(f), f.Pos(), "the handler can panic")
			continue
		}
		dec, exe, enc, sta, clo := kinds(o.st, "decode"), kinds(o.st, "execute"), kinds(o.st, "encode"), kinds(o.st, "status"), kinds(o.st, "close")
		good := func(es []*Event) bool { return len(es) == 1 && es[0].args[0].isTrue() }
		c.ob("handler", fnName(f), f.Pos(), len(clo) > 0, "the body of the request is left open on a path")
		if rd := kinds(o.st, "read"); len(rd) == 1 && !good(rd) {
			c.ob("handler", fnName(f), f.Pos(), len(exe)+len(enc) == 0 && len(sta) == 1, "a request that cannot be read is not refused with a status")
			continue
		}
		c.ob("handler", fnName(f), f.Pos(), len(dec) == 1, "the request is decoded %d times", len(dec))
		if len(dec) != 1 {
			continue
		}
		dv := dec[0].args[1]
		c.ob("handler", fnName(f), f.Pos(), dv.op == "iface" && types.Identical(deref(dv.obj.(types.Type)), qt), "something other than a request is decoded")
		if !good(dec) {
			c.ob("handler", fnName(f), f.Pos(), len(exe) == 0, "a request that cannot be decoded is executed")
			c.ob("handler", fnName(f), f.Pos(), len(enc) == 0 && len(sta) == 1, "a request that cannot be decoded is not refused with a status")
		} else {
			c.ob("handler", fnName(f), f.Pos(), len(exe) == 1, "a request is executed %d times", len(exe))
			if len(exe) != 1 {
				continue
			}
			c.ob("handler", fnName(f), f.Pos(), exe[0].args[1] == dv.args[0], "the request that is executed is not the one that was decoded")
			if good(exe) {
				c.ob("handler", fnName(f), f.Pos(), len(enc) == 1, "the response is encoded %d times", len(enc))
				if len(enc) == 1 {
					ev := enc[0].args[1]
					ok := ev.op == "iface" && (ev.args[0] == exe[0].args[2] || !isPtr(ev.obj.(types.Type)) && types.Identical(ev.obj.(types.Type), at))
					c.ob("handler", fnName(f), f.Pos(), ok, "what is encoded is not the response of the execution")
					c.ob("handler", fnName(f), f.Pos(), !good(enc) || !enc[0].args[2].isNil() || len(kinds(o.st, "write")) == 1, "the response is not written")
					c.ob("handler", fnName(f), f.Pos(), good(enc) || len(sta) > 0, "a response that cannot be encoded goes unnoticed")
					c.ob("handler", fnName(f), f.Pos(), !good(enc) || len(sta) == 0 || statusOK(sta), "a response is sent with an error status")
				}
			} else {
				c.ob("handler", fnName(f), f.Pos(), len(enc) == 0 && len(sta) == 1, "a request whose execution fails is not refused with a status")
			}
		}
		for _, s := range sta {
			n, ok := s.args[0].i64()
			if len(enc) == 0 || !good(enc) {
				c.ob("handler", fnName(f), s.pos, ok && n >= 400 && n < 600, "a failure is reported with the status %s", s.args[0])
			}
		}
	}
}

func statusOK(es []*Event) bool {
	for _, e := range es {
		if n, ok := e.args[0].i64(); !ok || n != 200 {
			return false
		}
	}
	return true
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }
