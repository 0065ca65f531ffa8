package main

// The client side of the RPC protocol: what each method sends, and what it
// makes of the answer.

import (
	"go/types"
	"strings"
)

const execName = "(seth.Transport).Execute"

// rpcCall is one request handed to the transport
type rpcCall struct {
	ev     *Event
	method *T
	params []*T // contents of the raw parameters; nil if not enumerable
	nparam *T
	resp   *T
	err    *T
	id     *T
	ver    *T
}

func (c *Check) rpcCalls(x *Exec, evs []*Event) (out []*rpcCall) {
	reqT := c.w.Type("", "RPCRequest")
	for _, e := range evs {
		if e.kind != "call" || e.name != execName {
			continue
		}
		st := e.st.clone()
		req := e.args[len(e.args)-2]
		r := &rpcCall{ev: e, resp: e.args[len(e.args)-1], err: e.res[0]}
		r.method = x.fieldVal(st, req, reqT, "Method")
		r.ver = x.fieldVal(st, req, reqT, "Version")
		r.id = x.fieldVal(st, req, reqT, "ID")
		ps := x.fieldVal(st, req, reqT, "Params")
		r.nparam = x.sliceLen(ps)
		if n, ok := r.nparam.i64(); ok {
			pc := x.content(st, ps)
			for i := int64(0); i < n; i++ {
				r.params = append(r.params, x.content(st, cSel(pc, mkInt(i), nil)))
			}
		}
		out = append(out, r)
	}
	return
}

// jsonEq: do two content terms denote the same JSON text? Pointers are
// transparent to the encoder.
func jsonNorm(t *T) *T {
	switch t.op {
	case "iface":
		n := strings.TrimLeft(t.aux, "*")
		v := t.args[0]
		for v.op == "ptr" {
			v = v.args[0]
		}
		return mk("jv", n, nil, jsonNorm(v))
	case "ptr":
		return jsonNorm(t.args[0])
	}
	if len(t.args) == 0 || t.op == "mem" || t.op == "faddr" || t.op == "lin" {
		return t
	}
	as := make([]*T, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = jsonNorm(a)
		if as[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	return mk(t.op, t.aux, t.typ, as...)
}

func jsonOf(x *Exec, st *State, v *T, typ types.Type) *T {
	if v.op != "iface" && typ != nil {
		if _, ok := typ.Underlying().(*types.Interface); !ok {
			v = mkIface(typ, v)
		}
	}
	return mk("fn", "json", nil, x.deep(st, v, nil, 0))
}

func isLit(c *T, s string) bool { return c == cLit(s) }

// isQuantity: is c the JSON text of the quantity v?
func isQuantity(p *Path, c, v *T) bool {
	if c == cCat(cLit(`"0x`), fmtIntB(v, mkInt(16)), cLit(`"`)) {
		return true
	}
	if k, ok := knownInt(p, v); ok && c == cCat(cLit(`"0x`), fmtIntB(mkInt(k), mkInt(16)), cLit(`"`)) {
		return true
	}
	if c.op == "fn" && c.aux == "json" {
		n := jsonNorm(c.args[0])
		if n.op == "jv" && (strings.HasSuffix(n.aux, "seth.Uint64") || strings.HasSuffix(n.aux, "seth.Int")) {
			a := n.args[0]
			if a.op == "big" && a.aux == "ofint" {
				a = a.args[0]
			}
			return stripConv(a) == stripConv(v)
		}
	}
	return false
}

func stripConv(t *T) *T {
	for t.op == "conv" && (t.aux == "i64" || t.aux == "u64") {
		t = t.args[0]
	}
	return t
}

// knownInt: does the path fix the value of v?
func knownInt(p *Path, v *T) (int64, bool) {
	if k, ok := v.i64(); ok {
		return k, true
	}
	for _, f := range p.Facts {
		if f.op == "eq" && f.args[0] == v {
			if k, ok := f.args[1].i64(); ok {
				return k, true
			}
		}
	}
	return 0, false
}

// isBlock: is c the JSON block selector for v: the three names, or the number
func isBlock(p *Path, c, v *T) bool {
	is := func(k int64) bool { return p.holds(mkEq(v, mkInt(k), types.Typ[types.Int64])) }
	not := func(k int64) bool { return p.holds(mkNot(mkEq(v, mkInt(k), types.Typ[types.Int64]))) }
	switch {
	case isLit(c, `"pending"`):
		return is(-2)
	case isLit(c, `"latest"`):
		return is(-1)
	case isLit(c, `"earliest"`):
		return is(0)
	}
	return not(-2) && not(-1) && isQuantity(p, c, v)
}

// infeasible: the path contradicts itself (value combinations that cannot be)
func (c *Check) clientConf(x *Exec) {}

type paramSpec func(c *Check, x *Exec, p *Path, r *rpcCall, got *T, args []*T) bool

func pJSON(i int) paramSpec {
	return func(c *Check, x *Exec, p *Path, r *rpcCall, got *T, args []*T) bool {
		want := jsonOf(x, r.ev.st, args[i], args[i].typ)
		return jsonNorm(got) == jsonNorm(want)
	}
}

func pBlock(i int) paramSpec {
	return func(c *Check, x *Exec, p *Path, r *rpcCall, got *T, args []*T) bool {
		return isBlock(p, got, args[i])
	}
}

func pBlockK(k int64) paramSpec {
	return func(c *Check, x *Exec, p *Path, r *rpcCall, got *T, args []*T) bool {
		return isBlock(p, got, mkInt(k))
	}
}

func pLit(s string) paramSpec {
	return func(c *Check, x *Exec, p *Path, r *rpcCall, got *T, args []*T) bool { return isLit(got, s) }
}

func pBool(i int) paramSpec {
	return func(c *Check, x *Exec, p *Path, r *rpcCall, got *T, args []*T) bool {
		return isLit(got, "true") && p.holds(args[i]) || isLit(got, "false") && p.holds(mkNot(args[i])) ||
			jsonNorm(got) == jsonNorm(jsonOf(x, r.ev.st, args[i], args[i].typ))
	}
}

// pPendingOr: "pending" if the flag is set, else "latest"
func pPendingOr(i int) paramSpec {
	return func(c *Check, x *Exec, p *Path, r *rpcCall, got *T, args []*T) bool {
		return isLit(got, `"pending"`) && p.holds(args[i]) || isLit(got, `"latest"`) && p.holds(mkNot(args[i]))
	}
}

// pDataOf: the raw bytes of the argument as hex data
func pDataOf(i int) paramSpec {
	return func(c *Check, x *Exec, p *Path, r *rpcCall, got *T, args []*T) bool {
		if got.op != "fn" || got.aux != "json" {
			return false
		}
		n := jsonNorm(got.args[0])
		if n.op != "jv" || !(strings.HasSuffix(n.aux, "seth.Data") || strings.HasSuffix(n.aux, "seth.Bytes")) {
			return false
		}
		return n.args[0] == args[i] || n.args[0].op == "bytes" && n.args[0].args[0] == x.content(r.ev.st, args[i])
	}
}

type clientSpec struct {
	name   string
	method string
	params []paramSpec
	target []string // acceptable types to decode the result into
	ret    string   // ptr val i64 none special
}

var qty = []string{"*seth.Int", "*seth.Uint64"}
var hashT = []string{"*seth.Hash"}

var clientSpecs = []clientSpec{
	{"ProtocolVersion", "eth_protocolVersion", nil, []string{"*string"}, "val"},
	{"Syncing", "eth_syncing", nil, []string{"*encoding/json.RawMessage"}, "special"},
	{"Coinbase", "eth_coinbase", nil, []string{"*seth.Address"}, "ptr"},
	{"Mining", "eth_mining", nil, []string{"*bool"}, "val"},
	{"Hashrate", "eth_hashrate", nil, qty, "i64"},
	{"GasPrice", "eth_gasPrice", nil, qty, "i64"},
	{"Accounts", "eth_accounts", nil, []string{"*[]seth.Address"}, "val"},
	{"BlockNumber", "eth_blockNumber", nil, qty, "i64"},
	{"Pending", "eth_getBlockByNumber", []paramSpec{pBlockK(-2), pLit("true")}, []string{"*seth.Block"}, "special"},
	{"GetNonceAt", "eth_getTransactionCount", []paramSpec{pJSON(1), pBlock(2)}, qty, "i64"},
	{"GetNonce", "eth_getTransactionCount", []paramSpec{pJSON(1), pBlockK(-1)}, qty, "i64"},
	{"GetBalanceAt", "eth_getBalance", []paramSpec{pJSON(1), pBlock(2)}, []string{"*seth.Int"}, "val"},
	{"GetBalance", "eth_getBalance", []paramSpec{pJSON(1), pBlockK(-1)}, []string{"*seth.Int"}, "val"},
	{"GetBlock", "eth_getBlockByNumber", []paramSpec{pBlock(1), pBool(2)}, []string{"*seth.Block"}, "ptr"},
	{"Latest", "eth_getBlockByNumber", []paramSpec{pBlockK(-1), pBool(1)}, []string{"*seth.Block"}, "ptr"},
	{"GetTransaction", "eth_getTransactionByHash", []paramSpec{pJSON(1)}, []string{"*seth.Transaction"}, "ptr"},
	{"GetReceipt", "eth_getTransactionReceipt", []paramSpec{pJSON(1)}, []string{"*seth.Receipt"}, "ptr"},
	{"GetCodeAt", "eth_getCode", []paramSpec{pJSON(1), pBlock(2)}, []string{"*seth.Data", "*seth.Bytes"}, "val"},
	{"GetCode", "eth_getCode", []paramSpec{pJSON(1), pBlockK(-1)}, []string{"*seth.Data", "*seth.Bytes"}, "val"},
	{"Call", "eth_sendTransaction", []paramSpec{pJSON(1)}, hashT, "val"},
	{"RawCall", "eth_sendRawTransaction", []paramSpec{pDataOf(1)}, hashT, "val"},
	{"EstimateGas", "eth_estimateGas", []paramSpec{pJSON(1), pBlockK(-2)}, []string{"*seth.Int"}, "val"},
	{"ConstCall", "eth_call", []paramSpec{pJSON(1), pPendingOr(3)}, nil, "none"},
	{"ConstCallAt", "eth_call", []paramSpec{pJSON(1), pBlock(3)}, nil, "none"},
	{"StorageAt", "eth_getStorageAt", []paramSpec{pJSON(1), pJSON(2), pBlock(3)}, hashT, "val"},
	{"UnlockAccount", "personal_unlockAccount", []paramSpec{pJSON(1), pJSON(2), pLit(`"0x0"`)}, []string{"*bool"}, "special"},
}

func init() {
	checks["C02"] = &CheckDef{
		title:       "A failed request never looks successful",
		technique:   "abstract interpretation over SSA: error values traced through every inlined path of every request method",
		explanation: "Every path through every request method of the client and through the transports is interpreted with the transport call, the answer and the decoder unknown. A path may report success only if the path's own branch conditions establish that the transport returned no error, the answer holds neither an error object nor null, and decoding succeeded; for the HTTP transports, that the exchange succeeded with status 200 and the body was decoded. Error objects are handed on with all their fields; response bodies are closed.",
		assumptions: []string{"encoding/json, net/http and sync behave as documented"},
		min:         150,
		run:         ruleC02,
	}
	checks["C03"] = &CheckDef{
		title:       "Each client method asks the node exactly what it was asked",
		technique:   "abstract interpretation over SSA: request contents as value-numbered terms compared with the protocol's parameter layout",
		explanation: "For every request method of the client, the method name, the number, order and text of the parameters and the type the answer is decoded into are computed on every path (as terms over the arguments) and compared with the Ethereum JSON-RPC parameter layout; block selectors must be the name or number the argument selects, as established by the path's branch conditions; the value returned must be the one decoded from the answer.",
		assumptions: []string{"encoding/json writes a value as its documented text", "strconv and sync/atomic behave as documented"},
		min:         200,
		run:         ruleC03,
	}
}

func (c *Check) clientRes(name string) *Result {
	f := c.fn("", "(*Client)."+name)
	if f == nil {
		return nil
	}
	if memo == nil {
		memo = map[string]*Result{}
	}
	if r, ok := memo[name]; ok {
		return r
	}
	r := c.analyze(f, nil)
	memo[name] = r
	return r
}

var memo map[string]*Result

func (c *Check) errNotFound() *T {
	g := c.w.Global("", "ErrNotFound")
	if g == nil {
		return nil
	}
	v, _ := c.w.globalInit.get(c.w.global(g))
	return v
}

func ruleC03(c *Check) {
	for _, s := range clientSpecs {
		r := c.clientRes(s.name)
		if r == nil {
			continue
		}
		x := r.X
		for _, p := range r.Paths {
			if p.Kind != "return" {
				c.bad("paths", s.name, p.Pos, "the method can panic")
				continue
			}
			rs := c.rpcCalls(x, p.Events)
			errT := p.Ret[len(p.Ret)-1]
			if !c.ob("one-request", s.name, p.Pos, len(rs) == 1, "a path makes %d requests", len(rs)) {
				continue
			}
			q := rs[0]
			c.ob("method", s.name, q.ev.pos, q.method == mkStr(s.method), "the request is %s, not %s", q.method, s.method)
			c.ob("version", s.name, q.ev.pos, q.ver == mkStr("2.0"), "the protocol version is %s", q.ver)
			if n, ok := q.nparam.i64(); !c.ob("arity", s.name, q.ev.pos, ok && int(n) == len(s.params), "the request has %s parameters instead of %d", q.nparam, len(s.params)) {
				_ = n
				continue
			}
			for i, f := range s.params {
				c.ob("parameter", s.name, q.ev.pos, f(c, x, p, q, q.params[i], r.Params), "parameter %d is %s", i+1, q.params[i])
			}
			// the answer
			um := lastUnmarshal(p)
			if um == nil {
				c.ob("decode", s.name, p.Pos, p.isNonNil(errT), "a path returns success without decoding the answer")
				continue
			}
			if s.target != nil {
				tn := ""
				first := firstUnmarshal(p)
				if first.args[1].op == "iface" {
					tn = typeName(first.args[1].obj.(types.Type))
				}
				c.ob("decode-as", s.name, um.pos, oneOf(tn, s.target), "the answer is decoded as %s", tn)
			} else {
				c.ob("decode-as", s.name, um.pos, um.args[1] == r.Params[2], "the answer is not decoded into the caller's value")
			}
			if !p.isNil(errT) {
				continue
			}
			tgt := um.args[1]
			if tgt.op == "iface" {
				tgt = tgt.args[0]
			}
			st := p.St.clone()
			switch s.ret {
			case "ptr":
				c.ob("result", s.name, p.Pos, p.Ret[0] == tgt || sameCells(x, st, p.Ret[0], tgt), "the value returned is not the decoded answer")
			case "val":
				want := x.load(st, tgt, deref(um.args[1].obj.(types.Type)))
				c.ob("result", s.name, p.Pos, p.Ret[0] == want || p.Ret[0].isNil() && want.isNil(), "the value returned (%s) is not the decoded answer (%s)", p.Ret[0], want)
			case "i64":
				want := x.load(st, tgt, deref(um.args[1].obj.(types.Type)))
				g := p.Ret[0]
				ok := stripConv(g) == stripConv(want)
				if g.op == "fn" && (g.aux == "big.int64" || g.aux == "big.uint64") && g.args[0] == want {
					ok = true
				}
				c.ob("result", s.name, p.Pos, ok, "the value returned (%s) is not the decoded answer (%s)", g, want)
			}
			switch s.name {
			case "UnlockAccount":
				want := x.load(st, tgt, types.Typ[types.Bool])
				c.ob("denied", s.name, p.Pos, p.holds(want), "a refused unlock is reported as success")
			}
		}
		if s.name == "Syncing" {
			c.syncing(r)
		}
	}
	c.filterParams()
}

func sameCells(x *Exec, st *State, a, b *T) bool {
	return x.deep(st, a, a.typ, 0) == x.deep(st, b, b.typ, 0) && a.op == "alloc" && b.op == "alloc"
}

func firstUnmarshal(p *Path) *Event {
	for _, e := range p.Events {
		if e.kind == "call" && e.name == "encoding/json.Unmarshal" {
			return e
		}
	}
	return nil
}

// lastUnmarshal: the decoding of the answer outside loops
func lastUnmarshal(p *Path) *Event { return firstUnmarshal(p) }

// syncing: false means not syncing, an object is the status
func (c *Check) syncing(r *Result) {
	x := r.X
	for _, p := range r.Paths {
		if p.Kind != "return" || !p.isNil(p.Ret[1]) {
			continue
		}
		var us []*Event
		for _, e := range p.Events {
			if e.kind == "call" && e.name == "encoding/json.Unmarshal" {
				us = append(us, e)
			}
		}
		if p.isNil(p.Ret[0]) {
			ok := false
			for _, f := range p.Facts {
				if f.op == "eq" && f.args[1] == mkStr("false") {
					ok = true
				}
			}
			c.ob("not-syncing", "Syncing", p.Pos, ok, "a node is reported as not syncing without it having said so")
			continue
		}
		ok := len(us) == 2 && us[1].args[1].op == "iface" && us[1].args[1].args[0] == p.Ret[0]
		c.ob("status", "Syncing", p.Pos, ok, "the status is not the one the node sent")
		_ = x
	}
}

func ruleC02(c *Check) {
	nf := c.errNotFound()
	if nf == nil {
		c.bad("anchor", "ErrNotFound", 0, "there is no not-found error any more")
		return
	}
	respT := c.w.Type("", "RPCResponse")
	errTy := c.w.Type("", "RPCError")
	names := []string{"Do"}
	for _, s := range clientSpecs {
		names = append(names, s.name)
	}
	names = append(names, "FilterTopics", "TokenTransfers")
	for _, n := range names {
		r := c.clientRes(n)
		if r == nil {
			continue
		}
		x := r.X
		for _, p := range r.Paths {
			if p.Kind != "return" {
				c.bad("paths", n, p.Pos, "the method can panic")
				continue
			}
			ret := p.Ret[len(p.Ret)-1]
			rs := c.rpcCalls(x, p.Events)
			if len(rs) == 0 {
				c.ob("no-request", n, p.Pos, p.isNonNil(ret), "a path returns success without a request")
				continue
			}
			q := rs[len(rs)-1]
			if !p.isNil(q.err) {
				c.ob("transport-error", n, q.ev.pos, p.isNonNil(ret) || ret == q.err, "the transport's error is dropped")
				continue
			}
			// the answer as the transport left it
			st := q.ev.st.clone()
			after := afterState(x, p, q.ev)
			if after != nil {
				st = after
			}
			e := x.load(st, fieldAddrOf(q.resp, respT, "Error"), errTy)
			code := structField(e, errTy, 0)
			msg := structField(e, errTy, 1)
			res := x.content(st, x.fieldVal(st, q.resp, respT, "Result"))
			noErr := p.holds(mkEq(code, mkInt(0), intT)) && p.holds(mkEq(msg, mkStr(""), strT()))
			isErr := p.refutes(mkEq(code, mkInt(0), intT), mkEq(msg, mkStr(""), strT()))
			isNull := mkEq(mkString(res), mkStr("null"), strT())
			um := firstUnmarshal(p)
			switch {
			case isErr:
				ok := ret.op == "iface" && ret.aux == "*"+modPath+".RPCError"
				if ok {
					ok = x.load(p.St.clone(), ret.args[0], errTy) == e
				}
				c.ob("error-object", n, p.Pos, ok, "the error in the answer is not handed to the caller as it is")
			case p.holds(isNull):
				c.ob("null", n, p.Pos, ret == nf, "a null answer is not reported as not found")
			default:
				if p.isNonNil(ret) && um == nil {
					c.bad("spurious-error", n, p.Pos, "an answer with a result is turned into an error without being decoded")
					continue
				}
				c.ob("looked-at", n, p.Pos, noErr && p.holds(mkNot(isNull)), "an answer is used without checking it for an error object and for null")
				if um == nil {
					c.bad("not-decoded", n, p.Pos, "an answer is not decoded")
					continue
				}
				if um.args[0] != res {
					c.bad("decoded-other", n, um.pos, "what is decoded is not the result in the answer")
				}
				derr := um.res[0]
				okFact := pure("unjsonok", boolT(), um.args[0], mkStr(ifaceType(um.args[1])))
				c.ob("decode-error", n, p.Pos, p.holds(okFact) || p.isNonNil(ret), "a failure to decode the answer is dropped")
				_ = derr
			}
			// every later decoding is looked at as well
			walkEvents(p.Events, func(e *Event, it *Path) {
				if e.kind == "call" && e.name == "encoding/json.Unmarshal" && e != um && it == nil {
					okFact := pure("unjsonok", boolT(), e.args[0], mkStr(ifaceType(e.args[1])))
					c.ob("decode-error", n, e.pos, p.holds(okFact) || p.isNonNil(ret), "a failure to decode a part of the answer is dropped")
				}
				if e.kind == "call" && e.name == "encoding/json.Unmarshal" && it != nil {
					okFact := pure("unjsonok", boolT(), e.args[0], mkStr(ifaceType(e.args[1])))
					c.ob("decode-error", n, e.pos, it.holds(okFact), "a failure to decode an element of the answer is dropped")
				}
			})
		}
	}
	c.httpTransports()
	c.readerOutcome(nf)
}

// afterState: the memory right after the event, seen from the next event
func afterState(x *Exec, p *Path, ev *Event) *State {
	for i, e := range p.Events {
		if e == ev && i+1 < len(p.Events) && p.Events[i+1].st != nil {
			return p.Events[i+1].st.clone()
		}
	}
	return p.St.clone()
}

// httpTransports: success only with a 200 answer that was decoded
func (c *Check) httpTransports() {
	for _, tn := range []string{"(*HTTPTransport)", "(InfuraTransport)"} {
		f := c.fn("", tn+".Execute")
		r := c.analyze(f, nil)
		if r == nil {
			continue
		}
		x := r.X
		res := r.Params[len(r.Params)-1]
		for _, p := range r.Paths {
			n := tn + ".Execute"
			if p.Kind != "return" {
				c.bad("paths", n, p.Pos, "the transport can panic")
				continue
			}
			ret := p.Ret[0]
			var http, dec, cl *Event
			for _, e := range p.Events {
				if e.kind != "call" {
					continue
				}
				switch {
				case strings.HasPrefix(e.name, "net/http.") || strings.HasPrefix(e.name, "(*net/http.Client)."):
					http = e
				case e.name == "(*encoding/json.Decoder).Decode":
					dec = e
				case strings.HasSuffix(e.name, ".Close"):
					cl = e
				}
			}
			if http == nil {
				c.ob("http-none", n, p.Pos, p.isNonNil(ret), "success is reported without an exchange")
				continue
			}
			herr := http.res[1]
			if !p.isNil(herr) {
				c.ob("http-error", n, http.pos, p.isNonNil(ret), "a failed exchange is dropped")
				continue
			}
			hres := http.res[0]
			body := mk("x", "", nil)
			_ = body
			c.ob("http-close", n, http.pos, cl != nil && strings.Contains(cl.args[0].String(), hres.String()), "the body of an answer is not closed")
			st := afterState(x, p, http)
			code := x.fieldVal(st, hres, deref(hres.typ), "StatusCode")
			if p.holds(mkNot(mkEq(code, mkInt(200), intT))) {
				c.ob("http-status", n, p.Pos, p.isNonNil(ret), "an answer with a status other than 200 is treated as success")
				continue
			}
			if p.isNonNil(ret) && dec == nil {
				c.bad("http-200", n, p.Pos, "an answer with status 200 is refused")
				continue
			}
			c.ob("http-status", n, p.Pos, p.holds(mkEq(code, mkInt(200), intT)), "the status of the answer is not looked at")
			if dec == nil {
				// another way to decode
				u := firstUnmarshal(p)
				ok := u != nil && u.args[1].op == "iface" && u.args[1].args[0] == res
				if ok && !p.isNonNil(ret) {
					ok = p.holds(pure("unjsonok", boolT(), u.args[0], mkStr(ifaceType(u.args[1]))))
				}
				c.ob("http-decode", n, p.Pos, ok, "the body is not decoded into the caller's response")
				continue
			}
			ok := dec.args[1].op == "iface" && dec.args[1].args[0] == res
			c.ob("http-decode", n, dec.pos, ok, "the body is not decoded into the caller's response")
			c.ob("http-decode-error", n, dec.pos, ret == dec.res[0] || p.isNil(dec.res[0]) && p.isNil(ret) || p.isNonNil(dec.res[0]) && p.isNonNil(ret), "an unreadable body is reported as success")
		}
	}
}

// readerOutcome: what the reader goroutine records for a request
func (c *Check) readerOutcome(nf *T) {
	s := findRPC(c)
	if s == nil {
		return
	}
	ex := c.analyze(c.fn("", "(*RPCTransport).Execute"), storeConf)
	if ex == nil {
		return
	}
	respT := c.w.Type("", "RPCResponse")
	errTy := c.w.Type("", "RPCError")
	for _, f := range goTargets(ex) {
		bg := c.analyze(f, storeConf)
		if bg == nil {
			continue
		}
		x := bg.X
		for _, p := range bg.Paths {
			walkEvents(p.Events, func(le *Event, _ *Path) {
				if le.kind != "loop" {
					return
				}
				for _, it := range le.loop.iters {
					var dec *Event
					var errV *T
					var errSt *State
					var whole bool
					woken := false
					for _, e := range it.Events {
						switch e.kind {
						case "call":
							if e.name == "(*encoding/json.Decoder).Decode" {
								dec = e
							}
						case "store":
							if s.of(e.args[0], s.err) != nil {
								errV, errSt = e.args[1], e.st.clone()
							}
							for a := e.args[0]; a.op == "faddr" || a.op == "mem"; {
								if s.of(a, s.res) != nil {
									whole = true
								}
								if a.op == "mem" {
									break
								}
								a = a.args[0]
							}
						case "close":
							if s.of(e.args[0], s.notify) != nil {
								woken = true
							}
						}
					}
					if !woken || dec == nil {
						continue
					}
					target := dec.args[1]
					if target.op == "iface" {
						target = target.args[0]
					}
					st := afterState(x, it, dec)
					e := x.load(st, fieldAddrOf(target, respT, "Error"), errTy)
					code, msg := structField(e, errTy, 0), structField(e, errTy, 1)
					isErr := it.refutes(mkEq(code, mkInt(0), intT), mkEq(msg, mkStr(""), strT()))
					n := fnName(f)
					switch {
					case errV != nil && errV.op == "iface":
						c.ob("reader-error", n, le.pos, isErr && x.load(errSt, errV.args[0], errTy) == e, "the error recorded for a request is not the one in its answer")
					case errV != nil:
						c.ob("reader-null", n, le.pos, errV == nf && it.holds(mkEq(code, mkInt(0), intT)) && it.holds(mkEq(msg, mkStr(""), strT())) && saysNull(it, x.fieldVal(st, target, respT, "Result")), "a request is failed although its answer has a result")
					default:
						c.ob("reader-result", n, le.pos, whole, "the answer is not recorded for the request")
					}
				}
			})
		}
	}
}

// saysNull: has the path found the raw text to be null?
func saysNull(p *Path, raw *T) bool {
	for _, f := range p.Facts {
		if f.op == "eq" && f.args[1] == mkStr("null") && f.args[0].has(raw) {
			return true
		}
	}
	return false
}

// filterParams: the request that creates a log filter
func (c *Check) filterParams() {
	r := c.clientRes("FilterTopics")
	if r != nil {
		x := r.X
		for _, p := range r.Paths {
			rs := c.rpcCalls(x, p.Events)
			if len(rs) == 0 {
				continue
			}
			q := rs[0]
			c.filterRequest("FilterTopics", x, p, q, r.Params[2], r.Params[3], r.Params[4], func(t *T) bool {
				want := x.deep(q.ev.st, r.Params[1], r.Params[1].typ, 0)
				return jsonNorm(t) == jsonNorm(want)
			})
		}
	}
	r = c.clientRes("TokenTransfers")
	if r != nil {
		x := r.X
		from, to, tok := r.Params[1], r.Params[2], r.Params[3]
		sig, _ := c.w.globalInit.get(c.w.global(c.w.Global("", "ERC20Transfer")))
		for _, p := range r.Paths {
			rs := c.rpcCalls(x, p.Events)
			if len(rs) == 0 {
				continue
			}
			q := rs[0]
			st := q.ev.st
			pad := func(a *T) *T {
				return cCat(cZeros(mkInt(12), zeroByte()), x.load(st.clone(), a, deref(a.typ)))
			}
			c.filterRequest("TokenTransfers", x, p, q, tok, r.Params[4], r.Params[5], func(t *T) bool {
				if t.op != "bytes" || t.args[0].op != "vec" || len(t.args[0].args) != 3 {
					return false
				}
				v := t.args[0].args
				one := func(got, a *T) bool {
					if p.isNil(a) {
						return got.isNil()
					}
					return p.isNonNil(a) && jsonNorm(got) == jsonNorm(pad(a))
				}
				return sig != nil && jsonNorm(v[0]) == jsonNorm(sig) && one(v[1], from) && one(v[2], to)
			})
		}
	}
}

// tagged: the field of a struct term with the JSON name
func tagged(t *T, typ types.Type, name string) *T {
	s, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if jsonTag(s, i) == name {
			return structField(t, typ, i)
		}
	}
	return nil
}

func jsonTag(s *types.Struct, i int) string {
	tag := s.Tag(i)
	k := strings.Index(tag, `json:"`)
	if k < 0 {
		return s.Field(i).Name()
	}
	tag = tag[k+6:]
	tag = tag[:strings.IndexByte(tag, '"')]
	if j := strings.IndexByte(tag, ','); j >= 0 {
		tag = tag[:j]
	}
	return tag
}

func (c *Check) filterRequest(n string, x *Exec, p *Path, q *rpcCall, addr, start, end *T, topics func(*T) bool) {
	c.ob("method", n, q.ev.pos, q.method == mkStr("eth_newFilter"), "the request is %s", q.method)
	if !c.ob("arity", n, q.ev.pos, len(q.params) == 1, "a filter request has one parameter") {
		return
	}
	d := q.params[0]
	var typ types.Type
	for _, e := range p.Events {
		if e.kind == "call" && strings.HasPrefix(e.name, "encoding/json.Marshal") && e.args[0].op == "iface" {
			typ = e.args[0].obj.(types.Type)
		}
	}
	if typ == nil || d.op != "fn" || d.aux != "json" {
		c.bad("filter", n, q.ev.pos, "the filter parameter is not an encoded object")
		return
	}
	v := d.args[0].args[0]
	for v.op == "ptr" {
		v = v.args[0]
	}
	if pt := deref(typ); pt != nil {
		typ = pt
	}
	if v.op != "struct" {
		c.bad("filter", n, q.ev.pos, "the filter parameter is not an object")
		return
	}
	block := func(name string, b *T) {
		f := tagged(v, typ, name)
		ok := false
		if f != nil && f.op == "bytes" {
			g := f.args[0]
			neg := mkLt(b, mkInt(0), types.Typ[types.Int64])
			switch {
			case p.holds(neg):
				ok = isLit(g, `"latest"`)
			case p.holds(mkNot(neg)):
				ok = isQuantity(p, g, b) || isLit(g, `"earliest"`) && p.holds(mkEq(b, mkInt(0), types.Typ[types.Int64]))
			}
		}
		c.ob("filter-block", n, q.ev.pos, ok, "the %s of the filter is not the block asked for", name)
	}
	block("fromBlock", start)
	block("toBlock", end)
	a := tagged(v, typ, "address")
	want := x.deep(q.ev.st, addr, addr.typ, 0)
	c.ob("filter-address", n, q.ev.pos, a != nil && (jsonNorm(a) == jsonNorm(want) || a.isNil() && p.isNil(addr)), "the address of the filter is not the one asked for")
	t := tagged(v, typ, "topics")
	c.ob("filter-topics", n, q.ev.pos, t != nil && topics(t), "the topics of the filter are not the ones asked for: %s", t)
}
