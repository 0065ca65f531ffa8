package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rpcShape: the parts of the connection transport, found by type
type rpcShape struct {
	T        types.Type // RPCTransport
	pend     int        // the map of outstanding requests
	pendT    types.Type // what it holds
	notify   int
	res      int
	err      int
	lock     int
	pendName string
	enc      int // the encoder on the connection
	conn     int // the connection
}

func isChan(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }
func isMutex(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "sync.Mutex" || s == "sync.RWMutex"
}

func findRPC(c *Check) *rpcShape {
	t := c.typ("", "RPCTransport")
	if t == nil {
		return nil
	}
	s := &rpcShape{T: t}
	s.pend = fieldIndex(t, func(v *types.Var) bool {
		m, ok := v.Type().Underlying().(*types.Map)
		if !ok {
			return false
		}
		e := deref(m.Elem())
		return e != nil && structOf(e) != nil
	})
	s.lock = fieldIndex(t, func(v *types.Var) bool { return isMutex(v.Type()) })
	if s.pend < 0 || s.lock < 0 {
		c.bad("shape", "RPCTransport", token.NoPos, "the transport has no lock or no table of outstanding requests")
		return nil
	}
	s.enc = fieldIndex(t, func(v *types.Var) bool { return typeName(v.Type()) == "*encoding/json.Encoder" })
	s.conn = fieldIndex(t, func(v *types.Var) bool {
		_, ok := v.Type().Underlying().(*types.Interface)
		return ok && strings.Contains(typeName(v.Type()), "Closer")
	})
	s.pendT = deref(t.Underlying().(*types.Struct).Field(s.pend).Type().Underlying().(*types.Map).Elem())
	s.notify = fieldIndex(s.pendT, func(v *types.Var) bool { return isChan(v.Type()) })
	s.err = fieldIndex(s.pendT, func(v *types.Var) bool { return isErrT(v.Type()) })
	s.res = fieldIndex(s.pendT, func(v *types.Var) bool { return typeName(v.Type()) == "*seth.RPCResponse" })
	if s.notify < 0 || s.err < 0 || s.res < 0 {
		c.bad("shape", "outstanding request", token.NoPos, "an outstanding request lacks its wake-up channel, error or response")
		return nil
	}
	return s
}

// of: is v the field i of an outstanding request? returns the request
func (s *rpcShape) of(v *T, i int) *T {
	a := v
	if v.op == "mem" {
		a = v.args[0]
	}
	if fr, ok := a.obj.(fieldRef); ok && a.op == "faddr" && fr.i == i && types.Identical(fr.st, s.pendT) {
		return a.args[0]
	}
	return nil
}

func (s *rpcShape) isMap(v *T) bool {
	if v.op != "mem" {
		return false
	}
	a := v.args[0]
	fr, ok := a.obj.(fieldRef)
	return ok && a.op == "faddr" && fr.i == s.pend && types.Identical(fr.st, s.T)
}

func (s *rpcShape) isLock(v *T) bool {
	fr, ok := v.obj.(fieldRef)
	return ok && v.op == "faddr" && fr.i == s.lock && types.Identical(fr.st, s.T)
}

// locked walks the events with the lock state; region numbers the critical
// sections (0: not held)
func walkLocked(evs []*Event, isLock func(*T) bool, f func(e *Event, region int, it *Path)) {
	n := 0
	var rec func(evs []*Event, held int, it *Path) int
	rec = func(evs []*Event, held int, it *Path) int {
		for _, e := range evs {
			switch {
			case e.kind == "lock" && isLock(e.args[0]):
				n++
				held = n
			case e.kind == "unlock" && isLock(e.args[0]):
				f(e, held, it)
				held = 0
				continue
			}
			f(e, held, it)
			if e.kind == "loop" {
				for _, i := range e.loop.iters {
					rec(i.Events, held, i)
				}
			}
		}
		return held
	}
	rec(evs, 0, nil)
}

// goTargets: the module functions started as goroutines on the paths
func goTargets(rs ...*Result) (out []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	for _, r := range rs {
		for _, p := range r.Paths {
			walkEvents(p.Events, func(e *Event, it *Path) {
				if e.kind == "go" && (e.args[0].op == "func" || e.args[0].op == "closure") {
					f := e.args[0].obj.(*ssa.Function)
					if !seen[f] && inRepo(f) && len(f.Blocks) > 0 {
						seen[f] = true
						out = append(out, f)
					}
				}
			})
		}
	}
	return
}

func storeConf(x *Exec) { x.storeEvents = true }

// abortLoop: does the event finish every outstanding request?
func (s *rpcShape) finishesAll(e *Event, p *Path) (bool, string) {
	if e.kind != "loop" {
		return false, ""
	}
	if len(e.loop.iters) == 0 {
		return false, ""
	}
	why := ""
	over := false
	for _, it := range e.loop.iters {
		var cur, key *T
		for _, v := range it.Events {
			if v.kind == "mapnext" && s.isMap(v.args[0]) {
				key, cur = v.res[0], v.res[1]
			}
		}
		if cur == nil {
			return false, ""
		}
		over = true
		closed, errSet, del := false, false, false
		for _, v := range it.Events {
			switch v.kind {
			case "store":
				if s.of(v.args[0], s.err) == cur {
					if closed {
						why = "the error is recorded after the wake-up"
					}
					errSet = it.isNonNil(v.args[1]) || isErrParam(v.args[1])
				}
			case "close":
				if s.of(v.args[0], s.notify) == cur {
					closed = true
					if !errSet {
						why = "a request is woken without its error having been recorded"
					}
				}
			case "mapdel":
				if s.isMap(v.args[0]) && v.args[1] == key {
					del = true
				}
			case "mapset":
				if s.isMap(v.args[0]) {
					why = "a request is registered while all are being failed"
				}
			}
		}
		// replacing the whole table also forgets the requests
		if !del && why == "" && !s.tableReplaced(p, e) {
			why = "a failed request stays in the table"
		}
		if !closed && why == "" {
			why = "a round of the loop leaves its request asleep"
		}
		// the loop must not stop early
		ok := key.aux
		done := false
		for _, t := range p.Facts {
			if t.op == "not" && t.args[0].op == "sym" && strings.HasPrefix(t.args[0].aux, "next.ok") && t.args[0].aux == ok {
				done = true
			}
		}
		if !done && why == "" {
			why = "the loop can stop before the last request"
		}
	}
	return over && why == "", why
}

func (s *rpcShape) tableReplaced(p *Path, after *Event) bool {
	seen := false
	for _, e := range p.Events {
		if e == after {
			seen = true
		}
		if seen && e.kind == "store" && e.args[0].op == "faddr" {
			fr, ok := e.args[0].obj.(fieldRef)
			if ok && fr.i == s.pend && types.Identical(fr.st, s.T) && e.args[1].op == "mkmap" {
				return true
			}
		}
	}
	return false
}

// isErrParam: an error handed down by the caller; the callers are looked at
// in their own contexts
func isErrParam(t *T) bool { return t.op == "sym" && strings.HasPrefix(t.aux, "arg.") }

func init() {
	checks["C01"] = &CheckDef{
		title:       "RPC requests complete exactly once",
		technique:   "abstract interpretation over SSA (inlined call paths, loop fixpoints) with a typestate rule for outstanding requests",
		explanation: "All paths through the request entry point and the reader goroutine are interpreted; every send, registration, removal, recording of a result and wake-up of an outstanding request is an obligation: registered before the send in one critical section, removed in the critical section that finds it, result recorded before the wake-up, the caller waits outside the lock and returns what was recorded, a failed send or a failed connection finishes every outstanding request and makes the next request dial.",
		assumptions: []string{"encoding/json, sync and io behave as documented", "map iteration visits every entry"},
		min:         25,
		run:         ruleC01,
	}
}

func ruleC01(c *Check) {
	s := findRPC(c)
	if s == nil {
		return
	}
	ex := c.analyze(c.fn("", "(*RPCTransport).Execute"), storeConf)
	if ex == nil {
		return
	}
	tArg, req, res := ex.Params[0], ex.Params[1], ex.Params[2]
	bgs := goTargets(ex)
	c.ob("reader", "Execute", ex.Fn.Pos(), len(bgs) == 1, "the request path starts %d reader goroutines, one is expected", len(bgs))
	reqT := c.typ("", "RPCRequest")
	if reqT == nil {
		return
	}
	for _, p := range ex.Paths {
		if p.Kind != "return" {
			c.bad("paths", "Execute", p.Pos, "the request path can panic")
			continue
		}
		var reg *Event
		regRegion := -1
		var send, wait *Event
		waitRegion := -1
		finished := false
		why := ""
		heldEnd := 0
		walkLocked(p.Events, s.isLock, func(e *Event, region int, it *Path) {
			heldEnd = region
			if e.kind == "unlock" && s.isLock(e.args[0]) {
				heldEnd = 0
			}
			if it != nil {
				return
			}
			switch e.kind {
			case "mapset":
				if s.isMap(e.args[0]) {
					c.ob("register-once", "Execute", e.pos, reg == nil, "one request is registered twice")
					reg, regRegion = e, region
				}
			case "call":
				if e.name == "(*encoding/json.Encoder).Encode" || strings.HasSuffix(e.name, ".Write") {
					if anyHas(e.args, req) {
						send = e
						c.ob("register-before-send", "Execute", e.pos, reg != nil && region != 0 && region == regRegion,
							"the request is sent although it was not registered before in the same critical section: its response can arrive unclaimed")
					}
				}
			case "recv":
				if reg != nil && s.notifyOf(ex.X, e.st, reg.args[2]) == e.args[0] || s.of(e.args[0], s.notify) != nil {
					wait = e
					waitRegion = region
				}
			case "loop":
				if ok, w := s.finishesAll(e, p); ok {
					finished = true
					c.ob("fail-under-lock", "Execute", e.pos, region != 0, "the outstanding requests are failed without the lock")
				} else if w != "" {
					why = w
				}
			}
		})
		ret := p.Ret[0]
		c.ob("lock-released", "Execute", p.Pos, heldEnd == 0, "a path returns with the lock held")
		if reg == nil {
			c.ob("no-silent-return", "Execute", p.Pos, p.isNonNil(ret), "a path returns success without having registered and sent the request")
			continue
		}
		// what was registered
		rp := reg.args[2]
		x := ex.X
		id := x.load(reg.st.clone(), fieldAddrOf(req, reqT, "ID"), intT)
		c.ob("register-id", "Execute", reg.pos, sameField(reg.args[1], id), "the request is registered under something else than its identifier")
		rv := x.load(reg.st.clone(), faddr(rp, s.pendT, s.res), nil)
		c.ob("register-result", "Execute", reg.pos, rv == res, "the response is not delivered to the caller's result")
		c.ob("register-lock", "Execute", reg.pos, regRegion != 0, "the request is registered without the lock")
		if send == nil {
			c.bad("send", "Execute", p.Pos, "a registered request is not sent")
			continue
		}
		removed := false
		for _, e := range p.Events {
			if e.kind == "mapdel" && s.isMap(e.args[0]) && e.args[1] == reg.args[1] {
				removed = true
			}
		}
		if p.isNonNil(send.res[len(send.res)-1]) {
			okf := finished || removed && p.isNonNil(ret)
			c.ob("failed-send", "Execute", send.pos, okf, "after a failed send the outstanding requests are not finished (%s): the caller waits for ever", why)
		} else {
			c.ob("send-checked", "Execute", send.pos, p.isNil(send.res[len(send.res)-1]), "the result of sending is not looked at: after a failed send the caller waits for ever")
		}
		if wait == nil {
			c.ob("wait", "Execute", p.Pos, removed && p.isNonNil(ret), "a registered request returns without waiting for its completion")
			continue
		}
		c.ob("wait-unlocked", "Execute", wait.pos, waitRegion == 0, "the caller waits with the lock held, which stops the reader")
		// what is returned
		end := p.St.clone()
		want := x.load(end, faddr(rp, s.pendT, s.err), nil)
		c.ob("returns-recorded", "Execute", p.Pos, ret == want, "the value returned is not the outcome recorded for the request")
	}
	// dialing
	for _, p := range ex.Paths {
		var dial, goev *Event
		for _, e := range p.Events {
			if e.kind == "call" && e.name == "dynamic" && e.args[0].op == "mem" {
				dial = e
			}
			if e.kind == "go" {
				goev = e
			}
		}
		if dial == nil {
			continue
		}
		derr := dial.res[len(dial.res)-1]
		if p.isNil(derr) {
			ok := goev != nil && anyHas(goev.args, dial.res[0])
			c.ob("reader-started", "Execute", dial.pos, ok, "no reader is started for the new connection: no response is ever delivered")
			var enc *Event
			for _, e := range p.Events {
				if e.kind == "call" && e.name == "(*encoding/json.Encoder).Encode" {
					enc = e
				}
			}
			ok = enc != nil && enc.args[0].op == "obj" && enc.args[0].args[0] == dial.res[0]
			c.ob("send-new-conn", "Execute", dial.pos, ok, "after dialing, the request is not sent on the new connection")
		} else {
			c.ob("dial-error", "Execute", dial.pos, p.isNonNil(derr) && p.Ret[0] == derr, "a failed dial is not reported to the caller")
		}
	}
	c.connState(s, ex, tArg)
	for _, f := range bgs {
		bg := c.analyze(f, storeConf)
		if bg == nil {
			continue
		}
		c.reader(s, bg)
		c.connState(s, bg, bg.Params[0])
	}
	c.requestIDs()
	// the table and the requests are only used by functions of the transport
}

func sameField(a, b *T) bool {
	if a == b {
		return true
	}
	return a.op == "mem" && b.op == "mem" && a.args[0] == b.args[0]
}

func (s *rpcShape) notifyOf(x *Exec, st *State, p *T) *T {
	return x.load(st.clone(), faddr(p, s.pendT, s.notify), nil)
}

// connState: whenever the lock is released, the transport either has no
// connection and no encoder, or an encoder on its connection
func (c *Check) connState(s *rpcShape, r *Result, t *T) {
	if s.enc < 0 || s.conn < 0 || t.typ == nil || deref(t.typ) == nil || !types.Identical(deref(t.typ), s.T) {
		return
	}
	x := r.X
	name := fnName(r.Fn)
	for _, p := range r.Paths {
		touched := false
		walkLocked(p.Events, s.isLock, func(e *Event, region int, it *Path) {
			if it != nil {
				return
			}
			if e.kind == "store" {
				if fr, ok := e.args[0].obj.(fieldRef); ok && e.args[0].op == "faddr" && types.Identical(fr.st, s.T) && (fr.i == s.enc || fr.i == s.conn) {
					touched = true
					c.ob("state-lock", name, e.pos, region != 0, "the connection is replaced without the lock")
				}
			}
			if e.kind == "unlock" && s.isLock(e.args[0]) && touched && e.st != nil {
				st := e.st.clone()
				enc := x.load(st, faddr(t, s.T, s.enc), nil)
				conn := x.load(st, faddr(t, s.T, s.conn), nil)
				ok := p.isNil(enc) && p.isNil(conn) || enc.op == "obj" && enc.args[0] == conn
				c.ob("connection-state", name, e.pos, ok, "the lock is released with a stale encoder or connection: the next request would be sent on a connection that is gone")
			}
		})
	}
}

// requestIDs: two requests of one client never carry the same identifier
func (c *Check) requestIDs() {
	r := c.clientRes("Do")
	if r == nil {
		return
	}
	clT := c.w.Type("", "Client")
	for _, p := range r.Paths {
		for _, q := range c.rpcCalls(r.X, p.Events) {
			id := q.id
			if id.op == "conv" && (id.aux == "i64" || id.aux == "u64" || id.aux == "int" || id.aux == "uint") {
				id = id.args[0]
			}
			var add *Event
			for _, e := range p.Events {
				if e.kind == "call" && strings.Contains(e.name, "sync/atomic.") && strings.Contains(e.name, "Add") && len(e.res) == 1 {
					if e.res[0] == id {
						add = e
					} else if k := minus(id, e.res[0]); k.isConst() {
						add = e
					}
				}
			}
			ok := false
			if add != nil && len(add.args) == 2 {
				fr, isF := add.args[0].obj.(fieldRef)
				d, isK := add.args[1].i64()
				ok = isF && clT != nil && types.Identical(fr.st, clT) && isK && d == 1
			}
			c.ob("request-id", "Do", q.ev.pos, ok, "the identifier of a request (%s) is not taken from an atomic counter of the client: two requests can carry the same one", q.id)
		}
	}
}

// reader checks the goroutine that delivers responses
func (c *Check) reader(s *rpcShape, bg *Result) {
	name := fnName(bg.Fn)
	check := func(evs []*Event, p *Path, where token.Pos) {
		var got *Event // lookup of the response's request
		gotRegion := 0
		delRegion := 0
		closed := 0
		recorded := false
		var dec *Event
		walkLocked(evs, s.isLock, func(e *Event, region int, it *Path) {
			if it != nil && it != p {
				return
			}
			switch e.kind {
			case "call":
				if e.name == "(*encoding/json.Decoder).Decode" {
					dec = e
					if e.args[1].op == "iface" && e.args[1].args[0].typ != nil {
						tgt := e.args[1].args[0]
						v := bg.X.load(e.st.clone(), tgt, deref(tgt.typ))
						c.ob("fresh-response", name, e.pos, v == zeroOf(deref(tgt.typ)), "a response is decoded over the previous one: what it does not mention is taken from there, and bytes handed out are overwritten")
					}
				}
			case "mapget":
				if s.isMap(e.args[0]) {
					got, gotRegion = e, region
					c.ob("lookup-lock", name, e.pos, region != 0, "the table of outstanding requests is read without the lock")
					isID := dec != nil && strings.Contains(e.args[1].String(), ".ID")
					c.ob("lookup-id", name, e.pos, isID, "the request is not looked up by the identifier in the response")
				}
			case "mapdel":
				if s.isMap(e.args[0]) && got != nil && e.args[1] == got.args[1] {
					delRegion = region
				}
			case "store":
				for _, i := range []int{s.err, s.res} {
					if q := s.of(e.args[0], i); q != nil && got != nil && q == got.res[0] {
						recorded = true
						c.ob("record-before-wake", name, e.pos, closed == 0, "an outcome is recorded after the caller was woken")
					}
				}
				// *p.res = ... : a store through the loaded pointer
				for a := e.args[0]; a.op == "faddr"; a = a.args[0] {
					if got != nil && s.of(a.args[0], s.res) == got.res[0] {
						recorded = true
						c.ob("record-before-wake", name, e.pos, closed == 0, "a result is recorded after the caller was woken")
					}
				}
			case "close":
				if q := s.of(e.args[0], s.notify); q != nil && got != nil && q == got.res[0] {
					closed++
					c.ob("wake-nonnil", name, e.pos, p.isNonNil(q), "a response nobody waits for is treated as a request")
					c.ob("recorded", name, e.pos, recorded, "a caller is woken without an outcome having been recorded")
				}
			case "send":
				if q := s.of(e.args[0], s.notify); q != nil {
					closed++
				}
			}
		})
		if got == nil {
			return
		}
		if p.isNonNil(got.res[0]) {
			c.ob("wake-once", name, got.pos, closed == 1, "a response that has arrived wakes its caller %d times", closed)
			c.ob("remove-with-lookup", name, got.pos, delRegion != 0 && delRegion == gotRegion, "the request is not removed in the critical section that finds it: it can be completed twice")
		} else {
			c.ob("wake-none", name, got.pos, closed == 0 && p.isNil(got.res[0]), "a response is delivered without checking that a request is waiting")
		}
	}
	sawFail := false
	for _, p := range bg.Paths {
		check(p.Events, p, p.Pos)
		// the connection failed: the path that leaves
		var derr *T
		walkEvents(p.Events, func(e *Event, it *Path) {
			if it == nil && e.kind == "call" && e.name == "(*encoding/json.Decoder).Decode" {
				derr = e.res[0]
			}
		})
		if p.Kind != "return" {
			c.bad("paths", name, p.Pos, "the reader can panic")
			continue
		}
		sawFail = true
		c.ob("stops-on-error", name, p.Pos, derr != nil && p.isNonNil(derr), "the reader stops although the connection has not failed")
		// either a newer connection exists, or everything is failed
		newer := false
		for _, t := range p.Facts {
			if t.op == "not" && t.args[0].op == "eq" && (t.args[0].args[0] == bg.Params[len(bg.Params)-1] || t.args[0].args[1] == bg.Params[len(bg.Params)-1]) {
				newer = true
			}
		}
		if newer {
			continue
		}
		fin, why := false, ""
		locked := true
		var encNil, connClosed bool
		held := 0
		walkLocked(p.Events, s.isLock, func(e *Event, region int, it *Path) {
			held = region
			if e.kind == "unlock" {
				held = 0
			}
			if it != nil {
				return
			}
			if e.kind == "loop" {
				if ok, w := s.finishesAll(e, p); ok {
					fin = true
					locked = region != 0
				} else if w != "" {
					why = w
				}
			}
			if e.kind == "call" && strings.HasSuffix(e.name, ".Close") {
				connClosed = true
			}
			if e.kind == "store" && e.args[1].isNil() {
				if fr, ok := e.args[0].obj.(fieldRef); ok && types.Identical(fr.st, s.T) {
					encNil = true
				}
			}
		})
		same := false
		for _, t := range p.Facts {
			a := bg.Params[len(bg.Params)-1]
			if t.op == "eq" && (t.args[0] == a || t.args[1] == a) {
				same = true
			}
		}
		c.ob("own-connection", name, p.Pos, same, "a reader whose connection failed fails the requests waiting on a newer connection")
		c.ob("connection-failure", name, p.Pos, fin, "when the connection fails, the outstanding requests are not all finished (%s)", why)
		c.ob("connection-failure-lock", name, p.Pos, locked, "the outstanding requests are failed without the lock")
		c.ob("connection-closed", name, p.Pos, connClosed && encNil, "a failed connection is not closed and forgotten: the next request would be sent on it")
		c.ob("lock-released", name, p.Pos, held == 0, "the reader stops with the lock held")
	}
	c.ob("failure-path", name, bg.Fn.Pos(), sawFail, "the reader has no path for a failing connection")
	// iterations
	for _, p := range bg.Paths {
		for _, e := range p.Events {
			if e.kind == "loop" {
				for _, it := range e.loop.iters {
					check(it.Events, it, it.Pos)
				}
			}
		}
	}
}
