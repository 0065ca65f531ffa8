package main

// Log filters and block iterators.

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const doName = "(*seth.Client).Do"

func init() {
	checks["C04"] = &CheckDef{
		title:       "Log filters deliver each log in order and end exactly once",
		technique:   "abstract interpretation over SSA with typestate of the filter's channels",
		explanation: "The goroutine started for a log filter and the filter's methods are interpreted on every path: each blocking operation must also wait for the filter being closed, every batch is delivered element by element from first to last, the output channel is closed exactly once as the last operation, an error of a request is recorded before it, polling happens only if the filter starts at the latest block, and closing is done once under the lock.",
		assumptions: []string{"channels, time and sync behave as documented", "the request layer answers or fails (C01, C02)"},
		min:         25,
		run:         ruleC04,
	}
	checks["C05"] = &CheckDef{
		title:       "Block iterators deliver consecutive blocks until stopped",
		technique:   "abstract interpretation over SSA: loop fixpoint of the block number, typestate of the channels",
		explanation: "The goroutine started for a block iterator is interpreted to a loop fixpoint: the number starts at the one asked for, grows by one only on a round that delivered the block fetched for the current number, a failed fetch retries the same number, every blocking operation also waits for the stop signal, and the output is closed exactly once when stopped.",
		assumptions: []string{"channels and time behave as documented", "the request layer answers or fails (C01, C02)"},
		min:         10,
		run:         ruleC05,
	}
}

// chanField: is t a channel field with one of the names in the struct?
func (c *Check) fieldOf(t *T, st types.Type) int {
	a := t
	if a.op == "mem" {
		a = a.args[0]
	}
	if fr, ok := a.obj.(fieldRef); ok && types.Identical(fr.st, st) {
		return fr.i
	}
	return -1
}

func chanFields(st types.Type) (data, sig int) {
	data, sig = -1, -1
	s := st.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		ch, ok := s.Field(i).Type().Underlying().(*types.Chan)
		if !ok {
			continue
		}
		if e, ok := ch.Elem().Underlying().(*types.Struct); ok && e.NumFields() == 0 {
			sig = i
		} else {
			data = i
		}
	}
	return
}

// contexts visits the path and every loop iteration below it
func contexts(p *Path, f func(q *Path, inLoop *LoopInfo)) {
	f(p, nil)
	var rec func(evs []*Event)
	rec = func(evs []*Event) {
		for _, e := range evs {
			if e.kind == "loop" {
				for _, it := range e.loop.iters {
					f(it, e.loop)
					rec(it.Events)
				}
			}
		}
	}
	rec(p.Events)
}

// pairs of a select event: channel, value sent (nil for a receive)
func selCases(e *Event) (chs, vals []*T, send []bool) {
	dirs := strings.Split(e.aux, ",")
	for i := 0; i+1 < len(e.args); i += 2 {
		chs = append(chs, e.args[i])
		vals = append(vals, e.args[i+1])
		send = append(send, i/2 < len(dirs) && dirs[i/2] == "send")
	}
	return
}

// doParams: the raw texts of the parameters of a Do event
func doParams(x *Exec, e *Event) (out []*T, ok bool) {
	n, ok := x.sliceLen(e.args[2]).i64()
	if !ok {
		if e.args[2].isNil() {
			return nil, true
		}
		return nil, false
	}
	st := e.st.clone()
	pc := x.content(st, e.args[2])
	for i := int64(0); i < n; i++ {
		out = append(out, x.content(st, cSel(pc, mkInt(i), nil)))
	}
	return out, true
}

func (c *Check) goroutineOf(name string) (*Result, *ssa.Function) {
	conf := func(x *Exec) { x.opaque = opaqueNames(doName); x.storeEvents = true }
	r := c.analyze(c.fn("", name), conf)
	if r == nil {
		return nil, nil
	}
	ts := goTargets(r)
	if !c.ob("goroutine", name, r.Fn.Pos(), len(ts) == 1, "%d goroutines are started, one is expected", len(ts)) {
		return r, nil
	}
	return r, ts[0]
}

func ruleC04(c *Check) {
	fT := c.typ("", "Filter")
	if fT == nil {
		return
	}
	out, exit := chanFields(fT)
	fld := func(pred func(v *types.Var) bool) int { return fieldIndex(fT, pred) }
	errI := fld(func(v *types.Var) bool { return isErrT(v.Type()) })
	lockI := fld(func(v *types.Var) bool { return isMutex(v.Type()) })
	idI := fld(func(v *types.Var) bool { return typeName(v.Type()) == "int64" })
	if out < 0 || exit < 0 || errI < 0 || lockI < 0 || idI < 0 {
		c.bad("shape", "Filter", 0, "the filter has no output, exit channel, error, lock or number")
		return
	}
	mk, g := c.goroutineOf("(*Client).FilterTopics")
	if g == nil {
		return
	}
	// the filter handed out is the one polled, with the number the node gave
	pollI := -1
	for _, p := range mk.Paths {
		for _, e := range p.Events {
			if e.kind != "go" {
				continue
			}
			var fp *T
			for _, a := range e.args[1:] {
				if a.typ != nil && deref(a.typ) != nil && types.Identical(deref(a.typ), fT) {
					fp = a
				}
			}
			if fp == nil && len(e.args[0].args) > 0 {
				for _, a := range e.args[0].args {
					if a.typ != nil && deref(a.typ) != nil && types.Identical(deref(a.typ), fT) {
						fp = a
					}
				}
			}
			c.ob("handed-out", "FilterTopics", e.pos, fp != nil && p.Ret[0] == fp, "the filter returned is not the one served")
			if fp == nil {
				continue
			}
			x := mk.X
			st := e.st.clone()
			var do *Event
			for _, d := range p.Events {
				if d.kind == "call" && d.name == doName {
					do = d
				}
			}
			if do == nil {
				c.bad("created", "FilterTopics", e.pos, "a filter is served that the node was not asked to create")
				continue
			}
			id := x.load(st, faddr(fp, fT, idI), nil)
			tgt := do.args[3].args[0]
			ok := id.has(tgt)
			c.ob("number", "FilterTopics", e.pos, ok, "the number of the filter (%s) is not the one the node gave it", id)
			for i, n := 0, fT.Underlying().(*types.Struct).NumFields(); i < n; i++ {
				if v := fT.Underlying().(*types.Struct).Field(i); typeName(v.Type()) == "bool" {
					if b := x.load(st, faddr(fp, fT, i), v.Type()); b.isTrue() {
						pollI = i
					}
				}
			}
		}
	}
	start := mk.Params[3]
	for _, p := range mk.Paths {
		for _, e := range p.Events {
			if e.kind != "go" || pollI < 0 {
				continue
			}
			b := mk.X.load(e.st.clone(), faddr(p.Ret[0], fT, pollI), types.Typ[types.Bool])
			neg := mkLt(start, mkInt(0), types.Typ[types.Int64])
			ok := b == neg || b.isTrue() && p.holds(neg) || b.isFalse() && p.holds(mkNot(neg))
			c.ob("poll-flag", "FilterTopics", e.pos, ok, "whether the filter polls does not follow from its start block")
		}
	}
	c.ob("polls", "FilterTopics", mk.Fn.Pos(), pollI >= 0, "no filter ever polls")

	bg := c.analyze(g, func(x *Exec) { x.opaque = opaqueNames(doName); x.storeEvents = true })
	if bg == nil {
		return
	}
	x := bg.X
	n := fnName(g)
	for _, p := range bg.Paths {
		if p.Kind != "return" {
			c.bad("paths", n, p.Pos, "the goroutine of a filter can panic")
			continue
		}
		// the end
		closes := 0
		late := ""
		stopped := false
		var errDo *Event
		errStored := (*T)(nil)
		for _, e := range p.Events {
			switch e.kind {
			case "close":
				if c.fieldOf(e.args[0], fT) == out {
					closes++
					if errDo != nil && errStored == nil {
						late = "the output is closed before the error is recorded"
					}
				}
			case "select", "send":
				if closes > 0 {
					late = "the output is used after it was closed"
				}
				if e.kind == "select" && e.idx >= 0 {
					chs, _, _ := selCases(e)
					if c.fieldOf(chs[e.idx], fT) == exit {
						stopped = true
					}
				}
			case "recv":
				if c.fieldOf(e.args[0], fT) == exit {
					stopped = true
				}
			case "call":
				if e.name == doName && p.isNonNil(e.res[0]) {
					errDo = e
				}
			case "store":
				if c.fieldOf(e.args[0], fT) == errI && e.args[0].op == "faddr" {
					errStored = e.args[1]
				}
			}
		}
		c.ob("closed-once", n, p.Pos, closes == 1, "the output is closed %d times when the goroutine ends", closes)
		c.ob("order", n, p.Pos, late == "", "%s", late)
		if errDo != nil {
			c.ob("error", n, p.Pos, errStored == errDo.res[0], "the error of a request is not recorded for the user")
		} else {
			c.ob("no-error", n, p.Pos, errStored == nil || errStored.isNil(), "an error is recorded although no request failed")
			// ended without error: closed, or nothing to poll for
			pollOff := pollI >= 0 && p.holds(mkNot(x.load(p.St.clone(), faddr(bg.paramOf(fT), fT, pollI), types.Typ[types.Bool])))
			for _, f := range p.Facts {
				if f.op == "not" && c.fieldOf(f.args[0], fT) == pollI && f.args[0].op == "mem" {
					pollOff = true
				}
			}
			c.ob("ends", n, p.Pos, stopped || pollOff, "the filter ends although it was neither closed nor finished")
		}
		contexts(p, func(q *Path, lp *LoopInfo) { c.filterOps(n, x, q, lp, bg.paramOf(fT), fT, out, exit, idI, pollI) })
		// iterations of a loop that polls: a failed request, or closing, ends it
		contexts(p, func(q *Path, lp *LoopInfo) {
			if lp == nil {
				return
			}
			for _, e := range q.Events {
				switch e.kind {
				case "call":
					if e.name == doName {
						c.ob("goes-on", n, e.pos, q.isNil(e.res[0]), "after a failed request the filter goes on as if nothing had happened")
					}
				case "select":
					if e.idx >= 0 {
						chs, _, _ := selCases(e)
						c.ob("goes-on", n, e.pos, c.fieldOf(chs[e.idx], fT) != exit, "the filter goes on after having been closed")
					}
				case "close":
					c.bad("closed-once", n, e.pos, "a channel is closed in a loop")
				}
			}
		})
	}

	// delivery: inner loops over a batch
	for _, p := range bg.Paths {
		c.batches(n, x, p, p.Events, fT, out, exit)
		contexts(p, func(q *Path, lp *LoopInfo) {
			if lp != nil {
				c.batches(n, x, q, q.Events, fT, out, exit)
			}
		})
	}

	// Close and Err
	cl := c.analyze(c.fn("", "(*Filter).Close"), func(x *Exec) { x.opaque = opaqueNames(doName); x.storeEvents = true })
	if cl != nil {
		isLock := func(t *T) bool { return c.fieldOf(t, fT) == lockI }
		for _, p := range cl.Paths {
			nc, held := 0, 0
			var done *Event
			region := 0
			said := false
			walkLocked(p.Events, isLock, func(e *Event, reg int, it *Path) {
				held = reg
				if e.kind == "unlock" {
					held = 0
				}
				switch e.kind {
				case "close":
					if c.fieldOf(e.args[0], fT) == exit {
						nc++
						region = reg
						ok := false
						for _, f := range p.Facts {
							if f.op == "not" && f.args[0].op == "mem" && f.args[0].args[0].op == "faddr" && c.fieldOf(f.args[0], fT) >= 0 && isBoolT(f.args[0].typ) && c.fieldOf(f.args[0], fT) != pollI {
								ok = true
							}
						}
						c.ob("close-once", "Close", e.pos, ok && reg != 0, "the filter can be closed twice")
					}
				case "store":
					if i := c.fieldOf(e.args[0], fT); i >= 0 && i != pollI && isBoolT(e.typ) && e.args[1].isTrue() {
						if reg != 0 {
							done = e
						}
					}
				case "call":
					if e.name == doName && e.args[1] == mkStr("eth_uninstallFilter") {
						ps, ok := doParams(cl.X, e)
						id := cl.X.load(e.st.clone(), faddr(cl.Params[0], fT, idI), types.Typ[types.Int64])
						said = ok && len(ps) == 1 && isQuantity(p, ps[0], id)
					}
				}
			})
			c.ob("close-released", "Close", p.Pos, held == 0, "Close returns with the lock held")
			if nc > 0 {
				c.ob("close-mark", "Close", p.Pos, done != nil && region != 0, "closing is not remembered: a second Close panics")
				c.ob("close-node", "Close", p.Pos, said, "the node is not told that the filter is gone")
			} else {
				ok := false
				for _, f := range p.Facts {
					if f.op == "mem" && c.fieldOf(f, fT) >= 0 {
						ok = true
					}
				}
				c.ob("close-closes", "Close", p.Pos, ok, "Close does not stop the filter")
			}
		}
	}
	er := c.analyze(c.fn("", "(*Filter).Err"), nil)
	if er != nil {
		isLock := func(t *T) bool { return c.fieldOf(t, fT) == lockI }
		for _, p := range er.Paths {
			n := 0
			held := 0
			walkLocked(p.Events, isLock, func(e *Event, reg int, it *Path) {
				if e.kind == "lock" {
					n++
				}
				held = reg
				if e.kind == "unlock" {
					held = 0
				}
			})
			c.ob("err", "Err", p.Pos, p.Ret != nil && c.fieldOf(p.Ret[0], fT) == errI && n == 1 && held == 0, "Err does not return the recorded error")
		}
	}
}

// filterOps: the operations of one context of the filter's goroutine
func (c *Check) filterOps(n string, x *Exec, q *Path, lp *LoopInfo, fp *T, fT types.Type, out, exit, idI, pollI int) {
	for _, e := range q.Events {
		switch e.kind {
		case "send":
			c.ob("abortable", n, e.pos, c.fieldOf(e.args[0], fT) < 0, "a delivery does not wait for the filter being closed")
		case "recv":
			c.ob("abortable", n, e.pos, c.fieldOf(e.args[0], fT) == exit, "a wait does not end when the filter is closed")
		case "select":
			chs, _, _ := selCases(e)
			ok := !e.block
			for _, ch := range chs {
				if c.fieldOf(ch, fT) == exit {
					ok = true
				}
			}
			c.ob("abortable", n, e.pos, ok, "a blocking operation does not end when the filter is closed")
		case "call":
			if e.name == doName {
				m, _ := e.args[1].str()
				want := "eth_getFilterLogs"
				if lp != nil || afterLoop(q.Events, e) {
					want = "eth_getFilterChanges"
				}
				c.ob("request", n, e.pos, m == want, "the filter asks %s where %s belongs", m, want)
				ps, ok := doParams(x, e)
				var id *T
				if ok && len(ps) == 1 {
					id = x.load(e.st.clone(), faddr(fp, fT, idI), types.Typ[types.Int64])
				}
				c.ob("request-id", n, e.pos, id != nil && isQuantity(q, ps[0], id), "the filter asks for another filter's logs")
			}
		}
	}
}

// paramOf: the first parameter that points to the type
func (r *Result) paramOf(t types.Type) *T {
	for _, a := range r.Params {
		if a.typ != nil && deref(a.typ) != nil && types.Identical(deref(a.typ), t) {
			return a
		}
	}
	return mkNil()
}

// afterLoop: is e a part of the last, partial round of a polling loop?
func afterLoop(evs []*Event, e *Event) bool {
	for _, v := range evs {
		if v == e {
			return false
		}
		if v.kind == "loop" {
			for _, it := range v.loop.iters {
				for _, w := range it.Events {
					if w.kind == "call" && w.name == doName {
						return true
					}
				}
			}
		}
		// the first request was made before, outside any loop
		if v.kind == "call" && v.name == doName && v != e {
			return true
		}
	}
	return false
}

// batches: after a successful request every element is delivered in order
func (c *Check) batches(n string, x *Exec, q *Path, evs []*Event, fT types.Type, out, exit int) {
	for i, e := range evs {
		if e.kind != "call" || e.name != doName || !q.isNil(e.res[0]) {
			continue
		}
		if e.args[3].op != "iface" {
			continue
		}
		tgt := e.args[3].args[0]
		// find the delivering loop before the next request
		var dl *Event
		stop := false
		for _, v := range evs[i+1:] {
			if v.kind == "call" && v.name == doName {
				break
			}
			if v.kind == "loop" && dl == nil {
				for _, it := range v.loop.iters {
					for _, w := range it.Events {
						if w.kind == "select" && w.idx >= 0 {
							chs, vals, send := selCases(w)
							if send[w.idx] && c.fieldOf(chs[w.idx], fT) == out {
								dl = v
							}
							_ = vals
						}
					}
				}
			}
			if v.kind == "select" && v.idx >= 0 {
				chs, _, _ := selCases(v)
				if c.fieldOf(chs[v.idx], fT) == exit {
					stop = true
				}
			}
		}
		if dl == nil {
			// no loop: closed right away, or an empty batch
			empty := false
			for _, f := range q.Facts {
				f.contains(func(t *T) bool {
					if t.op == "len" && t.has(tgt) && q.holds(leT(t, mkInt(0))) {
						empty = true
					}
					return false
				})
			}
			c.ob("delivered", n, e.pos, stop || empty, "the logs of a request are not delivered")
			continue
		}
		// the index runs 0,1,2,... over the whole batch
		okIdx, okDone := false, stop
		for _, it := range dl.loop.iters {
			sent := 0
			for _, w := range it.Events {
				if w.kind != "select" || w.idx < 0 {
					continue
				}
				chs, vals, send := selCases(w)
				if !send[w.idx] || c.fieldOf(chs[w.idx], fT) != out {
					continue
				}
				sent++
				v := vals[w.idx]
				if v.op == "alloc" && deref(v.typ) != nil {
					// a copy made in this round
					if got := wholeCopy(x.load(w.st.clone(), v, deref(v.typ))); got != nil && got.op == "sel" && got.args[0].op == "mem" {
						fresh := true
						for _, lv := range dl.loop.vars {
							if lv.addr == nil && symNum(v) < symNum(lv.sym) {
								fresh = false
							}
						}
						if fresh {
							v = iaddr(got.args[0].args[0], got.args[1], deref(v.typ))
						}
					}
				}
				if v.op != "iaddr" || !v.args[0].has(tgt) {
					c.bad("delivered", n, w.pos, "what is delivered is not an element of the batch")
					continue
				}
				for _, lv := range dl.loop.vars {
					if lv.addr == nil && v.args[1].has(lv.sym) {
						d := minus(v.args[1], lv.sym)
						k, isK := d.i64()
						i0, isI := lv.init.i64()
						step := len(lv.nexts) > 0
						for _, nx := range lv.nexts {
							if minus(nx, lv.sym) != mkInt(1) {
								step = false
							}
						}
						if isK && isI && k+i0 == 0 && step {
							okIdx = true
						}
						// left when all are delivered
						ln := mk("len", "", intT, v.args[0].args0())
						if q.holds(mkNot(mkLt(plus(lv.sym, d), ln, intT))) {
							okDone = true
						}
					}
				}
			}
			c.ob("delivered-once", n, dl.pos, sent == 1, "a round of the delivery delivers %d logs", sent)
		}
		c.ob("in-order", n, dl.pos, okIdx, "the logs of a batch are not delivered from the first to the last")
		c.ob("complete", n, dl.pos, okDone, "the delivery of a batch stops before its end")
	}
}

// wholeCopy: the value whose fields the struct value consists of
func wholeCopy(v *T) *T {
	if v.op != "struct" || len(v.args) == 0 {
		return v
	}
	var src *T
	for i, f := range v.args {
		if f.op != "field" || (src != nil && f.args[0] != src) || structField(f.args[0], v.typ, i) != f {
			return nil
		}
		src = f.args[0]
	}
	return src
}

// symNum: the creation number of a symbol or allocation
func symNum(t *T) int {
	for _, sep := range []string{"#", "@"} {
		if i := strings.LastIndex(t.aux, sep); i >= 0 {
			if n, err := strconv.Atoi(t.aux[i+1:]); err == nil {
				return n
			}
		}
	}
	return 0
}

func (t *T) args0() *T {
	if len(t.args) > 0 {
		return t.args[0]
	}
	return mkNil()
}

func ruleC05(c *Check) {
	bT := c.typ("", "BlockIterator")
	if bT == nil {
		return
	}
	out, done := chanFields(bT)
	if out < 0 || done < 0 {
		c.bad("shape", "BlockIterator", 0, "the iterator has no output or stop channel")
		return
	}
	mkr, g := c.goroutineOf("(*Client).IterateBlocks")
	if g == nil {
		return
	}
	// the goroutine gets the start block and flag
	bg := c.analyze(g, func(x *Exec) { x.opaque = opaqueNames(doName); x.storeEvents = true })
	if bg == nil {
		return
	}
	for _, p := range mkr.Paths {
		for _, e := range p.Events {
			if e.kind != "go" {
				continue
			}
			as := e.args[1:]
			if len(e.args[0].args) > 0 {
				as = e.args[0].args
			}
			ok := false
			for _, a := range as {
				if a == p.Ret[0] {
					ok = true
				}
			}
			c.ob("handed-out", "IterateBlocks", e.pos, ok, "the iterator returned is not the one served")
			c.ob("from", "IterateBlocks", e.pos, anyIs(as, mkr.Params[1]) && anyIs(as, mkr.Params[2]), "the start block or the transaction flag is not handed on")
		}
	}
	x := bg.X
	n := fnName(g)
	var from, txs *T
	for _, a := range bg.Params {
		if a.typ == nil {
			continue
		}
		switch typeName(a.typ) {
		case "int64":
			from = a
		case "bool":
			txs = a
		}
	}
	if from == nil || txs == nil {
		c.bad("shape", n, g.Pos(), "the goroutine of an iterator does not get its start block")
		return
	}
	var is func(q *Path, ev []*Event, lp *LoopInfo)
	is = func(q *Path, evs []*Event, lp *LoopInfo) {
		for _, e := range evs {
			switch e.kind {
			case "send":
				c.ob("abortable", n, e.pos, c.fieldOf(e.args[0], bT) < 0, "a delivery does not wait for the iterator being stopped")
			case "recv":
				c.ob("abortable", n, e.pos, c.fieldOf(e.args[0], bT) == done, "a wait does not end when the iterator is stopped")
			case "select":
				chs, _, _ := selCases(e)
				ok := !e.block
				for _, ch := range chs {
					if c.fieldOf(ch, bT) == done {
						ok = true
					}
				}
				c.ob("abortable", n, e.pos, ok, "a blocking operation does not end when the iterator is stopped")
			}
		}
	}
	for _, p := range bg.Paths {
		if p.Kind != "return" {
			c.bad("paths", n, p.Pos, "the goroutine of an iterator can panic")
			continue
		}
		closes, stopped := 0, false
		for _, e := range p.Events {
			switch e.kind {
			case "close":
				if c.fieldOf(e.args[0], bT) == out {
					closes++
				}
			case "send":
				c.ob("order", n, e.pos, closes == 0, "the output is used after it was closed")
			case "select":
				c.ob("order", n, e.pos, closes == 0, "the output is used after it was closed")
				if e.idx >= 0 {
					chs, _, _ := selCases(e)
					if c.fieldOf(chs[e.idx], bT) == done {
						stopped = true
					}
				}
			case "recv":
				if c.fieldOf(e.args[0], bT) == done {
					stopped = true
				}
			}
		}
		c.ob("closed-once", n, p.Pos, closes == 1, "the output is closed %d times when the iterator ends", closes)
		c.ob("ends", n, p.Pos, stopped, "the iterator ends although it was not stopped")
		is(p, p.Events, nil)
		contexts(p, func(q *Path, lp *LoopInfo) {
			if lp != nil {
				is(q, q.Events, lp)
			}
		})
		var rounds func(it *Path, evs []*Event, cur *T, numbered bool) (bool, *T)
		rounds = func(it *Path, evs []*Event, cur *T, numbered bool) (bool, *T) {
			delivered := false
			var fetched *Event
			for _, v := range evs {
				switch v.kind {
				case "loop":
					var num *LoopVar
					for _, lv := range v.loop.vars {
						if lv.init == cur {
							num = lv
						}
					}
					c.ob("deliver-then-loop", n, v.pos, !delivered || num == nil, "the number is not advanced after a delivery")
					for i, in := range v.loop.iters {
						if num == nil {
							d, _ := rounds(in, in.Events, cur, true)
							c.ob("number", n, v.pos, !d, "a loop delivers the same block again and again")
							continue
						}
						if i >= len(num.nexts) {
							break
						}
						d, end := rounds(in, in.Events, num.sym, true)
						by := minus(num.nexts[i], end)
						if d {
							c.ob("advance", n, v.pos, by == mkInt(1), "after a delivery the number changes by %s", by)
						} else {
							c.ob("stay", n, v.pos, by == mkInt(0), "the number changes by %s in a round that delivered nothing", by)
						}
					}
					if num != nil {
						cur = num.sym
					}
					fetched = nil
				case "call":
					if v.name == doName {
						c.ob("fetch-once", n, v.pos, !delivered, "a block is fetched again after its delivery")
						fetched = v
						m, _ := v.args[1].str()
						ps, ok := doParams(x, v)
						ok = ok && m == "eth_getBlockByNumber" && len(ps) == 2 && isBlock(it, ps[0], cur)
						c.ob("fetch", n, v.pos, ok, "the block fetched is not the current one")
						ok = len(ps) == 2 && (isLit(ps[1], "true") && it.holds(txs) || isLit(ps[1], "false") && it.holds(mkNot(txs)) || jsonNorm(ps[1]) == jsonNorm(jsonOf(x, v.st, txs, txs.typ)))
						c.ob("fetch-txs", n, v.pos, ok, "the transaction flag is not the one asked for")
					}
				case "select":
					if v.idx < 0 {
						continue
					}
					chs, vals, send := selCases(v)
					if send[v.idx] && c.fieldOf(chs[v.idx], bT) == out {
						c.ob("deliver-once", n, v.pos, !delivered, "one round delivers two blocks")
						delivered = true
						ok := fetched != nil && it.isNil(fetched.res[0]) && fetched.args[3].op == "iface"
						if ok {
							st := v.st.clone()
							ok = vals[v.idx] == fetched.args[3].args[0] || sameCells(x, st, vals[v.idx], fetched.args[3].args[0])
						}
						c.ob("deliver", n, v.pos, ok, "what is delivered is not the block fetched")
					}
				case "close":
					c.ob("closed-once", n, v.pos, !numbered, "a channel is closed in a loop")
				}
			}
			return delivered, cur
		}
		rounds(p, p.Events, from, false)
	}
	nx := c.analyze(c.fn("", "(*BlockIterator).Next"), nil)
	if nx != nil {
		for _, p := range nx.Paths {
			c.ob("next", "Next", p.Pos, c.fieldOf(p.Ret[0], bT) == out, "Next is not the output of the iterator")
		}
	}
	stp := c.analyze(c.fn("", "(*BlockIterator).Stop"), nil)
	if stp != nil {
		for _, p := range stp.Paths {
			ok := false
			for _, e := range p.Events {
				if e.kind == "close" && c.fieldOf(e.args[0], bT) == done {
					ok = true
				}
			}
			c.ob("stop", "Stop", p.Pos, ok, "Stop does not stop the iterator")
		}
	}
}

func anyIs(ts []*T, x *T) bool {
	for _, t := range ts {
		if t == x {
			return true
		}
	}
	return false
}
