package main

// C35: the log filters of the test chain.

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C35"] = &CheckDef{
		title:     "Filters of the test chain give exactly the matching logs",
		technique: "static abstract interpretation over SSA of histories of transactions, seals and filter requests against a model of the filters; the executions' logs are scripted",
		explanation: "Histories in which executions leave logs with different addresses and topics are interpreted through Chain.Mine, Chain.Seal and Chain.Execute. A grid of filters over addresses, topics and block ranges is set up before and between the transactions, " +
			"and every answer must be the list of logs that the model selects.",
		assumptions: []string{"the virtual machine sets the number of the block in its logs", "a log is told from the others by its data"},
		min:         500,
		run:         runLogs,
	}
}

type refLog struct {
	spec logSpec
	num  int64
	hash *T
}

type refFilter struct {
	id       int64
	from, to int64 // to < 0: open
	addr     string
	topics   string // '.' for any
	seen     int    // logs given by polls
	gone     bool
	what     string
}

func (f *refFilter) matches(l *refLog) bool {
	if l.num < f.from || f.to >= 0 && l.num > f.to || f.addr != "" && f.addr != l.spec.addr {
		return false
	}
	for i := range f.topics {
		if f.topics[i] == '.' {
			continue
		}
		if i >= len(l.spec.topics) || l.spec.topics[i] != f.topics[i] {
			return false
		}
	}
	return true
}

type logRun struct {
	*chainRun
	logs    []*refLog
	filters []*refFilter
	trail   string
	num     int64
	n       int
	ids     map[int64]bool
	snap    *T
	nsnap   int
}

var logHistories = []string{
	// what is polled when
	"new; tx a:x a:xy b: ; changes; tx b:xy a:; changes; seal; changes; tx a:yx b:x; new; all; changes; seal; tx a:xyx; all; changes; changes; gone",
	"tx a:x; seal; tx b:x a:xy; fail a:x b:xy; changes; new; tx a:x; changes; gone; new; tx b:xx; all; changes; seal; fail a:x; changes; seal; tx a:xy; changes",
	"new; seal; tx ; changes; tx a: b:; all; seal; seal; tx b:x; all; changes; tx a:x; tx a:x; seal; tx b:xyxy; changes; all",
	"tx a:x; new; snap; tx b:x a:xy; changes; revert; changes; all; tx a:x b:; changes; seal; new; changes; all",
}

func runLogs(c *Check) {
	for _, h := range logHistories {
		for group := 0; group < 4; group++ {
			if !c.runLogHistory(h, group) {
				return
			}
		}
	}
}

func (r *logRun) say(fn *ssa.Function, rule, f string, a ...interface{}) bool {
	if !r.bad {
		r.c.bad(rule, "tevm.Chain", fn.Pos(), "after %q: %s", r.trail, fmt.Sprintf(f, a...))
	}
	r.bad = true
	return false
}

// some of the filters
func (r *logRun) specs(group int) []*refFilter {
	var out []*refFilter
	n := 0
	for _, to := range []int64{-1, 0, 1, 2} {
		for _, from := range []int64{-100, 0, 1} {
			if to >= 0 && from > to {
				continue
			}
			for _, addr := range []string{"", "a", "b"} {
				for _, tp := range []string{"", "x", ".", ".y", "x.", "xy", "..x", "z", "y"} {
					n++
					if n%11 != 2*group && n%11 != 2*group+1 {
						continue
					}
					f := &refFilter{from: 100 + from, to: to, addr: addr, topics: tp}
					if to >= 0 {
						f.to = 100 + to
					}
					out = append(out, f)
				}
			}
		}
	}
	return out
}

func (c *Check) runLogHistory(h string, group int) bool {
	cr, st := c.newChainRun("Mine", "Seal", "Execute", "AddBalance")
	if cr == nil {
		return false
	}
	r := &logRun{chainRun: cr, ids: map[int64]bool{}}
	st, ok := r.fund(st, "a", "1000000")
	if !ok {
		return r.say(r.m["Chain.AddBalance"], "analysis", "%s", r.fail)
	}
	d, pt := r.pendingDeep(st)
	if r.num, ok = dfield(d, pt, "Number").i64(); !ok || r.num != 100 {
		// the ranges of the filters are relative to the first block
		return r.say(r.m["Chain.Execute"], "analysis", "the number of the first block is not 100")
	}
	for _, o := range strings.Split(h, ";") {
		o = strings.TrimSpace(o)
		r.trail += o + "; "
		if st, ok = r.logOp(st, o, group); !ok {
			return false
		}
	}
	c.obl += r.n
	c.done += r.n
	c.notes = append(c.notes, fmt.Sprintf("%d filters, %d logs, %d answers compared", len(r.filters), len(r.logs), r.n))
	return !r.bad
}

func (r *logRun) logOp(st *State, o string, group int) (*State, bool) {
	ex := r.m["Chain.Execute"]
	f := strings.Fields(o)
	switch f[0] {
	case "tx", "fail":
		st = st.clone()
		sc := vmScript{left: 40000, fail: f[0] == "fail"}
		for _, s := range f[1:] {
			p := strings.SplitN(s, ":", 2)
			sc.spec = append(sc.spec, logSpec{addr: p[0], topics: p[1]})
		}
		r.script = []vmScript{sc}
		s2, rets, ok := r.do(st, r.m["Chain.Mine"], r.chain, r.txArg(st, "a", "b", "7"))
		if !ok {
			return nil, r.say(r.m["Chain.Mine"], "analysis", "%s", r.fail)
		}
		if !sc.fail {
			for _, s := range sc.spec {
				r.logs = append(r.logs, &refLog{spec: s, num: r.num, hash: rets[1]})
			}
		}
		return s2, true
	case "seal":
		s2, _, ok := r.do(st, r.m["Chain.Seal"], r.chain)
		if !ok {
			return nil, r.say(r.m["Chain.Seal"], "analysis", "%s", r.fail)
		}
		r.num++
		return s2, true
	case "new":
		open := []string{`"latest"`, `"pending"`}
		for i, f := range r.specs(group) {
			s2, ok := r.newFilter(st, f, open[i%2])
			if !ok {
				return nil, false
			}
			st = s2
			r.filters = append(r.filters, f)
		}
		return st, true
	case "snap":
		s2, rets, ok := r.op(st, "Snapshot")
		if !ok {
			return nil, r.say(r.m["Snapshot"], "analysis", "%s", r.fail)
		}
		r.snap, r.nsnap = rets[0], len(r.logs)
		return s2, true
	case "revert":
		s2, _, ok := r.op(st, "RevertToSnapshot", r.snap)
		if !ok {
			return nil, r.say(r.m["RevertToSnapshot"], "analysis", "%s", r.fail)
		}
		r.logs = r.logs[:r.nsnap:r.nsnap]
		for _, f := range r.filters {
			if f.seen > r.nsnap {
				f.seen = r.nsnap
			}
		}
		return s2, true
	case "gone":
		for i, f := range r.filters {
			if i%3 != 1 || f.gone {
				continue
			}
			s2, v, _, bad, ok := r.rpc(st, "eth_uninstallFilter", r.idArg(f.id))
			if !ok {
				return nil, r.say(ex, "analysis", "%s", r.fail)
			}
			r.n++
			if bad || v != mkBool(true) {
				return nil, r.say(ex, "filters", "a filter is not removed")
			}
			f.gone = true
			st = s2
		}
		return st, true
	case "all", "changes":
		m := map[string]string{"all": "eth_getFilterLogs", "changes": "eth_getFilterChanges"}[f[0]]
		ask := append([]*refFilter{}, r.filters...)
		ask = append(ask, &refFilter{id: int64(len(r.filters) + 1), gone: true, what: "that was never made"})
		for _, f := range ask {
			s2, v, t, bad, ok := r.rpc(st, m, r.idArg(f.id))
			if !ok {
				return nil, r.say(ex, "analysis", "%s", r.fail)
			}
			st = s2
			r.n++
			if f.gone {
				if !bad {
					return nil, r.say(ex, "filters", "%s is answered for a filter %s", m, f.what+" (removed or never made)")
				}
				continue
			}
			if bad {
				return nil, r.say(ex, "filters", "%s is refused for the filter %s", m, f.what)
			}
			logs := r.logs
			if m == "eth_getFilterChanges" {
				logs = logs[f.seen:]
				f.seen = len(r.logs)
			}
			var want []*refLog
			for _, l := range logs {
				if f.matches(l) {
					want = append(want, l)
				}
			}
			if !r.sameLogs(m+" for the filter "+f.what, v, t, want) {
				return nil, false
			}
		}
		return st, true
	}
	panic(o)
}

func (r *logRun) idArg(id int64) *T { return cLit(fmt.Sprintf(`"0x%x"`, id)) }

func (r *logRun) newFilter(st *State, f *refFilter, open string) (*State, bool) {
	ex := r.m["Chain.Execute"]
	kv := []interface{}{"fromBlock", fmt.Sprintf(`"0x%x"`, f.from)}
	to := open
	if f.to >= 0 {
		to = fmt.Sprintf(`"0x%x"`, f.to)
	}
	kv = append(kv, "toBlock", to)
	if f.addr != "" {
		kv = append(kv, "address", jAcct(f.addr))
	}
	if f.topics != "" {
		var el []*T
		for i := range f.topics {
			if f.topics[i] == '.' {
				el = append(el, cLit("null"))
				continue
			}
			b, _ := constBytes(topicConst(f.topics[i]))
			el = append(el, cLit(fmt.Sprintf(`"0x%x"`, b)))
		}
		kv = append(kv, "topics", mk("fn", "list", nil, el...))
	}
	f.what = fmt.Sprintf("[blocks %d to %s, address %q, topics %q]", f.from, to, f.addr, f.topics)
	s2, v, _, bad, ok := r.rpc(st, "eth_newFilter", jObject(kv...))
	if !ok {
		return nil, r.say(ex, "analysis", "%s", r.fail)
	}
	r.n++
	if bad || v == nil {
		return nil, r.say(ex, "filters", "the filter %s is refused", f.what)
	}
	for v.op == "ptr" {
		v = v.args[0]
	}
	if f.id, ok = v.i64(); !ok {
		if b, isBig := bigOf(v); isBig {
			f.id, ok = b.Int64(), true
		}
	}
	if !ok {
		return nil, r.say(ex, "analysis", "the id of a filter is %s", clip(v.String(), 60))
	}
	if r.ids[f.id] {
		return nil, r.say(ex, "filters", "two filters have the id %d", f.id)
	}
	r.ids[f.id] = true
	f.seen = len(r.logs)
	return s2, true
}

func (r *logRun) sameLogs(what string, v *T, t interface{}, want []*refLog) bool {
	ex := r.m["Chain.Execute"]
	var got []*T
	if v != nil {
		var ok bool
		if got, ok = dlist(v); !ok {
			return r.say(ex, "analysis", "%s gives %s", what, clip(v.String(), 80))
		}
	}
	lt := r.c.typ("", "Log")
	for i := 0; i < len(got) || i < len(want); i++ {
		r.n++
		if i >= len(got) {
			return r.say(ex, "filters", "%s leaves out log %d of block %d", what, i, want[i].num)
		}
		var w *refLog
		if i < len(want) {
			w = want[i]
		}
		data := dfield(got[i], lt, "Data")
		if data.op == "bytes" {
			data = data.args[0]
		}
		if w == nil || data != w.spec.data {
			return r.say(ex, "filters", "%s gives a log %d that is not the one there should be", what, i)
		}
		if dfield(got[i], lt, "Address") != acctConst(w.spec.addr) || dfield(got[i], lt, "BlockNumber") != mkInt(w.num) || dfield(got[i], lt, "TxHash") != w.hash {
			return r.say(ex, "filters", "%s gives log %d with another address, block or transaction", what, i)
		}
		tp, ok := dlist(dfield(got[i], lt, "Topics"))
		if !ok || len(tp) != len(w.spec.topics) {
			return r.say(ex, "filters", "%s gives log %d with other topics", what, i)
		}
		for j, g := range tp {
			if g.op == "bytes" {
				g = g.args[0]
			}
			if g != topicConst(w.spec.topics[j]) {
				return r.say(ex, "filters", "%s gives log %d with another topic %d", what, i, j)
			}
		}
	}
	return true
}
