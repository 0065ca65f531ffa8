package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
)

func main() {
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(6 << 30)
	stop := startProf()
	defer stop()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sa check <id> | sa dump <pkg> <func> [opaque...]")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		ids := os.Args[2:]
		if len(ids) == 1 && ids[0] == "all" {
			ids = nil
			for id := range checks {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		}
		rc := runChecks(ids)
		stop()
		os.Exit(rc)
	case "list":
		for id := range checks {
			fmt.Println(id, checks[id].title)
		}
	case "dump":
		dump(os.Args[2:])
	}
}

func dump(a []string) {
	w, err := loadWorld()
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fn := w.Func(strings.TrimPrefix(a[0], "."), a[1])
	if fn == nil {
		fmt.Println("no function")
		os.Exit(1)
	}
	r, err := w.Analyze(fn, func(x *Exec) { x.opaque = opaqueNames(a[2:]...) })
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	for i, p := range r.Paths {
		fmt.Printf("--- path %d: %s", i, p.Kind)
		for _, t := range p.Ret {
			fmt.Printf(" %s", show(r.X, p.St, t))
		}
		fmt.Println()
		for j := len(p.Facts) - 1; j >= 0; j-- {
			fmt.Println("   if", p.Facts[j])
		}
		dumpEvents(w, r.X, p.Events, "   ")
	}
	fmt.Println(len(r.Paths), "paths", r.X.steps, "steps")
}

func show(x *Exec, st *State, t *T) string {
	s := t.String()
	if t.op == "slice" {
		s += " = " + x.content(st, t).String()
	}
	if t.op == "alloc" && t.typ != nil {
		if d := deref(t.typ); d != nil {
			s += " = &" + x.load(st, t, d).String()
		}
	}
	return s
}

func dumpEvents(w *World, x *Exec, evs []*Event, ind string) {
	for _, e := range evs {
		var as []string
		for _, t := range e.args {
			if e.st != nil {
				as = append(as, show(x, e.st, t))
			} else {
				as = append(as, t.String())
			}
		}
		fmt.Printf("%s%s %s(%s) -> %v  [%s]\n", ind, e.kind, e.name, strings.Join(as, ", "), e.res, fmtPos(w.prog, e.pos))
		if e.loop != nil {
			for _, v := range e.loop.vars {
				fmt.Printf("%s  var %s = %s -> %v\n", ind, v.sym, v.init, v.nexts)
			}
			for i, it := range e.loop.iters {
				fmt.Printf("%s  iter %d\n", ind, i)
				dumpEvents(w, x, it.Events, ind+"    ")
			}
		}
	}
}
