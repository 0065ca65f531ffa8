package main

// Linear inequalities: a small rational polyhedra domain (Fourier-Motzkin
// elimination with integer tightening of the input constraints).

import (
	"go/types"
	"math/big"
	"sort"
)

type cons struct {
	m map[*T]*big.Int // sum <= -c  i.e. sum + c <= 0
	c *big.Int
}

func consOf(l *linform, s int64) cons {
	m := map[*T]*big.Int{}
	b := big.NewInt(s)
	for i, a := range l.atoms {
		m[a] = new(big.Int).Mul(l.coef[i], b)
	}
	return cons{m, new(big.Int).Mul(l.c, b)}
}

func lin64(t *T) *linform {
	k := ikind{64, true}
	if t.op == "lin" {
		// signed forms are taken as exact; unsigned ones only when trivial
		if t.lin.k.signed {
			return &linform{k: k, atoms: t.lin.atoms, coef: t.lin.coef, c: t.lin.c}
		}
		if noWrap(t.lin) {
			return &linform{k: k, atoms: t.lin.atoms, coef: t.lin.coef, c: t.lin.c}
		}
		return &linform{k: k, atoms: []*T{t}, coef: []*big.Int{big.NewInt(1)}, c: new(big.Int)}
	}
	if v, ok := t.intVal(); ok {
		return &linform{k: k, c: new(big.Int).Set(v)}
	}
	return toLin(t, k)
}

// noWrap: the value of an unsigned form fits its type whatever its atoms are
func noWrap(l *linform) bool {
	if l.c.Sign() < 0 {
		return false
	}
	sum := new(big.Int).Set(l.c)
	for i, a := range l.atoms {
		k, ok := kindOf(a.typ)
		if !ok || a.typ == nil || k.signed || k.bits > 32 || l.coef[i].Sign() < 0 {
			return false
		}
		sum.Add(sum, new(big.Int).Mul(l.coef[i], k.max()))
	}
	return sum.Cmp(l.k.max()) <= 0
}

// factCons turns a fact into constraints; ok is false for facts that are
// not linear. ne reports a disequality (returned as l != 0).
func factCons(f *T) (out []cons, ne *linform) {
	switch f.op {
	case "le0":
		out = append(out, consOf(lin64(f.args[0]), 1))
	case "eq":
		if _, ok := f.args[1].intVal(); ok && f.args[0].op != "string" {
			l := lin64(f.args[0]).addScaled(lin64(f.args[1]), big.NewInt(-1))
			if f.args[0].op == "lin" && !f.args[0].lin.k.signed {
				// equality in the ring: exact for an atom only
				l = unsignedEq(f)
				if l == nil {
					return nil, nil
				}
			}
			out = append(out, consOf(l, 1), consOf(l, -1))
		}
	case "not":
		g := f.args[0]
		switch g.op {
		case "eq":
			if _, ok := g.args[1].intVal(); ok {
				if g.args[0].op == "lin" && !g.args[0].lin.k.signed {
					return nil, nil
				}
				return nil, lin64(g.args[0]).addScaled(lin64(g.args[1]), big.NewInt(-1))
			}
		case "ult":
			// b <= a
			l := lin64(g.args[1]).addScaled(lin64(g.args[0]), big.NewInt(-1))
			out = append(out, consOf(l, 1))
		}
	case "ult":
		l := lin64(f.args[0]).addScaled(lin64(f.args[1]), big.NewInt(-1))
		l.c.Add(l.c, big.NewInt(1))
		out = append(out, consOf(l, 1))
	}
	return
}

func unsignedEq(f *T) *linform {
	l := f.args[0].lin
	// a - b == 0 over unsigned atoms
	if len(l.atoms) == 2 && l.c.Sign() == 0 && l.coef[0].Cmp(big.NewInt(1)) == 0 && l.coef[1].Cmp(big.NewInt(-1)) == 0 {
		v, _ := f.args[1].intVal()
		if v.Sign() == 0 {
			return &linform{k: ikind{64, true}, atoms: l.atoms, coef: l.coef, c: new(big.Int)}
		}
	}
	return nil
}

// axioms about an atom
func atomAxioms(a *T) []cons {
	var out []cons
	ge := func(t *T, v *big.Int) { // t >= v
		l := lin64(t)
		z := &linform{k: l.k, c: new(big.Int).Set(v)}
		out = append(out, consOf(z.addScaled(l, big.NewInt(-1)), 1))
	}
	le := func(t *T, v *big.Int) {
		l := lin64(t)
		z := &linform{k: l.k, c: new(big.Int).Neg(v)}
		out = append(out, consOf(z.addScaled(l, big.NewInt(1)), 1))
	}
	le2 := func(a, b *T) { // a <= b
		out = append(out, consOf(lin64(a).addScaled(lin64(b), big.NewInt(-1)), 1))
	}
	switch a.op {
	case "len", "clen":
		lo := new(big.Int)
		if e := a.args[0]; e.op == "fn" && (e.aux == "json" || e.aux == "msgp") {
			lo.SetInt64(1) // no encoding is empty
		}
		ge(a, lo)
	case "cap":
		ge(a, new(big.Int))
		le2(mk("len", "", intT, a.args[0]), a)
	case "and":
		for _, x := range a.args {
			if v, ok := x.intVal(); ok && v.Sign() >= 0 {
				ge(a, new(big.Int))
				le(a, v)
			}
		}
	case "rem":
		if v, ok := a.args[1].intVal(); ok && v.Sign() > 0 {
			m := new(big.Int).Sub(v, big.NewInt(1))
			le(a, m)
			if nonNegAtom(a.args[0]) {
				ge(a, new(big.Int))
			} else {
				ge(a, new(big.Int).Neg(m))
			}
		}
	case "quo", "shr":
		d, ok := a.args[1].intVal()
		if ok && a.op == "shr" {
			if d.Sign() < 0 || d.Cmp(big.NewInt(62)) > 0 {
				ok = false
			} else {
				d = new(big.Int).Lsh(big.NewInt(1), uint(d.Int64()))
			}
		}
		if ok && d.Sign() > 0 && (nonNegAtom(a.args[0]) || a.op == "shr") {
			// d*q <= x <= d*q + d-1
			x := lin64(a.args[0])
			q := &linform{k: x.k, atoms: []*T{a}, coef: []*big.Int{d}, c: new(big.Int)}
			out = append(out, consOf(q.addScaled(x, big.NewInt(-1)), 1))
			r := x.addScaled(q, big.NewInt(-1))
			r.c.Sub(r.c, new(big.Int).Sub(d, big.NewInt(1)))
			out = append(out, consOf(r, 1))
		}
	}
	if k, ok := kindOf(a.typ); ok && a.typ != nil {
		if !k.signed {
			ge(a, new(big.Int))
		}
		if k.bits < 64 {
			ge(a, k.min())
			le(a, k.max())
		}
	}
	return out
}

func nonNegAtom(t *T) bool {
	switch t.op {
	case "len", "clen", "cap":
		return true
	case "lin":
		if !t.lin.k.signed {
			return true
		}
		if t.lin.c.Sign() < 0 {
			return false
		}
		for i, a := range t.lin.atoms {
			if t.lin.coef[i].Sign() < 0 || !nonNegAtom(a) {
				return false
			}
		}
		return true
	}
	k, ok := kindOf(t.typ)
	return ok && t.typ != nil && !k.signed
}

// infeasible decides whether the constraints have no rational solution
// (after integer tightening); false means "do not know"
func infeasible(cs []cons) bool {
	// axioms for all atoms, to a fixpoint
	seen := map[*T]bool{}
	for i := 0; i < len(cs) && len(cs) < 300; i++ {
		var as []*T
		for a := range cs[i].m {
			as = append(as, a)
		}
		sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
		for _, a := range as {
			if !seen[a] {
				seen[a] = true
				cs = append(cs, atomAxioms(a)...)
			}
		}
	}
	norm := func(c cons) (cons, bool, bool) { // constraint, trivially true, contradiction
		g := new(big.Int)
		for a, v := range c.m {
			if v.Sign() == 0 {
				delete(c.m, a)
				continue
			}
			g.GCD(nil, nil, g, new(big.Int).Abs(v))
		}
		if len(c.m) == 0 {
			return c, c.c.Sign() <= 0, c.c.Sign() > 0
		}
		if g.Cmp(big.NewInt(1)) > 0 {
			for _, v := range c.m {
				v.Quo(v, g)
			}
			q, m := new(big.Int), new(big.Int)
			q.DivMod(new(big.Int).Neg(c.c), g, m)
			c.c = q.Neg(q)
		}
		return c, false, false
	}
	var work []cons
	for _, c := range cs {
		n := cons{map[*T]*big.Int{}, new(big.Int).Set(c.c)}
		for a, v := range c.m {
			n.m[a] = new(big.Int).Set(v)
		}
		n, tr, ct := norm(n)
		if ct {
			return true
		}
		if !tr {
			work = append(work, n)
		}
	}
	for {
		// choose the variable with the fewest products
		pos, neg := map[*T]int{}, map[*T]int{}
		for _, c := range work {
			for a, v := range c.m {
				if v.Sign() > 0 {
					pos[a]++
				} else {
					neg[a]++
				}
			}
		}
		var best *T
		bc := 0
		all := map[*T]bool{}
		for a := range pos {
			all[a] = true
		}
		for a := range neg {
			all[a] = true
		}
		for a := range all {
			n := pos[a] * neg[a]
			if best == nil || n < bc || n == bc && a.id < best.id {
				best, bc = a, n
			}
		}
		if best == nil {
			return false
		}
		var next, ps, ns []cons
		for _, c := range work {
			v, ok := c.m[best]
			if !ok {
				next = append(next, c)
			} else if v.Sign() > 0 {
				ps = append(ps, c)
			} else {
				ns = append(ns, c)
			}
		}
		if len(next)+len(ps)*len(ns) > 2000 {
			return false
		}
		for _, p := range ps {
			for _, n := range ns {
				a, b := p.m[best], new(big.Int).Neg(n.m[best])
				r := cons{map[*T]*big.Int{}, new(big.Int)}
				for t, v := range p.m {
					r.m[t] = new(big.Int).Mul(v, b)
				}
				for t, v := range n.m {
					w := new(big.Int).Mul(v, a)
					if o, ok := r.m[t]; ok {
						o.Add(o, w)
					} else {
						r.m[t] = w
					}
				}
				r.c.Add(new(big.Int).Mul(p.c, b), new(big.Int).Mul(n.c, a))
				r, tr, ct := norm(r)
				if ct {
					return true
				}
				if !tr {
					next = append(next, r)
				}
			}
		}
		work = dedup(next)
	}
}

func dedup(cs []cons) []cons {
	type ent struct{ i int }
	seen := map[string]int{}
	var out []cons
	for _, c := range cs {
		var as []*T
		for a := range c.m {
			as = append(as, a)
		}
		sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
		k := ""
		for _, a := range as {
			k += itoa(a.id) + ":" + c.m[a].String() + ","
		}
		if j, ok := seen[k]; ok {
			if c.c.Cmp(out[j].c) > 0 {
				out[j] = c
			}
			continue
		}
		seen[k] = len(out)
		out = append(out, c)
	}
	return out
}

func itoa(i int) string { return big.NewInt(int64(i)).String() }

// related selects the facts connected to the goal through shared atoms
func related(facts []*T, goal []cons) (cs []cons, nes []*linform) {
	type fc struct {
		cs []cons
		ne *linform
		as map[*T]bool
	}
	var fcs []fc
	for _, f := range facts {
		c, ne := factCons(f)
		if len(c) == 0 && ne == nil {
			continue
		}
		as := map[*T]bool{}
		for _, k := range c {
			for a := range k.m {
				as[a] = true
			}
		}
		if ne != nil {
			for _, a := range ne.atoms {
				as[a] = true
			}
		}
		fcs = append(fcs, fc{c, ne, as})
	}
	live := map[*T]bool{}
	var grow func(a *T)
	grow = func(a *T) {
		if live[a] {
			return
		}
		live[a] = true
		for _, c := range atomAxioms(a) {
			for b := range c.m {
				grow(b)
			}
		}
	}
	for _, g := range goal {
		for a := range g.m {
			grow(a)
		}
	}
	used := make([]bool, len(fcs))
	for changed := true; changed; {
		changed = false
		for i, f := range fcs {
			if used[i] {
				continue
			}
			hit := false
			for a := range f.as {
				if live[a] {
					hit = true
				}
			}
			if hit {
				used[i] = true
				changed = true
				for a := range f.as {
					grow(a)
				}
				cs = append(cs, f.cs...)
				if f.ne != nil {
					nes = append(nes, f.ne)
				}
			}
		}
	}
	return
}

// contradicts reports whether facts together with extra are infeasible
func contradicts(facts []*T, extra ...*T) bool {
	var goal []cons
	var gne []*linform
	for _, e := range extra {
		c, ne := factCons(e)
		goal = append(goal, c...)
		if ne != nil {
			gne = append(gne, ne)
		}
	}
	if len(goal) == 0 && len(gne) == 0 {
		return false
	}
	tmp := goal
	for _, n := range gne {
		tmp = append(tmp, consOf(n, 1))
	}
	cs, nes := related(facts, tmp)
	cs = append(cs, goal...)
	nes = append(nes, gne...)
	return splitNe(cs, nes, 3)
}

func splitNe(cs []cons, nes []*linform, depth int) bool {
	if infeasible(append([]cons(nil), cs...)) {
		return true
	}
	if depth == 0 {
		return false
	}
	for i, n := range nes {
		rest := append(append([]*linform(nil), nes[:i]...), nes[i+1:]...)
		lo := consOf(n, 1) // n <= -1
		lo.c.Add(lo.c, big.NewInt(1))
		hi := consOf(n, -1) // n >= 1
		hi.c.Add(hi.c, big.NewInt(1))
		a := infeasible(append(append([]cons(nil), cs...), lo))
		b := infeasible(append(append([]cons(nil), cs...), hi))
		if a && b {
			return true
		}
		if a {
			return splitNe(append(append([]cons(nil), cs...), hi), rest, depth)
		}
		if b {
			return splitNe(append(append([]cons(nil), cs...), lo), rest, depth)
		}
	}
	return false
}

var _ = types.Typ
