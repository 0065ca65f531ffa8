package main

// The check runner: obligations, reports, evidence.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Viol struct {
	rule, construct, pos, detail string
}

func (v Viol) key() string { return v.rule + "/" + v.construct }

type Check struct {
	id      string
	w       *World
	tier    string
	viols   []Viol
	seen    map[string]bool
	obl     int
	done    int
	rules   map[string]int
	samples []string
	fns     map[string]bool
	notes   []string
}

type CheckDef struct {
	title       string
	technique   string
	explanation string
	assumptions []string
	min         int // obligations confirmed by hand: fewer means the rule lost its sites
	run         func(c *Check)
}

var checks = map[string]*CheckDef{}

// ob records one obligation; a false one is a violation
func (c *Check) ob(rule, construct string, pos token.Pos, ok bool, format string, a ...interface{}) bool {
	c.obl++
	c.rules[rule]++
	if ok {
		c.done++
		if c.rules[rule] <= 3 {
			c.samples = append(c.samples, fmt.Sprintf("%s: %s [%s]", rule, construct, fmtPos(c.w.prog, pos)))
		}
		return true
	}
	v := Viol{rule, construct, fmtPos(c.w.prog, pos), fmt.Sprintf(format, a...)}
	if k := v.key() + v.detail; !c.seen[k] {
		c.seen[k] = true
		c.viols = append(c.viols, v)
	}
	return false
}

func (c *Check) bad(rule, construct string, pos token.Pos, format string, a ...interface{}) {
	c.ob(rule, construct, pos, false, format, a...)
}

// fn resolves an anchor
func (c *Check) fn(rel, name string) *ssa.Function {
	f := c.w.Func(rel, name)
	c.obl++
	if f == nil || len(f.Blocks) == 0 {
		c.viols = append(c.viols, Viol{"anchor", rel + "." + name, "?", "the function this property is anchored on does not exist any more"})
		return nil
	}
	c.done++
	c.fns[fnName(f)] = true
	return f
}

func (c *Check) typ(rel, name string) types.Type {
	t := c.w.Type(rel, name)
	c.obl++
	if t == nil {
		c.viols = append(c.viols, Viol{"anchor", rel + "." + name, "?", "the type this property is anchored on does not exist any more"})
		return nil
	}
	c.done++
	return t
}

func (c *Check) analyze(f *ssa.Function, conf func(x *Exec)) *Result {
	if f == nil {
		return nil
	}
	c.fns[fnName(f)] = true
	r, err := c.w.Analyze(f, conf)
	if err != nil {
		c.bad("analysis", fnName(f), f.Pos(), "the function could not be analysed: %v", err)
		return nil
	}
	return r
}

type known struct{ prop, key, what string }

func loadKnown() (out []known) {
	b, err := os.ReadFile(filepath.Join(verifRoot(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: property="), " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[1], "key=") {
			out = append(out, known{f[0], strings.TrimPrefix(f[1], "key="), f[2]})
		}
	}
	return
}

func verifRoot() string {
	if r := os.Getenv("SA_VERIF"); r != "" {
		return r
	}
	d, err := os.Getwd()
	if err == nil {
		if _, e := os.Stat(filepath.Join(d, "MANIFEST.json")); e == nil {
			return d
		}
	}
	return "/verif"
}

func runChecks(ids []string) int {
	rc := 0
	start := time.Now()
	w, lerr := loadWorld()
	loadT := time.Since(start)
	for _, id := range ids {
		t0 := time.Now()
		d := checks[id]
		if d == nil {
			fmt.Fprintln(os.Stderr, "no such check:", id)
			return 2
		}
		c := &Check{id: id, w: w, tier: os.Getenv("VERIF_TIER"), seen: map[string]bool{}, rules: map[string]int{}, fns: map[string]bool{}}
		if c.tier != "thorough" {
			c.tier = "quick"
		}
		if lerr != nil {
			c.viols = append(c.viols, Viol{"load", "repository", "?", lerr.Error()})
		} else {
			w.used = map[*ssa.Function]bool{}
			w.nPaths, w.nEvents = 0, 0
			func() {
				defer func() {
					if r := recover(); r != nil {
						c.viols = append(c.viols, Viol{"analysis", "panic", "?", fmt.Sprintf("the analysis failed: %v", r)})
						if os.Getenv("SA_DEBUG") != "" {
							fmt.Fprintln(os.Stderr, string(debug.Stack()))
						}
					}
				}()
				d.run(c)
			}()
			if c.obl < d.min {
				c.viols = append(c.viols, Viol{"coverage", "obligations", "?", fmt.Sprintf("only %d obligations were found where at least %d are expected: the rule lost its sites", c.obl, d.min)})
			}
		}
		if !c.report(d, loadT+time.Since(t0)) {
			rc = 1
		}
	}
	return rc
}

func (c *Check) report(d *CheckDef, wall time.Duration) bool {
	ks := loadKnown()
	var viols []Viol
	for _, v := range c.viols {
		k := false
		for _, n := range ks {
			if n.prop == c.id && n.key == v.key() {
				k = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, n.what)
			}
		}
		if !k {
			viols = append(viols, v)
		}
	}
	dir := filepath.Join(verifRoot(), "evidence")
	os.MkdirAll(dir, 0o755)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fns []string
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var inl []string
	if c.w != nil {
		for f := range c.w.used {
			inl = append(inl, fnName(f))
		}
	}
	sort.Strings(inl)
	cov := map[string]interface{}{
		"explanation":           d.explanation,
		"rule":                  d.explanation,
		"obligations":           c.obl,
		"discharged":            c.done,
		"obligations_by_rule":   c.rules,
		"anchors":               fns,
		"functions_interpreted": inl,
		"samples":               c.samples,
	}
	if c.w != nil {
		cov["paths"] = c.w.nPaths
		cov["effects"] = c.w.nEvents
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	ev := map[string]interface{}{
		"property":    c.id,
		"tier":        c.tier,
		"seed":        seed,
		"level":       "other",
		"coverage":    cov,
		"assumptions": append([]string{}, d.assumptions...),
		"wall_s":      float64(int(wall.Seconds()*1000)) / 1000,
		"violations":  len(viols),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, c.id+".json"), append(b, '\n'), 0o644)
	if len(viols) == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d functions=%d\n", c.id, c.obl, c.done, len(inl))
		return true
	}
	var sb strings.Builder
	for _, v := range viols {
		fmt.Fprintf(&sb, "%s: [%s] %s: %s\n", v.pos, v.rule, v.construct, v.detail)
	}
	rp := filepath.Join(dir, c.id+".violations.txt")
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, v := range viols {
		if i == 20 {
			fmt.Printf("... and %d more\n", len(viols)-i)
			break
		}
		d := v.detail
		if len(d) > 500 {
			d = d[:500] + "..."
		}
		fmt.Printf("%s: [%s] %s: %s\n", v.pos, v.rule, v.construct, d)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rp)
	return false
}
