package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// An obligation is one instance of a rule at one construct. It is looked at
// on every path that concerns it, and fails when one of them does.
type obligation struct {
	rule, construct, pos string
	looks                int
	fails                []string
}

// Ctx collects what the check of one property looked at.
type Ctx struct {
	P      *Prog
	ID     string
	obs    map[string]*obligation
	order  []string
	counts map[string]int
	fns    map[*ssa.Function]bool
	paths  int
	instrs int
	cache  map[*ssa.Function][]*Outcome
	notes  []string
}

func newCtx(P *Prog, id string) *Ctx {
	return &Ctx{P: P, ID: id, obs: map[string]*obligation{}, counts: map[string]int{}, fns: map[*ssa.Function]bool{}, cache: map[*ssa.Function][]*Outcome{}}
}

// check records one look at an obligation.
func (c *Ctx) check(rule, construct string, pos token.Pos, ok bool, format string, args ...interface{}) bool {
	k := rule + "|" + construct
	o := c.obs[k]
	if o == nil {
		o = &obligation{rule: rule, construct: construct, pos: c.P.pos(pos)}
		c.obs[k] = o
		c.order = append(c.order, k)
	}
	o.looks++
	if !ok {
		m := fmt.Sprintf(format, args...)
		if pos.IsValid() {
			m += " (" + c.P.pos(pos) + ")"
		}
		for _, f := range o.fails {
			if f == m {
				return ok
			}
		}
		if len(o.fails) < 6 {
			o.fails = append(o.fails, m)
		}
	}
	return ok
}

func (c *Ctx) fail(rule, construct string, pos token.Pos, format string, args ...interface{}) {
	c.check(rule, construct, pos, false, format, args...)
}

// atLeast guards against rules that match nothing.
func (c *Ctx) atLeast(what string, have, want int) {
	c.counts[what] = have
	c.check("instances", what, token.NoPos, have >= want, "only %d of %s found, %d or more expected: the rule no longer sees the code it is about", have, what, want)
}

func (c *Ctx) count(what string, n int) { c.counts[what] += n }

// run explores a function, once.
func (c *Ctx) run(fn *ssa.Function) []*Outcome {
	if o, ok := c.cache[fn]; ok {
		return o
	}
	o := c.runEng(newEng(c.P), fn)
	c.cache[fn] = o
	return o
}

func (c *Ctx) runEng(e *Eng, fn *ssa.Function) (outs []*Outcome) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				c.fail("decided", fnName(fn), fn.Pos(), "cannot analyse: %s", u.why)
				outs = nil
				return
			}
			panic(r)
		}
	}()
	outs = e.Run(fn)
	for f := range e.fns {
		c.fns[f] = true
	}
	c.paths += len(outs)
	c.instrs += e.nInstr
	return outs
}

// fn finds a function that the rules are anchored at.
func (c *Ctx) fn(pkg, name string) *ssa.Function {
	f := c.P.fn(pkg, name)
	if f == nil || len(f.Blocks) == 0 {
		c.fail("anchor", pkg+"."+name, token.NoPos, "function %s.%s not found", pkg, name)
		return nil
	}
	return f
}

func (c *Ctx) method(pkg, typ, name string) *ssa.Function {
	f := c.P.method(pkg, typ, name)
	if f == nil || len(f.Blocks) == 0 {
		c.fail("anchor", pkg+"."+typ+"."+name, token.NoPos, "method %s.%s.%s not found", pkg, typ, name)
		return nil
	}
	return f
}

type rule struct {
	id    string
	what  string
	run   func(c *Ctx)
	notes []string // assumptions
}

var rules = map[string]*rule{}

func register(id, what string, run func(c *Ctx), assume ...string) {
	rules[id] = &rule{id: id, what: what, run: run, notes: assume}
}

type finding struct{ prop, key, text string }

func knownFindings(path string) []finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		f := finding{}
		rest := strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		if i := strings.Index(rest, " key="); i >= 0 {
			f.prop = strings.TrimPrefix(rest[:i], "property=")
			rest = rest[i+len(" key="):]
			if j := strings.Index(rest, " :: "); j >= 0 {
				f.key, f.text = rest[:j], rest[j+4:]
			} else {
				f.key = rest
			}
			out = append(out, f)
		}
	}
	return out
}

// check one property; the exit status
func runProperty(P *Prog, loadErr error, id, home, tier string, seed int, start time.Time) int {
	r := rules[id]
	c := newCtx(P, id)
	if loadErr != nil {
		c.P = &Prog{dir: "/repo", fset: token.NewFileSet()}
		c.fail("program", "module", token.NoPos, "the program cannot be analysed: %v", loadErr)
	} else {
		func() {
			defer func() {
				if x := recover(); x != nil {
					if u, ok := x.(undecided); ok {
						c.fail("decided", id, token.NoPos, "cannot analyse: %s", u.why)
						return
					}
					if os.Getenv("VERIF_DEBUG") != "" {
						panic(x)
					}
					if os.Getenv("CHK_TRACE") != "" {
						panic(x)
					}
					c.fail("decided", id, token.NoPos, "the analysis gave up: %v", x)
				}
			}()
			r.run(c)
		}()
	}
	kf := knownFindings(filepath.Join(home, "known-findings.txt"))
	var bad []*obligation
	discharged := 0
	for _, k := range c.order {
		o := c.obs[k]
		if len(o.fails) == 0 {
			discharged++
			continue
		}
		known := false
		for _, f := range kf {
			if f.prop == id && f.key == k {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.text)
				known = true
			}
		}
		if !known {
			bad = append(bad, o)
		}
	}
	c.evidence(r, home, tier, seed, len(bad), discharged, start)
	rep := filepath.Join(home, "reports", id+".txt")
	os.MkdirAll(filepath.Dir(rep), 0755)
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: %s\n", id, r.what)
	for _, o := range bad {
		fmt.Fprintf(&sb, "rule %s at %s (%s)\n", o.rule, o.construct, o.pos)
		for _, f := range o.fails {
			fmt.Fprintf(&sb, "    %s\n", f)
		}
	}
	if len(bad) == 0 {
		fmt.Fprintf(&sb, "no violation in %d obligations\n", len(c.order))
	}
	os.WriteFile(rep, []byte(sb.String()), 0644)
	if len(bad) > 0 {
		fmt.Print(sb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
		return 1
	}
	fmt.Printf("%s: %d obligations hold, %d paths of %d functions\n", id, len(c.order), c.paths, len(c.fns))
	return 0
}

func (c *Ctx) evidence(r *rule, home, tier string, seed, bad, discharged int, start time.Time) {
	var fns []string
	for f := range c.fns {
		fns = append(fns, fnName(f))
	}
	sort.Strings(fns)
	perRule := map[string]int{}
	looks := 0
	var samples []string
	for _, k := range c.order {
		o := c.obs[k]
		perRule[o.rule]++
		looks += o.looks
		if len(samples) < 40 {
			samples = append(samples, fmt.Sprintf("%s at %s (%s): looked at %d times, %d failures", o.rule, o.construct, o.pos, o.looks, len(o.fails)))
		}
	}
	cov := map[string]interface{}{
		"explanation":            r.what,
		"functions_analysed":     fns,
		"paths":                  c.paths,
		"instructions":           c.instrs,
		"obligations":            len(c.order),
		"discharged":             discharged,
		"path_obligation_checks": looks,
		"obligations_per_rule":   perRule,
		"instances":              c.counts,
		"samples":                samples,
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": append([]string{"the Go type checker and SSA construction (golang.org/x/tools v0.52.0) represent the program",
			"standard library functions and the go tool behave as documented"}, r.notes...),
		"wall_s": time.Since(start).Seconds(), "violations": bad,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(home, "evidence"), 0755)
	os.WriteFile(filepath.Join(home, "evidence", c.ID+".json"), append(b, '\n'), 0644)
}

// ---- looking at outcomes ----

// every calls f for each event of the outcome, those in loop iterations and
// callbacks included. trace is the innermost trace, or nil.
func every(evs []*Event, f func(ev *Event, tr *Trace)) {
	var rec func(evs []*Event, tr *Trace)
	rec = func(evs []*Event, tr *Trace) {
		for _, ev := range evs {
			f(ev, tr)
			if ev.Sub != nil {
				for _, t := range ev.Sub.Traces {
					rec(t.Ev, t)
				}
			}
		}
	}
	rec(evs, nil)
}

// subs lists the loops and callbacks of an outcome, nested ones too.
func subs(evs []*Event) []*Event {
	var out []*Event
	every(evs, func(ev *Event, _ *Trace) {
		if ev.Sub != nil {
			out = append(out, ev)
		}
	})
	return out
}

// args without the function value of a dynamic call
func (ev *Event) args() []*Term {
	if ev.Kind == "dyn" && len(ev.Args) > 0 {
		return ev.Args[1:]
	}
	return ev.Args
}

// results of the call
func (ev *Event) results() []*Term {
	if ev.Res == nil {
		return nil
	}
	if ev.Res.Op == "tuple" {
		return ev.Res.A
	}
	return []*Term{ev.Res}
}

// result that is an error, or nil
func (ev *Event) errResult() *Term {
	if ev.Sig == nil {
		return nil
	}
	rs := ev.Sig.Results()
	res := ev.results()
	for i := rs.Len() - 1; i >= 0; i-- {
		if isErr(rs.At(i).Type()) && i < len(res) {
			return res[i]
		}
	}
	return nil
}

func (ev *Event) pos() token.Pos {
	if ev.Instr != nil {
		return ev.Instr.Pos()
	}
	return token.NoPos
}

// error result of the function
func (o *Outcome) err(fn *ssa.Function) *Term {
	rs := fn.Signature.Results()
	for i := rs.Len() - 1; i >= 0; i-- {
		if isErr(rs.At(i).Type()) && i < len(o.Ret) {
			return o.Ret[i]
		}
	}
	return nil
}

func (o *Outcome) where(fn *ssa.Function) token.Pos {
	if o.Pos.IsValid() {
		return o.Pos
	}
	return fn.Pos()
}

func same(f *Facts, a, b *Term) bool {
	if a == b {
		return true
	}
	if f.find(a) == f.find(b) {
		return true
	}
	v, ok := f.decide(tEq(a, b))
	return ok && v
}

// path condition of an outcome, for messages
func cond(f *Facts) string {
	l := f.list()
	if len(l) > 8 {
		l = l[len(l)-8:]
	}
	if len(l) == 0 {
		return "always"
	}
	return "when " + strings.Join(l, " and ")
}

func isNamed(T types.Type, pkg, name string) bool {
	if T == nil {
		return false
	}
	n, ok := types.Unalias(T).(*types.Named)
	if !ok {
		return false
	}
	p := ""
	if n.Obj().Pkg() != nil {
		p = n.Obj().Pkg().Path()
	}
	return p == pkg && n.Obj().Name() == name
}

const herePkg = "github.com/gobuffalo/here"

func isInfo(T types.Type) bool { return isNamed(T, herePkg, "Info") }
func isPath(T types.Type) bool { return isNamed(T, herePkg, "Path") }
