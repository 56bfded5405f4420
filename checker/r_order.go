package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C21: nothing that packing, listing or parsing writes depends on the order
// in which a map is iterated, or on the time, chance, the process or
// concurrency.

// mapLoop: the event is an iteration over a map
func mapLoop(ev *Event) bool {
	if ev.Sub == nil {
		return false
	}
	if ev.Kind == "callback" {
		return ev.Name == "(*sync.Map).Range" || ev.Name == "Files.Range" || ev.Name == "Infos.Range"
	}
	if ev.Kind != "loop" || ev.Sub.Loop == nil {
		return false
	}
	for _, in := range ev.Sub.Loop.head.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			return true
		}
	}
	return false
}

// ofRange: the term is an element of the iteration over a map
func ofRange(t *Term) bool {
	switch t.Op {
	case "rangekey", "rangeval":
		return true
	}
	return false
}

type orderRule struct {
	c     *Ctx
	fn    *ssa.Function
	loops int
	// symbols whose value depends on the order of an iteration, and the
	// elements appended to them
	taint map[*Term]bool
	cbArg map[*Term]bool
	keyOf map[*Term]bool
}

// elem: the term depends on which element is looked at
func (r *orderRule) elem(t *Term) bool {
	return t != nil && t.any(func(x *Term) bool { return ofRange(x) || r.cbArg[x] })
}

// identifying: two elements never have the same value of the term
func (r *orderRule) identifying(t *Term) bool {
	switch t.Op {
	case "rangekey":
		return true
	case "assert", "iface", "conv", "concat", "struct", "list":
		for _, a := range t.A {
			if r.identifying(a) {
				return true
			}
		}
		return false
	case "ext":
		return t.S == "0" && len(t.A) == 1 && r.identifying(t.A[0])
	case "app":
		switch t.S {
		case "Path.String", "string", "fmt.Sprint", "fmt.Sprintf", "strconv.Quote", "strconv.Itoa":
			for _, a := range t.A {
				if r.identifying(a) {
					return true
				}
			}
		}
		return false
	case "res":
		// json.Marshal of the key
		if ev, ok := t.X.(*Event); ok && ev.Name == "encoding/json.Marshal" && len(ev.Args) == 1 {
			return r.identifying(ev.Args[0])
		}
	}
	return r.keyOf[t]
}

func (r *orderRule) tainted(t *Term) *Term {
	var hit *Term
	if t == nil {
		return nil
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || hit != nil {
			return
		}
		if r.taint[t] {
			hit = t
			return
		}
		if t.Op == "len" {
			return
		}
		if t.Op == "eq" {
			for _, a := range t.A {
				if a.isZero() {
					return
				}
			}
		}
		for _, a := range t.A {
			rec(a)
		}
	}
	rec(t)
	return hit
}

// list walks the events of one level. late are terms used after them.
// It reports the symbols that are still in an order of their own at the end.
func (r *orderRule) list(evs []*Event, where token.Pos) (open map[*Term]bool) {
	c := r.c
	k := fnName(r.fn)
	open = map[*Term]bool{}
	for i, ev := range evs {
		if ev.Sub != nil {
			r.sub(ev, open)
			continue
		}
		if name := sortCall(ev); name != "" {
			for t := range open {
				if len(ev.Args) > 0 && stripIface(ev.Args[0]) != nil && ev.Args[0].contains(t) {
					var cmp *Event
					if i+1 < len(evs) && evs[i+1].Kind == "callback" && evs[i+1].Instr == ev.Instr {
						cmp = evs[i+1]
					}
					ok, why := r.total(ev, cmp, name)
					c.check("sorted", k, ev.pos(), ok, "the list collected from a map is sorted by %s, which leaves elements that are equal in it in the order of the map", why)
					delete(open, t)
					delete(r.taint, t)
				}
			}
			continue
		}
		if ev.Kind == "store" {
			continue // what counts is whether it is sorted in the end
		}
		for _, a := range ev.Args {
			if ev.Pure {
				break
			}
			if t := r.tainted(a); t != nil {
				c.fail("ordered", k, ev.pos(), "%s gets what an iteration over a map left in the order of the map", ev.Name)
			}
		}
	}
	return open
}

func sortCall(ev *Event) string {
	if ev.Kind != "call" {
		return ""
	}
	switch ev.Name {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
		return ev.Name
	}
	return ""
}

// total: the comparison tells all the elements apart
func (r *orderRule) total(ev, cmp *Event, name string) (bool, string) {
	var rets []*Term
	var traces []*State
	var params []*Term
	switch name {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
		return true, ""
	case "sort.Sort", "sort.Stable":
		var T types.Type
		if cc, ok := ev.Instr.(ssa.CallInstruction); ok && len(cc.Common().Args) == 1 {
			if m, ok := cc.Common().Args[0].(*ssa.MakeInterface); ok {
				T = m.X.Type()
			}
		}
		if T == nil {
			return false, "something unknown"
		}
		if isNamed(T, "sort", "StringSlice") || isNamed(T, "sort", "IntSlice") {
			return true, ""
		}
		f := r.c.P.prog.LookupMethod(T, pkgOf(T), "Less")
		if f == nil || len(f.Blocks) == 0 {
			return false, "something unknown"
		}
		e := newEng(r.c.P)
		params = e.Params(f)
		for _, o := range r.c.runEng(e, f) {
			if o.Panic == nil && len(o.Ret) == 1 {
				rets = append(rets, o.Ret[0])
				traces = append(traces, o.St)
			}
		}
		params = params[1:]
	default:
		if cmp == nil {
			return false, "something unknown"
		}
		params = cmp.Sub.Args
		for _, tr := range cmp.Sub.Traces {
			if len(tr.Ret) == 1 {
				rets = append(rets, tr.Ret[0])
				traces = append(traces, tr.St)
			}
		}
	}
	if len(params) != 2 {
		return false, "something unknown"
	}
	// what is compared, as functions of one element
	keys := map[string]bool{}
	seen := func(t *Term) {
		t.any(func(x *Term) bool {
			if x.Op != "lt" && x.Op != "eq" && !x.isApp("strings.Compare") || len(x.A) != 2 {
				return false
			}
			a, b := x.A[0], x.A[1]
			pa, ka := projection(a, params)
			pb, kb := projection(b, params)
			if pa >= 0 && pb >= 0 && pa != pb && ka == kb {
				keys[ka] = true
			}
			return false
		})
	}
	for i, t := range rets {
		seen(t)
		if traces[i] != nil {
			for _, f := range traces[i].facts.ord {
				seen(f)
			}
		}
	}
	var l []string
	pkg, nm := false, false
	for k := range keys {
		l = append(l, k)
		last := k[strings.LastIndex(k, ".")+1:]
		switch {
		case k == "", k == "String()", last == "Abs", last == "String()":
			return true, ""
		case last == "Pkg":
			pkg = true
		case last == "Name":
			nm = true
		}
	}
	if pkg && nm {
		return true, ""
	}
	if len(l) == 0 {
		return false, "something unknown"
	}
	return false, strings.Join(l, ", ")
}

func pkgOf(T types.Type) *types.Package {
	if n, ok := types.Unalias(deref(T)).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

// projection: the part of an element that the term is, and of which element
func projection(t *Term, params []*Term) (int, string) {
	which := -1
	for i, p := range params {
		if t.contains(p) {
			if which >= 0 {
				return -1, ""
			}
			which = i
		}
	}
	if which < 0 {
		return -1, ""
	}
	s := ""
	x := t
	for x != nil {
		switch x.Op {
		case "app":
			n := x.S[strings.LastIndex(x.S, ".")+1:] + "()"
			if s != "" {
				n += "." + s
			}
			s = n
			if len(x.A) == 0 {
				return -1, ""
			}
			x = x.A[0]
		case "field", "faddr":
			n := fieldLabel(x)
			if s != "" {
				n += "." + s
			}
			s = n
			x = x.A[0]
		case "deref", "assert", "iface", "conv":
			x = x.A[0]
		case "struct":
			// a copy: the same thing when it has parts of one element only
			if len(x.A) == 0 {
				return -1, ""
			}
			x = x.A[0].base()
			if x == nil {
				return -1, ""
			}
		case "index", "iaddr":
			return which, s
		default:
			if x == params[which] {
				return which, s
			}
			return -1, ""
		}
	}
	return -1, ""
}

func fieldLabel(t *Term) string {
	if t.Op == "field" {
		return t.S
	}
	if i, ok := t.X.(int); ok && len(t.A) > 0 && t.A[0].T != nil {
		if st, ok := deref(t.A[0].T).Underlying().(*types.Struct); ok && i < st.NumFields() {
			return st.Field(i).Name()
		}
	}
	return t.S
}

// sub looks at a loop or callback.
func (r *orderRule) sub(ev *Event, open map[*Term]bool) {
	c := r.c
	k := fnName(r.fn)
	isMap := mapLoop(ev)
	if isMap {
		r.loops++
	}
	if ev.Kind == "callback" && isMap {
		for i, a := range ev.Sub.Args {
			r.cbArg[a] = true
			if i == 0 {
				r.keyOf[a] = true
			}
		}
	}
	collects := false
	for _, tr := range ev.Sub.Traces {
		inner := r.list(tr.Ev, ev.pos())
		for s, v := range tr.Back {
			if v == s || isErr(s.T) {
				continue
			}
			if t := r.tainted(v); t != nil && t != s {
				if inner[t] || r.taint[t] {
					r.taint[s], open[s] = true, true
				}
			}
			if isMap && !r.commutes(s, v) {
				r.taint[s], open[s] = true, true
			}
		}
		if isMap {
			every(tr.Ev, func(x *Event, _ *Trace) {
				if r.effect(ev, x) {
					collects = true
				}
			})
		}
	}
	if !isMap {
		return
	}
	if len(open) > 0 {
		collects = true
	}
	if ev.Kind != "callback" {
		return
	}
	// a callback that ends the iteration
	for _, tr := range ev.Sub.Traces {
		if len(tr.Ret) != 1 || !collects {
			continue
		}
		if v, ok := tr.St.facts.decide(tr.Ret[0]); ok && v {
			continue
		}
		excused := false
		for _, f := range tr.St.facts.ord {
			if f.Op == "istype" {
				if v, ok := tr.St.facts.decide(f); ok && !v {
					excused = true // C12: all the elements are of the type
				}
			}
		}
		for s, v := range tr.Back {
			if isErr(s.T) && tr.St.facts.notNil(v) {
				excused = true
			}
		}
		c.check("all elements", k, ev.pos(), excused, "the iteration over a map may end before all elements were seen: which ones it saw depends on the order of the map")
	}
}

// commutes: the new value of the variable does not depend on the order
func (r *orderRule) commutes(s, v *Term) bool {
	if v.isConst() {
		return true
	}
	if !r.elem(v) && !v.contains(s) && r.tainted(v) == nil {
		return true
	}
	switch v.Op {
	case "add":
		if len(v.A) == 2 && v.A[0] == s && isInteger(v.T) && !v.A[1].contains(s) {
			return true
		}
	case "or", "and":
		return true
	}
	return false
}

func isInteger(T types.Type) bool {
	if T == nil {
		return false
	}
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// effect looks at one event inside an iteration over a map; it reports
// whether it keeps something.
func (r *orderRule) effect(loop, ev *Event) bool {
	c := r.c
	k := fnName(r.fn)
	switch ev.Kind {
	case "mapupdate":
		key, val := ev.Args[1], ev.Args[2]
		ok := r.identifying(key) || !r.elem(val) || stripIface(key) == stripIface(val)
		c.check("map entries", k, ev.pos(), ok, "elements of a map are put into another one under %s, which they may share: which one is left depends on the order", key)
		return true
	case "prim":
		if strings.HasSuffix(ev.Name, ".Store") {
			key, val := ev.Args[1], ev.Args[2]
			ok := r.identifying(key) || !r.elem(val)
			c.check("map entries", k, ev.pos(), ok, "elements of a map are put into another one under %s, which they may share: which one is left depends on the order", key)
			return true
		}
	case "call", "invoke", "dyn", "rec", "go", "send":
		if ev.Pure {
			return false
		}
		if out, what := isOutput(ev); out {
			c.fail("output", k, ev.pos(), "%s is called for the elements of a map in the order of the iteration", what)
			return true
		}
	}
	return false
}

// isOutput: the call appends to something that has an order
func isOutput(ev *Event) (bool, string) {
	if ev.Kind == "go" || ev.Kind == "send" {
		return true, ev.Kind
	}
	n := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
	switch {
	case strings.HasPrefix(n, "Write"), strings.HasPrefix(n, "Fprint"), strings.HasPrefix(n, "Print"), n == "Encode", n == "ReadFrom", n == "Copy" && strings.HasPrefix(ev.Name, "io."), strings.HasPrefix(n, "Append"):
		return true, ev.Name
	}
	return false, ""
}

func (c *Ctx) unordered(fn *ssa.Function) int {
	loops := 0
	k := fnName(fn)
	for _, o := range c.run(fn) {
		if o.Panic != nil {
			continue
		}
		r := &orderRule{c: c, fn: fn, taint: map[*Term]bool{}, cbArg: map[*Term]bool{}, keyOf: map[*Term]bool{}}
		r.list(o.St.ev, fn.Pos())
		loops += r.loops
		if r.loops == 0 {
			continue
		}
		if e := o.err(fn); e != nil && o.St.facts.notNil(e) {
			continue
		}
		for i, t := range o.Ret {
			if i < fn.Signature.Results().Len() && isErr(fn.Signature.Results().At(i).Type()) {
				continue
			}
			bad := r.tainted(t)
			c.check("ordered", k, o.where(fn), bad == nil, "the result is in the order of the iteration over a map (%s)", bad)
			c.check("ordered", k, o.where(fn), bad != nil || !r.elem(t), "the result is an element that the iteration over a map met first, or last: %s", t)
		}
		// what is left in memory that others see
		for a, v := range o.St.mem {
			if p := rootOf(a); p.Op != "alloc" {
				bad := r.tainted(v)
				c.check("ordered", k, o.where(fn), bad == nil, "%s is left in the order of the iteration over a map", a)
			}
		}
		// early end of a loop
		for _, f := range o.St.facts.ord {
			if f.Op == "sym" && strings.HasPrefix(f.S, "next#") && strings.HasSuffix(f.S, ".more") {
				if v, ok := o.St.facts.decide(f); ok && v {
					c.fail("all elements", k, o.where(fn), "the iteration over a map may end before all elements were seen, without an error: which ones it saw depends on the order of the map")
				}
			}
		}
	}
	return loops
}

func c21(c *Ctx) {
	g := newFx(c.P)
	var roots []*ssa.Function
	for _, t := range []string{"packCmd", "listCmd", "parseCmd"} {
		if f := c.method("cmd/pkger/cmds", t, "Exec"); f != nil {
			roots = append(roots, f)
		}
	}
	reached := map[*ssa.Function]bool{}
	sites := 0
	for _, f := range roots {
		hits, seen := g.reach(f, func(f *ssa.Function) bool { return f.Pkg != nil && strings.HasPrefix(relPkg(f), "pkging/pkgtest") })
		for s := range seen {
			reached[s] = true
		}
		bad := 0
		for _, h := range hits {
			sites++
			if !inModule(c, h.in) {
				continue
			}
			switch h.class {
			case "time", "random", "process", "goroutine", "select", "dir-order":
				bad++
				c.fail("same input, same output", fnName(h.in), h.pos, "%s: %s", h.class, h)
			}
		}
		c.check("same input, same output", fnName(f), f.Pos(), true, "")
	}
	c.count("effects looked at", sites)
	// json.Marshal calls these by reflection
	more := func(f *ssa.Function) bool {
		return f.Name() == "MarshalJSON" || f.Name() == "String"
	}
	loops, n := 0, 0
	for _, f := range c.P.all {
		rel := relPkg(f)
		if f.Parent() != nil || f.Synthetic != "" || len(f.Blocks) == 0 || strings.HasPrefix(rel, "pkging/pkgtest") || !inModule(c, f) {
			continue
		}
		if !reached[f] && !more(f) {
			continue
		}
		// a helper is looked at where it is called
		if !token.IsExported(f.Name()) && c.calledInPackage(f) {
			continue
		}
		if !c.mayRange(f, map[*ssa.Function]bool{}, rel) {
			continue
		}
		n++
		loops += c.unordered(f)
	}
	for f := range reached {
		if !inModule(c, f) {
			continue
		}
		c.noAddresses(f)
	}
	c.count("functions with iterations", n)
	c.atLeast("iterations over maps", loops, 6)
}

// noAddresses: no pointer is formatted as such
func (c *Ctx) noAddresses(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			cc, ok := in.(ssa.CallInstruction)
			if !ok || cc.Common().StaticCallee() == nil || fnPkg(cc.Common().StaticCallee()) != "fmt" {
				continue
			}
			for _, a := range cc.Common().Args {
				if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
					if strings.Contains(constant.StringVal(k.Value), "%p") {
						c.fail("same input, same output", fnName(f), in.Pos(), "an address is written")
					}
				}
			}
		}
	}
}

// calledInPackage: somebody in the same package calls it, by name
func (c *Ctx) calledInPackage(f *ssa.Function) bool {
	for _, g := range c.P.all {
		if g == f || fnPkg(g) != fnPkg(f) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if cc, ok := in.(ssa.CallInstruction); ok && cc.Common().StaticCallee() == f {
					return true
				}
			}
		}
	}
	return false
}

// mayRange: the function, or what it calls in its package, iterates over a map
func (c *Ctx) mayRange(f *ssa.Function, seen map[*ssa.Function]bool, rel string) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Range); ok {
				if _, ok := r.X.Type().Underlying().(*types.Map); ok {
					return true
				}
			}
			cc, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if g := cc.Common().StaticCallee(); g != nil {
				if strings.HasSuffix(g.String(), ").Range") || strings.Contains(g.String(), "MapKeys") {
					return true
				}
				if relPkg(g) == rel && c.mayRange(g, seen, rel) {
					return true
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		if c.mayRange(a, seen, rel) {
			return true
		}
	}
	return false
}

func init() {
	register("C21", "path-sensitive dataflow over SSA: in every function that packing, listing and parsing reach, an iteration over a map only makes changes that commute (entries under a key that identifies the element, counters, constants) or collects a list that is sorted by something that identifies the elements before it is used, returned or left in memory; no reachable code of the module reads the time, random numbers or the process, lists a directory unsorted, or starts a goroutine", c21,
		"encoding/json writes maps sorted by key", "go/parser, filepath.Walk and the go tool give the same results for the same files")
}
