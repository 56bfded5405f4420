package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C23: no operation panics ----

// the library; what is below cmd is the tool, and ends for good reasons
var libPkgs = []string{"", "here", "parser", "pkging", "pkging/mem", "pkging/stdos", "pkging/embed", "pkging/pkgutil", "internal/maps"}

// a place that panics, unless what the paths to it know rules it out
type panicSite struct {
	kind  string
	in    ssa.Instruction
	fn    *ssa.Function
	looks []panicLook
}

type panicLook struct {
	root *ssa.Function
	f    *Facts
	evs  []*Event
	t    []*Term
}

// event: the step on the path that gave the term. Results of the same step of
// another function are the same term, so that its X may be another one.
func (l panicLook) event(t *Term) *Event {
	if ev := eventOf(l.evs, t); ev != nil {
		return ev
	}
	var found *Event
	every(l.evs, func(ev *Event, tr *Trace) {
		for _, r := range ev.results() {
			if r == t && found == nil {
				found = ev
			}
		}
	})
	if found != nil {
		return found
	}
	ev, _ := t.X.(*Event)
	return ev
}

// what the fields, and the elements, of the types of the library hold is
// decided by everything that is stored there
type slot struct {
	T string // the struct; or the type of the elements
	i int
}

var slotTypes = map[string]types.Type{}

func slotOf(T types.Type, i int) slot {
	k := typeKey(T)
	slotTypes[k] = T
	return slot{k, i}
}

type panics struct {
	c     *Ctx
	lib   map[string]bool
	sites map[siteKey]*panicSite
	order []*panicSite
	// values that are stored in fields and elements, with what was known
	puts   map[slot][]panicLook
	putAt  map[slot][]token.Pos
	unset  map[slot]string               // a struct is made without the field
	kept   map[*Term]map[types.Type]bool // what is stored in a sync.Map
	rets   map[*ssa.Function][]*Outcome
	state  map[slot]int // 1: being decided, 2: never nil, 3: may be nil
	fstate map[*ssa.Function]int
	hstate map[slot]bool
	nstate map[slot]bool
	todo   map[*ssa.Function]bool
	more   []*ssa.Function
	why    map[slot]string
}

func slotName(s slot) string {
	if s.i < 0 {
		return "an element of type " + s.T
	}
	return "field " + slotTypes[s.T].Underlying().(*types.Struct).Field(s.i).Name() + " of " + s.T
}

func nilable(T types.Type) bool {
	if T == nil {
		return false
	}
	switch T.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Chan:
		return true
	}
	return false
}

func c23(c *Ctx) { c.noPanics(libPkgs, libPkgs, 80) }

// c34: nor does the tool, whatever its arguments
func c34(c *Ctx) {
	tool := []string{"cmd/pkger", cmdsPkg}
	c.noPanics(append(append([]string(nil), libPkgs...), tool...), tool, 100)
}

// noPanics: of what is in pkgs, the places in those that are reported
func (c *Ctx) noPanics(pkgs, reported []string, entries int) {
	p := &panics{c: c, lib: map[string]bool{}, sites: map[siteKey]*panicSite{}, hstate: map[slot]bool{}, nstate: map[slot]bool{}, todo: map[*ssa.Function]bool{}, puts: map[slot][]panicLook{}, putAt: map[slot][]token.Pos{}, unset: map[slot]string{},
		kept: map[*Term]map[types.Type]bool{}, rets: map[*ssa.Function][]*Outcome{}, state: map[slot]int{}, fstate: map[*ssa.Function]int{}, why: map[slot]string{}}
	for _, x := range pkgs {
		p.lib[pkgPath(x)] = true
	}
	shown := map[string]bool{}
	for _, x := range reported {
		shown[pkgPath(x)] = true
	}
	p.made()
	roots := p.entries()
	for _, fn := range roots {
		p.todo[fn] = true
		p.explore(fn)
	}
	for len(p.more) > 0 {
		fn := p.more[0]
		p.more = p.more[1:]
		p.explore(fn)
	}
	kinds := map[string]int{}
	sort.SliceStable(p.order, func(i, j int) bool {
		a, b := c.P.fset.Position(p.order[i].in.Pos()), c.P.fset.Position(p.order[j].in.Pos())
		if a.Filename != b.Filename {
			return a.Filename < b.Filename
		}
		return a.Offset < b.Offset
	})
	n := map[string]int{}
	for _, s := range p.order {
		if !shown[fnPkg(s.fn)] {
			continue
		}
		kinds[s.kind]++
		at := fnName(s.fn)
		n[s.kind+at]++
		k := fmt.Sprintf("%s %d of %s", s.kind, n[s.kind+at], at)
		seen := 0
		for _, l := range s.looks {
			why := p.may(s.kind, l)
			if why != "" && seen > 2 {
				continue
			}
			if why != "" {
				seen++
			}
			c.check("no panic", k, s.in.Pos(), why == "", "from %s, %s: %s", fnName(l.root), cond(l.f), why)
		}
	}
	for k, v := range kinds {
		c.count("sites: "+k, v)
	}
	c.atLeast("entries", len(roots), entries)
	if os.Getenv("C23") != "" {
		fmt.Println(kinds, len(roots))
		for s, w := range p.why {
			fmt.Println(slotName(s), w)
		}
	}
}

// entries: what users, and other packages, can call
func (p *panics) entries() (l []*ssa.Function) {
	for _, fn := range p.c.P.funcs(func(x string) bool { return p.lib[x] }) {
		if fn.Parent() != nil || len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		if token.IsExported(fn.Name()) {
			l = append(l, fn)
		}
	}
	return
}

func (p *panics) explore(fn *ssa.Function) {
	e := newEng(p.c.P)
	e.Opaque = func(f *ssa.Function) bool { return f != fn && p.c.P.isContract(f) }
	e.Hook = func(kind string, fr *frame, in ssa.Instruction, st *State, t ...*Term) {
		if fr == nil || fr.fn == nil || !p.lib[fnPkg(fr.fn)] {
			return
		}
		switch kind {
		case "store":
			if a := t[0]; a.Op == "faddr" {
				if i, ok := a.X.(int); ok && a.A[0].T != nil {
					p.put(slotOf(deref(a.A[0].T), i), fn, in, st, t[1])
				}
			} else if a.Op == "iaddr" {
				if s, ok := in.(*ssa.Store); ok && nilable(s.Val.Type()) {
					p.put(slotOf(s.Val.Type(), -1), fn, in, st, t[1])
				}
			}
			return
		case "called":
			ev := st.ev[len(st.ev)-1]
			switch {
			case ev.Kind == "rec":
				// with these arguments, it is looked at for itself
				if f := p.calleeOf(in); f != nil && !p.todo[f] {
					p.todo[f] = true
					p.more = append(p.more, f)
				}
				var l []*Term
				for _, a := range ev.Args {
					if nilable(a.T) {
						l = append(l, a)
					}
				}
				p.look("argument", fn, fr.fn, in, st, l)
			case ev.Kind == "dyn" && ev.Sig != nil && isWalkFunc(ev.Sig) && st.facts.isNil(ev.Args[3]):
				p.look("call of a walk function", fn, fr.fn, in, st, ev.Args[2:3])
			case ev.Kind == "call" && ev.Recv != nil && p.calleeOf(in) != nil && p.lib[fnPkg(p.calleeOf(in))] && nilable(ev.Recv):
				p.look("argument", fn, fr.fn, in, st, ev.Args[:1])
			}
			if ev.Kind != "call" && ev.Kind != "invoke" {
				return
			}
			p.library(ev, fn, fr.fn, in, st)
			if ev.Name == "(*sync.Map).Store" || ev.Name == "(*sync.Map).LoadOrStore" {
				m := p.kept[ev.Args[0]]
				if m == nil {
					m = map[types.Type]bool{}
					p.kept[ev.Args[0]] = m
				}
				if x := ev.Args[2]; x.Op == "iface" {
					m[x.T] = true
				} else {
					m[nil] = true
				}
			}
			return
		case "mapupdate":
			if m, ok := in.(*ssa.MapUpdate); ok && nilable(m.Value.Type()) {
				p.put(slotOf(m.Value.Type(), -1), fn, in, st, t[2])
			}
		case "a file stored", "prim", "makeslice", "index", "slice", "assert", "div", "deref", "invoke", "dyncall", "panic":
		default:
			return
		}
		p.look(kind, fn, fr.fn, in, st, t)
	}
	p.rets[fn] = p.c.runEng(e, fn)
	p.left(fn, p.rets[fn])
}

func (p *panics) look(kind string, root, fn *ssa.Function, in ssa.Instruction, st *State, t []*Term) {
	k := siteKey{in, kind}
	s := p.sites[k]
	if s == nil {
		s = &panicSite{kind: kind, in: in, fn: fn}
		p.sites[k] = s
		p.order = append(p.order, s)
	}
	s.looks = append(s.looks, panicLook{root, st.facts.clone(), st.ev, append([]*Term(nil), t...)})
}

type siteKey struct {
	in   ssa.Instruction
	kind string
}

func (p *panics) calleeOf(in ssa.Instruction) *ssa.Function {
	if call, ok := in.(ssa.CallInstruction); ok {
		return call.Common().StaticCallee()
	}
	return nil
}

func isWalkFunc(s *types.Signature) bool {
	ps, rs := s.Params(), s.Results()
	return ps.Len() == 3 && rs.Len() == 1 && isErr(rs.At(0).Type()) && isErr(ps.At(2).Type()) && types.IsInterface(ps.At(1).Type())
}

func isInt(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// library: what the functions of the standard library ask of their arguments
func (p *panics) library(ev *Event, root, fn *ssa.Function, in ssa.Instruction, st *State) {
	f := p.calleeOf(in)
	if ev.Kind != "call" || f == nil || p.c.P.inModule(fnPkg(f)) {
		return
	}
	switch ev.Name {
	case "encoding/json.Unmarshal":
		if x := ev.Args[1]; x.Op == "iface" && x.T != nil {
			p.fromJSON(x.T, in)
		}
	case "(*encoding/json.Decoder).Decode":
		if x := ev.Args[1]; x.Op == "iface" && x.T != nil {
			p.fromJSON(x.T, in)
		}
	}
	var l []*Term
	ps := f.Signature.Params()
	for i, a := range ev.Args {
		k := i
		if f.Signature.Recv() != nil {
			k--
		}
		var T types.Type
		switch {
		case k < 0:
			T = f.Signature.Recv().Type()
		case k < ps.Len() && !(f.Signature.Variadic() && k == ps.Len()-1):
			T = ps.At(k).Type()
		}
		if T == nil || nilOK[ev.Name] == k+2 {
			continue
		}
		if isNamed(deref(T), "os", "File") && f.Name() != "Name" {
			continue // whose methods find out
		}
		switch x := T.Underlying().(type) {
		case *types.Pointer, *types.Signature:
			l = append(l, a)
		case *types.Interface:
			if x.NumMethods() > 0 && !isErr(T) {
				l = append(l, a)
			}
		}
	}
	if len(l) > 0 {
		p.look("argument of a library function", root, fn, in, st, l)
	}
	switch ev.Name {
	case "bytes.Repeat", "strings.Repeat", "(*bytes.Buffer).Grow", "(*strings.Builder).Grow":
		p.look("a count", root, fn, in, st, ev.Args[1:2])
	case "encoding/hex.Decode", "encoding/hex.Encode":
		p.look("the room", root, fn, in, st, append([]*Term{tStr(f.Name())}, ev.Args...))
	case "regexp.MustCompile", "regexp.MustCompilePOSIX", "text/template.Must", "html/template.Must":
		p.look("a must", root, fn, in, st, ev.Args)
	}
}

// nilOK: parameters of the standard library that may be nil; 1 is the receiver
var nilOK = map[string]int{"go/parser.ParseDir": 4, "net/http.ListenAndServe": 3, "(*bytes.Buffer).String": 1, "(*go/ast.Ident).String": 1}

// fromJSON: the decoder leaves what the data has no value for
func (p *panics) fromJSON(T types.Type, in ssa.Instruction) {
	seen := map[string]bool{}
	var visit func(T types.Type)
	elem := func(T types.Type) {
		if nilable(T) {
			p.unset[slotOf(T, -1)] = p.c.P.pos(in.Pos()) + " (decoded)"
		}
		visit(T)
	}
	visit = func(T types.Type) {
		if seen[typeKey(T)] {
			return
		}
		seen[typeKey(T)] = true
		if m := p.c.P.prog.LookupMethod; m != nil {
			for _, X := range []types.Type{T, types.NewPointer(T)} {
				if ms := types.NewMethodSet(X); ms.Lookup(nil, "UnmarshalJSON") != nil {
					return
				}
			}
		}
		switch u := T.Underlying().(type) {
		case *types.Pointer:
			visit(u.Elem())
		case *types.Slice:
			elem(u.Elem())
		case *types.Array:
			elem(u.Elem())
		case *types.Map:
			elem(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				fl := u.Field(i)
				if !fl.Exported() && !fl.Embedded() {
					continue
				}
				if nilable(fl.Type()) {
					p.unset[slotOf(T, i)] = p.c.P.pos(in.Pos()) + " (decoded)"
				}
				visit(fl.Type())
			}
		}
	}
	visit(T)
}

// callbackOf: the callback that the value is an argument of
func callbackOf(evs []*Event, r *Term) (*Event, int) {
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].Kind != "callback" {
			continue
		}
		for k, a := range evs[i].Sub.Args {
			if a == r {
				return evs[i], k
			}
		}
	}
	return nil, -1
}

// own: a type of the library
func (p *panics) own(T types.Type) bool {
	if x, ok := T.Underlying().(*types.Pointer); ok {
		if _, named := types.Unalias(T).(*types.Named); !named {
			T = x.Elem()
		}
	}
	n, ok := types.Unalias(T).(*types.Named)
	return !ok || n.Obj().Pkg() != nil && p.lib[n.Obj().Pkg().Path()]
}

// handle: is it of a type whose values only the library makes
func (p *panics) handle(T types.Type) bool {
	return isNamed(T, pkgPath("pkging/mem"), "File") || isNamed(T, pkgPath("pkging/mem"), "Pkger") ||
		isNamed(T, pkgPath("pkging/stdos"), "File") || isNamed(T, pkgPath("pkging/stdos"), "Pkger")
}

// private: a type of the tool that only the tool itself uses
func (p *panics) private(T types.Type) bool {
	n, ok := types.Unalias(T).(*types.Named)
	return ok && n.Obj().Pkg() != nil && !n.Obj().Exported() && n.Obj().Pkg().Path() == pkgPath(cmdsPkg)
}

// prepared: the method is called only after others of the same value, which
// leave something in the field
func (p *panics) prepared(fn *ssa.Function, self *Term, T types.Type, i int) bool {
	if fn.Signature.Recv() == nil || len(fn.Params) == 0 || self != p.c.P.paramTerm(fn, 0) {
		return false
	}
	k := slotOf(T, i)
	for _, l := range p.puts[k] {
		if !p.notNil(l, l.t[0]) {
			p.why[k] = fmt.Sprintf("%s is put there", l.t[0])
			return false
		}
	}
	calls := func(ev *Event, f *ssa.Function) bool {
		if ev.Kind == "invoke" {
			call, ok := ev.Instr.(ssa.CallInstruction)
			if !ok || call.Common().Method == nil || call.Common().Method.Name() != f.Name() {
				return false
			}
			it, ok := call.Common().Value.Type().Underlying().(*types.Interface)
			return ok && types.Implements(types.NewPointer(T), it)
		}
		return ev.Kind == "call" && ev.Name == fnName(f)
	}
	// the methods that fill it in
	var before []*ssa.Function
	for m, outs := range p.rets {
		if m.Signature.Recv() == nil || !types.Identical(deref(m.Signature.Recv().Type()), T) || m == fn {
			continue
		}
		n := 0
		for _, o := range outs {
			if o.Panic != nil {
				continue
			}
			r := p.c.P.paramTerm(m, 0)
			v := newEng(p.c.P).load(o.St, tFaddr(r, r.T, i), T.Underlying().(*types.Struct).Field(i).Type())
			if !nonNil(v) && !o.St.facts.notNil(v) && (v.base2() == r || !p.notNil(panicLook{m, o.St.facts, o.St.ev, nil}, v)) {
				n = -1
				break
			}
			n++
		}
		if n > 0 {
			before = append(before, m)
		}
	}
	n, good := 0, true
	var walk func(evs, outer []*Event)
	walk = func(evs, outer []*Event) {
		for j, ev := range evs {
			now := append(append([]*Event(nil), outer...), evs[:j]...)
			if calls(ev, fn) && len(ev.Args) > 0 {
				n++
				ok := false
				for _, e := range now {
					for _, m := range before {
						ok = ok || len(e.Args) > 0 && e.Args[0] == ev.Args[0] && calls(e, m)
					}
				}
				good = good && ok
			}
			if ev.Sub != nil {
				for _, tr := range ev.Sub.Traces {
					walk(tr.Ev, now)
				}
			}
		}
	}
	for _, outs := range p.rets {
		for _, o := range outs {
			walk(o.St.ev, nil)
		}
	}
	return n > 0 && good
}

// decoded: the value was read from JSON, by a method of its own that puts
// something there
func (p *panics) decoded(evs []*Event, f *Facts, r *Term, i int) bool {
	for _, ev := range evs {
		if ev.errResult() == nil || !f.isNil(ev.errResult()) {
			continue
		}
		var m *ssa.Function
		switch {
		case ev.Name == "encoding/json.Unmarshal" && len(ev.Args) == 2 && stripIface(ev.Args[1]) == r:
			m = p.c.P.prog.LookupMethod(r.T, nil, "UnmarshalJSON")
		case ev.Kind == "call" && len(ev.Args) > 0 && ev.Args[0] == r && ev.Instr != nil:
			// any other method of it that fills it in
			m = p.calleeOf(ev.Instr)
			if m == nil || m.Signature.Recv() == nil || !p.c.P.inModule(fnPkg(m)) || m.Signature.Results().Len() != 1 {
				continue
			}
		default:
			continue
		}
		outs, ok := p.rets[m]
		if m == nil || !ok {
			return false
		}
		T := deref(r.T)
		good := 0
		for _, o := range outs {
			if o.Panic != nil || o.St.facts.notNil(o.Ret[0]) {
				continue
			}
			good++
			v := newEng(p.c.P).load(o.St, tFaddr(p.c.P.paramTerm(m, 0), r.T, i), T.Underlying().(*types.Struct).Field(i).Type())
			if v.base2() == p.c.P.paramTerm(m, 0) || !p.notNil(panicLook{m, o.St.facts, o.St.ev, nil}, v) {
				return false // as it was, or nil
			}
		}
		return good > 0
	}
	return false
}

// handed: what users get never has nil there
func (p *panics) handed(T types.Type, i int) bool {
	s := slotOf(T, i)
	if x, ok := p.hstate[s]; ok {
		return x
	}
	p.hstate[s] = true
	n := 0
	for fn, outs := range p.rets {
		for _, o := range outs {
			if o.Panic != nil {
				continue
			}
			for _, r := range o.Ret {
				r = stripIface(r)
				if r.T == nil || !types.Identical(deref(r.T), T) || r.Op == "param" {
					continue
				}
				n++
				if r.Op != "alloc" {
					if !p.never(s) {
						p.hstate[s] = false
						p.why[s] = fmt.Sprintf("%s returns %s", fnName(fn), r)
					}
					continue
				}
				v := newEng(p.c.P).load(o.St, tFaddr(r, r.T, i), T.Underlying().(*types.Struct).Field(i).Type())
				if !p.notNil(panicLook{fn, o.St.facts, o.St.ev, nil}, v) && !p.decoded(o.St.ev, o.St.facts, r, i) {
					p.hstate[s] = false
					p.why[s] = fmt.Sprintf("%s returns one with %s", fnName(fn), v)
				}
			}
		}
	}
	if n == 0 {
		p.hstate[s] = false
	}
	return p.hstate[s]
}

// zone: differences of the integers, and what holds of callbacks and fields
func (p *panics) zone(l panicLook) *zone {
	return zoneOf(l.f, func(z *zone, t *Term) {
		switch t.Op {
		case "sym", "param", "res":
			// an index that sorting gives to the comparison
			var n *Term
			if ev, _ := callbackOf(l.evs, t); ev != nil {
				switch ev.Name {
				case "sort.Slice", "sort.SliceStable":
					n = tLen(stripIface(ev.Args[0]))
				case "sort.Sort", "sort.Stable":
					if x := ev.Args[0]; x.Op == "iface" {
						n = p.sorted(x.T, x.A[0])
					}
				}
			} else if r := l.root.Signature.Recv(); r != nil && (l.root.Name() == "Less" || l.root.Name() == "Swap") && isInt(t.T) {
				// only sorting calls these
				for i := 1; i < len(l.root.Params); i++ {
					if t == p.c.P.paramTerm(l.root, i) {
						n = p.sorted(r.Type(), p.c.P.paramTerm(l.root, 0))
					}
				}
			}
			if n != nil {
				z.edge(t, tZero0, 0)
				b, k := z.split(n)
				z.know(b)
				z.edge(b, t, k-1)
			}
			if counts(t) {
				z.edge(t, tZero0, 0)
			}
			if b := transferred(l.evs, t); b != nil {
				z.edge(t, tZero0, 0)
				x, k := z.split(tLen(b))
				z.know(x)
				z.edge(x, t, k)
			}
		case "maplen":
			z.edge(t, tZero0, 0)
		case "app":
			if counts(t) {
				z.edge(t, tZero0, 0)
			}
		case "deref", "field":
			a := t
			if t.Op == "deref" {
				a = t.A[0]
				if a.Op != "faddr" {
					return
				}
			}
			T := a.A[0].T
			if T == nil {
				return
			}
			if t.Op == "deref" {
				T = deref(T)
			}
			if i, ok := a.X.(int); ok && p.natural(slotOf(T, i)) {
				z.edge(t, tZero0, 0)
			}
		}
	})
}

// sorted: how many elements sort.Sort sees of x, which has the methods of
// sort.Interface
func (p *panics) sorted(T types.Type, x *Term) *Term {
	var sorter *types.Interface
	for _, q := range p.c.P.prog.AllPackages() {
		if q.Pkg.Path() == "sort" {
			sorter, _ = q.Pkg.Scope().Lookup("Interface").Type().Underlying().(*types.Interface)
		}
	}
	if sorter == nil || !types.Implements(T, sorter) {
		return nil
	}
	fn := p.c.P.prog.LookupMethod(T, nil, "Len")
	if fn == nil || len(fn.Blocks) == 0 {
		return nil
	}
	outs := newEng(p.c.P).RunWith(fn, []*Term{x}, newState())
	if len(outs) != 1 || outs[0].Panic != nil {
		return nil
	}
	return outs[0].Ret[0]
}

// counts: results of the standard library that are never below 0
func counts(t *Term) bool {
	name := t.S
	if i := strings.LastIndex(name, "#"); i >= 0 {
		name = name[:i]
	}
	switch name {
	case "(*bytes.Buffer).Len", "(*bytes.Buffer).Cap", "(*strings.Builder).Len", "(*bytes.Reader).Len", "(*strings.Reader).Len", "strings.Count", "bytes.Count",
		"unicode/utf8.RuneCountInString", "unicode/utf8.RuneCount", "(*bytes.Reader).Size", "(*strings.Reader).Size", "(reflect.Value).Len", "(reflect.Value).NumField", "(*flag.FlagSet).NArg", "(*flag.FlagSet).NFlag":
		return true
	}
	return false
}

// transferred: t is how much of a buffer a library call has filled or taken
func transferred(evs []*Event, t *Term) *Term {
	if t.Op != "res" && t.Op != "sym" || !isInt(t.T) {
		return nil
	}
	ev := eventOf(evs, t)
	if ev == nil || ev.Sig == nil {
		return nil
	}
	i := -1
	switch ev.Name {
	case "encoding/hex.Decode", "encoding/hex.Encode":
		i = 0
	case "io.ReadFull", "io.ReadAtLeast":
		i = 1
	case "(*os.File).Read", "(*os.File).Write", "(*bytes.Buffer).Read", "(*bytes.Buffer).Write", "(*bytes.Reader).Read", "(*strings.Reader).Read", "(*bufio.Reader).Read", "(*bufio.Writer).Write", "(*compress/gzip.Reader).Read", "(*compress/gzip.Writer).Write":
		i = 1
	}
	if i < 0 || i >= len(ev.Args) || ev.results()[0] != t {
		return nil
	}
	return ev.Args[i]
}

// natural: no value below 0 is ever put there
func (p *panics) natural(s slot) bool {
	st, ok := slotTypes[s.T].Underlying().(*types.Struct)
	if !ok || !p.own(slotTypes[s.T]) || token.IsExported(st.Field(s.i).Name()) {
		return false
	}
	if x, ok := p.nstate[s]; ok {
		return x
	}
	p.nstate[s] = true
	for _, l := range p.puts[s] {
		if !p.zone(l).less(tInt(-1), l.t[0], 0) {
			p.nstate[s] = false
			p.why[s] = fmt.Sprintf("may be below 0: %s in %s", l.t[0], cond(l.f))
			return false
		}
	}
	return true
}

func (t *Term) base2() *Term {
	for {
		switch t.Op {
		case "deref", "field", "faddr":
			t = t.A[0]
			continue
		}
		return t
	}
}

func (p *panics) put(s slot, fn *ssa.Function, in ssa.Instruction, st *State, v *Term) {
	if s.i >= 0 {
		x, ok := slotTypes[s.T].Underlying().(*types.Struct)
		if !ok || !nilable(x.Field(s.i).Type()) && !isInt(x.Field(s.i).Type()) {
			return
		}
	}
	p.puts[s] = append(p.puts[s], panicLook{fn, st.facts.clone(), st.ev, []*Term{v}})
	p.putAt[s] = append(p.putAt[s], in.Pos())
}

// made: the structs that are made without a value for a field
func (p *panics) made() {
	for _, fn := range p.c.P.funcs(func(x string) bool { return p.lib[x] }) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				p.zeros(in)
				a, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				T := deref(a.Type())
				st, ok := T.Underlying().(*types.Struct)
				if !ok {
					continue
				}
				if temporary(a) != nil {
					continue
				}
				set := map[int]bool{}
				all := false
				for _, r := range *a.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr != a || zeroOf(r.Val) {
							continue
						}
						if u, ok := r.Val.(*ssa.UnOp); ok {
							if x, ok := u.X.(*ssa.Alloc); ok && temporary(x) != nil {
								for i := range temporary(x) {
									set[i] = true
								}
								continue
							}
						}
						all = true
					case *ssa.FieldAddr:
						for _, q := range *r.Referrers() {
							if s, ok := q.(*ssa.Store); ok && s.Addr == r {
								set[r.Field] = true
							}
						}
					}
				}
				for i := 0; i < st.NumFields() && !all; i++ {
					if nilable(st.Field(i).Type()) && !set[i] {
						p.unset[slotOf(T, i)] = p.c.P.pos(a.Pos())
					}
				}
			}
		}
	}
}

func zeroOf(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

// zeros: the structs that are made without a value for any field, but for
// the result that goes with an error
func (p *panics) zeros(in ssa.Instruction) {
	if r, ok := in.(*ssa.Return); ok && len(r.Results) > 0 {
		if e := r.Results[len(r.Results)-1]; isErr(e.Type()) {
			if k, ok := e.(*ssa.Const); !ok || k.Value != nil || !k.IsNil() {
				return
			}
		}
	}
	if s, ok := in.(*ssa.Store); ok {
		if _, ok := s.Addr.(*ssa.Alloc); ok {
			return // set, or not, later on
		}
	}
	for _, o := range in.Operands(nil) {
		k, ok := (*o).(*ssa.Const)
		if !ok || k.Value != nil {
			continue
		}
		st, ok := k.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if nilable(st.Field(i).Type()) {
				p.unset[slotOf(k.Type(), i)] = p.c.P.pos(in.Pos())
			}
		}
	}
}

// left: the structs that a path leaves without a value for a field
func (p *panics) left(fn *ssa.Function, outs []*Outcome) {
	look := func(st *State, failed bool) {
		if failed {
			return
		}
		for k := range st.mem {
			if k.Op != "faddr" || k.A[0].Op != "alloc" || k.A[0].T == nil {
				continue
			}
			a := k.A[0]
			T := deref(a.T)
			s, ok := T.Underlying().(*types.Struct)
			if !ok || !p.own(T) || strings.HasPrefix(a.S, "temp@") {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				sl := slotOf(T, i)
				if _, ok := p.unset[sl]; ok || !nilable(s.Field(i).Type()) {
					continue
				}
				if v := newEng(p.c.P).load(st, tFaddr(a, a.T, i), s.Field(i).Type()); v == tNil || v.isZero() {
					p.unset[sl] = fnName(fn)
				}
			}
		}
	}
	seen := map[*Sub]bool{}
	var subs func(evs []*Event)
	subs = func(evs []*Event) {
		for _, ev := range evs {
			if ev.Sub == nil || seen[ev.Sub] {
				continue
			}
			seen[ev.Sub] = true
			for _, tr := range ev.Sub.Traces {
				n := len(tr.Ret)
				look(tr.St, n > 0 && tr.Ret[n-1].T != nil && isErr(tr.Ret[n-1].T) && tr.St.facts.notNil(tr.Ret[n-1]))
				subs(tr.Ev)
			}
		}
	}
	for _, o := range outs {
		e := o.err(fn)
		look(o.St, o.Panic != nil || e != nil && o.St.facts.notNil(e))
		subs(o.St.ev)
	}
}

// never: nothing that is nil is ever put there
func (p *panics) never(s slot) bool {
	switch p.state[s] {
	case 1, 2: // coinductively: the first nil would have to come from elsewhere
		return true
	case 3:
		return false
	}
	p.state[s] = 1
	if at, ok := p.unset[s]; ok {
		p.state[s] = 3
		p.why[s] = "may be nil: made without it at " + at
		return false
	}
	if len(p.puts[s]) == 0 && s.i < 0 && !p.own(slotTypes[s.T]) {
		p.state[s] = 2 // of a library, which keeps no nil among them
		return true
	}
	if len(p.puts[s]) == 0 {
		p.state[s] = 3
		p.why[s] = "may be nil: nothing is put there"
		return false
	}
	for i, l := range p.puts[s] {
		if !p.notNil(l, l.t[0]) {
			p.state[s] = 3
			p.why[s] = fmt.Sprintf("may be nil: %s is put there at %s", l.t[0], p.c.P.pos(p.putAt[s][i]))
			return false
		}
	}
	p.state[s] = 2
	return true
}

// gives: what the function returns without an error is not nil
func (p *panics) gives(fn *ssa.Function, i int) bool {
	outs, ok := p.rets[fn]
	if !ok {
		return false
	}
	if p.fstate[fn] == 1 {
		return true
	}
	p.fstate[fn] = 1
	defer func() { p.fstate[fn] = 0 }()
	for _, o := range outs {
		if o.Panic != nil || i >= len(o.Ret) {
			continue
		}
		if e := o.err(fn); e != nil && o.Ret[i] != e && o.St.facts.notNil(e) {
			continue
		}
		l := panicLook{fn, o.St.facts, o.St.ev, nil}
		if !p.notNil(l, o.Ret[i]) {
			// it is what another call gave, together with its error
			if x := l.event(o.Ret[i]); x != nil && o.Ret[i].Op == "res" && x.errResult() != nil && x.errResult() == o.err(fn) {
				l.f = o.St.facts.clone()
				l.f.assume(tEq(tNil, x.errResult()), true)
				if p.notNil(l, o.Ret[i]) {
					continue
				}
			}
			return false
		}
	}
	return true
}

// may: why it may panic
func (p *panics) may(kind string, l panicLook) string {
	f, t := l.f, l.t
	switch kind {
	case "a file stored":
		// what is loaded is taken to be one of these
		if v := t[0]; v.Op != "iface" || typeKey(v.T) != typeKey(p.c.P.memFilePtr()) {
			return fmt.Sprintf("%s is stored, which is not an in-memory file", v)
		} else {
			l.t = v.A
			if !p.notNil(l, v.A[0]) {
				return fmt.Sprintf("%s, which is stored, may be nil", v.A[0])
			}
		}
	case "index":
		x, i := t[0], t[1]
		if n, ok := arrayLen(x.T); ok {
			if k, ok := i.intVal(); ok && k >= 0 && k < n {
				return ""
			}
		}
		z := p.zone(l)
		if !z.less(tInt(-1), i, 0) {
			return fmt.Sprintf("%s may be less than 0", i)
		}
		if !z.less(i, tLen(x), 0) {
			return fmt.Sprintf("%s may not be less than the length of %s", i, x)
		}
	case "slice":
		x, lo, hi := t[0], t[1], t[2]
		z := p.zone(l)
		if lo == tNil {
			lo = tInt(0)
		}
		if hi == tNil {
			hi = tLen(x)
		}
		if !z.less(tInt(-1), lo, 0) {
			return fmt.Sprintf("%s may be less than 0", lo)
		}
		if !z.less(lo, hi, 1) {
			return fmt.Sprintf("%s may be more than %s", lo, hi)
		}
		if !z.less(hi, tLen(x), 1) {
			return fmt.Sprintf("%s may be more than the length of %s", hi, x)
		}
	case "assert":
		if v, ok := f.decide(t[1]); ok && v {
			return ""
		}
		if ev := l.event(t[0]); ev != nil && t[0].Op == "res" && strings.HasPrefix(ev.Name, "(*sync.Map).Load") {
			m := p.kept[ev.Args[0]]
			rs := ev.results()
			if found, ok := f.decide(rs[len(rs)-1]); len(m) == 1 && (ok && found || ev.Name == "(*sync.Map).LoadOrStore") {
				for T := range m {
					if v, ok := typeIs(T, t[1].T); ok && v && T != nil {
						return ""
					}
				}
			}
		}
		return fmt.Sprintf("%s may be of another type", t[0])
	case "mapupdate", "prim", "deref", "invoke", "dyncall":
		if !p.notNil(l, t[0]) {
			return fmt.Sprintf("%s may be nil", t[0])
		}
	case "div":
		if v, ok := f.decide(tEq(t[1], tInt(0))); !ok || v {
			return fmt.Sprintf("%s may be 0", t[1])
		}
	case "argument", "argument of a library function":
		for _, x := range t {
			if !p.notNil(l, x) {
				return fmt.Sprintf("the argument %s may be nil", x)
			}
		}
	case "makeslice":
		z := p.zone(l)
		if !z.less(tInt(-1), t[0], 0) {
			return fmt.Sprintf("the length %s may be less than 0", t[0])
		}
		if !z.less(t[0], t[1], 1) {
			return fmt.Sprintf("the length %s may be more than the capacity %s", t[0], t[1])
		}
	case "a count":
		if !p.zone(l).less(tInt(-1), t[0], 0) {
			return fmt.Sprintf("%s may be less than 0", t[0])
		}
	case "a must":
		for _, x := range t {
			if !x.isConst() {
				return fmt.Sprintf("%s may not be well formed", x)
			}
		}
	case "the room":
		what, _ := t[0].strVal()
		src := t[2]
		if t[1].Op == "mkslice" {
			if n := t[1].A[0]; n.Op == "app" && len(n.A) == 1 && sameLen(l.evs, n.A[0], src) {
				src = n.A[0]
			}
		}
		if why := room(what, t[1], src); why != "" {
			return why
		}
	case "call of a walk function":
		if !p.notNil(l, t[0]) {
			return fmt.Sprintf("%s, which may be nil, is passed on without an error", t[0])
		}
	case "panic":
		if fnName(l.root) == "pkger.Apply" && stripIface(t[0]) == p.c.P.paramTerm(l.root, 1) && f.notNil(t[0]) {
			return "" // the one that is meant
		}
		return fmt.Sprintf("it panics with %s", t[0])
	}
	return ""
}

// sameLen: n is what Len said of the buffer that x are the bytes of
func sameLen(evs []*Event, n, x *Term) bool {
	for i, a := range evs {
		if a.Res != n && a.Res != x || a.Res == nil {
			continue
		}
		for _, b := range evs[i:] {
			if b.Pure {
				continue
			}
			switch b.Name {
			case "(*bytes.Buffer).Len", "(*bytes.Buffer).Bytes":
				if b != a && b.Args[0] == a.Args[0] && (b.Res == n || b.Res == x) {
					return true
				}
			default:
				return false
			}
		}
	}
	return false
}

// room: why the encoder may write beyond the end of its destination
func room(what string, dst, src *Term) string {
	if dst == src && what == "Decode" {
		return ""
	}
	if dst.Op == "mkslice" && len(dst.A) > 0 {
		n := dst.A[0]
		if n.Op == "app" && len(n.A) == 1 && n.A[0] == src && n.S == "encoding/hex.EncodedLen" && what == "Encode" {
			return ""
		}
		if n == tLen(src) && what == "Decode" || n.Op == "quo" && what == "Decode" && n.A[0] == tLen(src) ||
			n.isApp("encoding/hex."+what+"dLen") && n.A[0] == tLen(src) || n.isApp("encoding/hex."+what+"edLen") && n.A[0] == tLen(src) {
			return ""
		}
	}
	return fmt.Sprintf("%s may be too short for what is in %s", dst, src)
}

func arrayLen(T types.Type) (int64, bool) {
	if T == nil {
		return 0, false
	}
	if p, ok := T.Underlying().(*types.Pointer); ok {
		T = p.Elem()
	}
	a, ok := T.Underlying().(*types.Array)
	if !ok {
		return 0, false
	}
	return a.Len(), true
}

// notNil: the value cannot be nil here
func (p *panics) notNil(l panicLook, t *Term) bool {
	f := l.f
	if t.Op == "iface" && t.T != nil {
		// a nil pointer in an interface is of no use
		if _, ok := t.T.Underlying().(*types.Pointer); ok {
			return p.notNil(l, t.A[0])
		}
	}
	if nonNil(t) || f.notNil(t) || f.followed(f.find(t)) {
		return true
	}
	r := f.find(t)
	if r == tNil || r.isZero() {
		return false
	}
	if p.onceMade(l.evs, r) {
		return true
	}
	switch r.Op {
	case "param":
		// what is called with a nil handle, or function, may panic
		return true
	case "sym":
		ev, i := callbackOf(l.evs, r)
		switch {
		case ev == nil:
			return false
		case strings.HasSuffix(ev.Name, ".Walk") && len(ev.Sub.Args) == 3 || ev.Name == "path/filepath.WalkDir":
			return i == 1 && f.isNil(ev.Sub.Args[2])
		case ev.Name == "go/ast.Inspect" || ev.Name == "go/ast.Walk" || ev.Name == "(*sync.Map).Range":
			return false
		}
		return true
	case "res":
		ev := l.event(r)
		if ev == nil {
			return false
		}
		e := ev.errResult()
		i := 0
		for k, x := range ev.results() {
			if x == r {
				i = k
			}
		}
		if ev.Name == "go/parser.ParseFile" && i == 0 && len(ev.Args) > 2 && ev.Args[2].Op == "iface" {
			switch b := ev.Args[2].T.Underlying().(type) {
			case *types.Basic:
				if b.Info()&types.IsString != 0 {
					return true // nothing has to be read
				}
			case *types.Slice:
				return true
			}
		}
		if e != nil && e != r && !f.isNil(e) {
			// whatever the error
			return p.always(p.calleeOf(ev.Instr), i)
		}
		return p.callee(ev, i)
	case "assert":
		// interfaces do not hold nil pointers
		return true
	case "deref", "field":
		a := r
		var T types.Type
		i := -1
		if r.Op == "deref" {
			a = r.A[0]
			if a.Op == "global" {
				return p.global(a)
			}
			if a.Op != "faddr" || r.S != "" {
				return false
			}
			T = deref(a.A[0].T)
		} else {
			T = r.A[0].T
		}
		i, ok := a.X.(int)
		if !ok || T == nil {
			return false
		}
		base := r.base2()
		if base.Op == "param" && p.handle(T) {
			return p.handed(T, i)
		}
		if base.Op == "param" && p.private(T) && (r.Op == "field" && r.A[0].Op == "deref" && r.A[0].S == "" || r.Op == "deref") && (p.handed(T, i) || p.prepared(l.root, base, T, i)) {
			return true
		}
		if ev := l.event(base); ev != nil && base.Op == "res" && base.T != nil {
			// a struct that came with an error
			if _, ok := base.T.Underlying().(*types.Struct); ok {
				if e := ev.errResult(); e != nil && !f.isNil(e) {
					return false
				}
			}
		}
		return p.field(T, i)
	case "index", "rangeval", "lookup":
		if !nilable(r.T) {
			return false
		}
		return p.never(slotOf(r.T, -1))
	}
	return false
}

// onceMade: the value is in a field that a sync.Once in the same struct,
// whose function was called before, has set
func (p *panics) onceMade(evs []*Event, r *Term) bool {
	a := r
	switch r.Op {
	case "deref":
		a = r.A[0]
	case "field":
		if i, ok := r.X.(int); ok && r.A[0].Op == "deref" {
			a = tFaddr(r.A[0].A[0], r.A[0].A[0].T, i)
		}
	case "sym":
		// what a loop or a callback changes
		for _, ev := range evs {
			if ev.Sub != nil {
				for loc, s := range ev.Sub.Syms {
					if s == r {
						a = loc
					}
				}
			}
		}
	}
	if a.Op != "faddr" || a.A[0].T == nil {
		return false
	}
	i, ok := a.X.(int)
	if !ok {
		return false
	}
	for _, ev := range evs {
		if ev.Name != "(*sync.Once).Do" {
			continue
		}
		o := ev.Args[0]
		if o.Op != "faddr" || o.A[0] != a.A[0] {
			continue
		}
		if k, ok := o.X.(int); ok && p.fills(deref(a.A[0].T), k, i) {
			return true
		}
	}
	return false
}

// fills: the functions given to the sync.Once in field k set field i
func (p *panics) fills(T types.Type, k, i int) bool {
	fl := T.Underlying().(*types.Struct).Field(i)
	n := 0
	for _, outs := range p.rets {
		for _, o := range outs {
			if o.Panic != nil {
				continue
			}
			for j, ev := range o.St.ev {
				if ev.Kind != "once" || j == 0 {
					continue
				}
				do := o.St.ev[j-1]
				if do.Name != "(*sync.Once).Do" || do.Args[0].Op != "faddr" || do.Args[0].X != any(k) || do.Args[0].A[0].T == nil || !types.Identical(deref(do.Args[0].A[0].T), T) {
					continue
				}
				n++
				v := newEng(p.c.P).load(o.St, tFaddr(do.Args[0].A[0], do.Args[0].A[0].T, i), fl.Type())
				if nonNil(v) || o.St.facts.notNil(v) {
					continue
				}
				return false
			}
		}
	}
	for _, l := range p.puts[slotOf(T, i)] {
		if !nonNil(l.t[0]) {
			return false
		}
	}
	return n > 0 && !fl.Exported()
}

// always: even with an error, what the function returns is not nil
func (p *panics) always(fn *ssa.Function, i int) bool {
	outs, ok := p.rets[fn]
	if fn == nil || !ok || p.fstate[fn] == 1 {
		return false
	}
	p.fstate[fn] = 1
	defer func() { p.fstate[fn] = 0 }()
	for _, o := range outs {
		if o.Panic == nil && (i >= len(o.Ret) || !p.notNil(panicLook{fn, o.St.facts, o.St.ev, nil}, o.Ret[i])) {
			return false
		}
	}
	return true
}

// optional: parts of the syntax tree that may be missing
var optional = map[string]bool{"Obj": true, "Decl": true, "Data": true, "Type": true, "Doc": true, "Comment": true, "Recv": true, "Results": true, "TypeParams": true, "Else": true, "Init": true, "Cond": true, "Post": true,
	"Low": true, "High": true, "Max": true, "Name": true, "Body": true, "Key": true, "Value": true, "Tag": true, "Label": true, "Comm": true, "Scope": true, "Outer": true, "Methods": true, "Elt": true, "Len": true, "Assign": true, "X": true}

func (p *panics) field(T types.Type, i int) bool {
	n, ok := types.Unalias(T).(*types.Named)
	st, ok2 := T.Underlying().(*types.Struct)
	if !ok2 {
		return false
	}
	if ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "go/ast" {
		name := st.Field(i).Name()
		if !optional[name] {
			return true
		}
		switch n.Obj().Name() + "." + name {
		case "SelectorExpr.X", "CallExpr.X", "IndexExpr.X", "StarExpr.X", "ParenExpr.X", "TypeAssertExpr.X", "SliceExpr.X", "UnaryExpr.X", "BinaryExpr.X", "ExprStmt.X", "KeyValueExpr.Key", "KeyValueExpr.Value", "TypeSpec.Name", "TypeSpec.Type", "FuncDecl.Name", "FuncDecl.Type", "File.Name", "Field.Type", "FuncLit.Body", "FuncLit.Type", "DeclStmt.Decl", "ArrayType.Elt", "MapType.Key", "MapType.Value", "ForStmt.Body", "IfStmt.Cond", "IfStmt.Body", "BlockStmt.Body":
			return true
		}
		return false
	}
	return p.never(slotOf(T, i))
}

// callee: without an error, result i of the call is not nil
func (p *panics) callee(ev *Event, i int) bool {
	if ev.Kind == "invoke" {
		// of the library: of all implementations
		if in := ev.Instr; in != nil {
			if call, ok := in.(ssa.CallInstruction); ok && call.Common().IsInvoke() {
				cc := call.Common()
				n := 0
				for fn := range p.rets {
					if fn.Name() != cc.Method.Name() || fn.Signature.Recv() == nil {
						continue
					}
					it, ok := cc.Value.Type().Underlying().(*types.Interface)
					if !ok || !types.Implements(fn.Signature.Recv().Type(), it) {
						continue
					}
					n++
					if !p.gives(fn, i) {
						return false
					}
				}
				if n > 0 {
					return true
				}
			}
		}
		return ev.errResult() != nil
	}
	if in := ev.Instr; in != nil {
		if call, ok := in.(ssa.CallInstruction); ok {
			if fn := call.Common().StaticCallee(); fn != nil && p.c.P.inModule(fnPkg(fn)) {
				return p.gives(fn, i)
			}
		}
	}
	if ev.errResult() != nil {
		return true // the convention of the libraries
	}
	n := ev.Name[strings.LastIndexByte(ev.Name, '.')+1:]
	return strings.HasPrefix(n, "New") || n == "FileServer"
}

// global: set once, when the program starts, to what is not nil
func (p *panics) global(a *Term) bool {
	g, ok := a.X.(*ssa.Global)
	if !ok {
		return false
	}
	if !p.c.P.inModule(g.Pkg.Pkg.Path()) {
		return g.Name() == "Stdout" || g.Name() == "Stderr" || g.Name() == "Stdin"
	}
	ss := p.c.P.gstore[g]
	if len(ss) == 0 {
		return false
	}
	for _, s := range ss {
		if s.Parent().Synthetic == "" {
			return false
		}
		switch v := s.Val.(type) {
		case *ssa.Function, *ssa.MakeClosure, *ssa.Alloc, *ssa.MakeMap:
		case *ssa.MakeInterface:
		case *ssa.Call:
			fn := v.Call.StaticCallee()
			if fn == nil {
				return false
			}
			if _, ok := p.rets[fn]; !ok {
				p.explore(fn)
			}
			if !p.gives(fn, 0) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func init() {
	register("C23", "every instruction of the library that can panic, on every path from every exported function", c23)
	register("C34", "every instruction of the tool that can panic, on every path from main, the commands and what is exported", c34)
}
