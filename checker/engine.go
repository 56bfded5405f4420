package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An Event is something observable that happens on a path.
type Event struct {
	Kind  string // call invoke dyn rec store mapupdate go panic loop callback prim globalload
	Name  string
	Args  []*Term
	Res   *Term
	Sig   *types.Signature
	Instr ssa.Instruction
	Fn    *ssa.Function
	Sub   *Sub
	Pure  bool
	Defer bool // run by a defer
	Panic bool // run while panicking
	Facts int  // number of facts when it happened
	Recv  types.Type
	Snap  map[*Term]*Term // variables handed over by address: what they held
}

// Sub holds the traces of one generic iteration of a loop, or of one generic
// run of a function given to somebody who calls it any number of times.
type Sub struct {
	Kind   string // loop, callback
	Name   string
	Traces []*Trace
	Init   map[*Term]*Term // havocked symbol -> value before
	Syms   map[*Term]*Term // phi or address term -> symbol
	Args   []*Term         // callback arguments
	At     *State          // state at the head
	Loop   *Loop
	Phis   []*ssa.Phi
	CondE  int
}

type Trace struct {
	St   *State
	Ev   []*Event
	Ret  []*Term
	Back map[*Term]*Term // symbol -> value at the end
	Late []*Late         // what the calls deferred in the iteration do, at the end of the function
}

// Late is one way through the calls deferred in an iteration
type Late struct {
	Ev []*Event
	St *State
}

// runs are the ways through what was deferred; one, doing nothing, if
// nothing was
func (tr *Trace) runs() []*Late {
	if len(tr.Late) > 0 {
		return tr.Late
	}
	return []*Late{{St: tr.St}}
}

type State struct {
	mem    map[*Term]*Term
	dflt   map[*Term]string // root -> name of the event that changed it
	facts  *Facts
	ev     []*Event
	cnt    map[string]int
	mapver map[*Term]int
	mapkv  map[*Term][2]*Term // last update of a map, if that is all we need
	mapall map[*Term]*mapLit  // all there is in a map made here, keys constant
	pan    *Term
	inDef  int
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, dflt: map[*Term]string{}, facts: newFacts(), cnt: map[string]int{}, mapver: map[*Term]int{}, mapkv: map[*Term][2]*Term{}, mapall: map[*Term]*mapLit{}}
}

func (s *State) clone() *State {
	n := newState()
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.dflt {
		n.dflt[k] = v
	}
	for k, v := range s.cnt {
		n.cnt[k] = v
	}
	for k, v := range s.mapver {
		n.mapver[k] = v
	}
	for k, v := range s.mapall {
		n.mapall[k] = v
	}
	for k, v := range s.mapkv {
		n.mapkv[k] = v
	}
	n.facts = s.facts.clone()
	n.ev = append([]*Event(nil), s.ev...)
	n.pan = s.pan
	n.inDef = s.inDef
	return n
}

func (s *State) fresh(name string) string {
	s.cnt[name]++
	return fmt.Sprintf("%s#%d", name, s.cnt[name])
}

type Outcome struct {
	St    *State
	Ret   []*Term
	Panic *Term
	Pos   token.Pos
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	in   ssa.Instruction
	late *lateMod // instead of a call: what calls deferred in a loop change
}

// lateMod is what the calls deferred in any number of iterations may change
type lateMod struct {
	name string
	mem  map[*Term]types.Type
	root map[*Term]bool
	maps map[*Term]bool
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	defers []deferred
	stack  []*ssa.Function
}

func (f *frame) clone() *frame {
	n := &frame{fn: f.fn, env: make(map[ssa.Value]*Term, len(f.env)), stack: f.stack}
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	return n
}

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type item struct {
	fr    *frame
	st    *State
	blk   *ssa.BasicBlock
	prev  *ssa.BasicBlock
	start bool // already inside the loop analysis of blk
	idx   int
}

type undecided struct{ why string }

// Eng explores the paths of a function.
type Eng struct {
	P       *Prog
	Opaque  func(fn *ssa.Function) bool
	Inject  func(ev *Event) bool // also explore a panic of this call
	Hook    func(kind string, fr *frame, in ssa.Instruction, st *State, t ...*Term)
	Devirt  func(recv *Term, T types.Type, m *types.Func, st *State) types.Type
	steps   int
	maxStep int
	nInstr  int
	fns     map[*ssa.Function]bool
	quiet   int
	loops   map[*ssa.Function]map[*ssa.BasicBlock]*Loop
}

func newEng(p *Prog) *Eng {
	return &Eng{P: p, maxStep: 400000, fns: map[*ssa.Function]bool{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}}
}

func (e *Eng) hook(kind string, fr *frame, in ssa.Instruction, st *State, t ...*Term) {
	if e.Hook != nil {
		e.Hook(kind, fr, in, st, t...)
	}
}

// Run explores fn with symbolic parameters.
func (e *Eng) Run(fn *ssa.Function) []*Outcome {
	return e.RunWith(fn, e.Params(fn), newState())
}

func (e *Eng) Params(fn *ssa.Function) []*Term {
	var args []*Term
	for i, p := range fn.Params {
		args = append(args, mk("param", fn.String()+"/"+p.Name()+fmt.Sprint("·", i), p.Type(), p))
	}
	return args
}

func (e *Eng) RunWith(fn *ssa.Function, args []*Term, st *State) []*Outcome {
	return e.inline(fn, args, nil, st, nil)
}

func (e *Eng) inline(fn *ssa.Function, args []*Term, bind []*Term, st *State, stack []*ssa.Function) []*Outcome {
	e.fns[fn] = true
	fr := &frame{fn: fn, env: map[ssa.Value]*Term{}, stack: append(append([]*ssa.Function(nil), stack...), fn)}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(bind) {
			fr.env[f] = bind[i]
		}
	}
	if len(fn.Blocks) == 0 {
		panic(undecided{"no body: " + fn.String()})
	}
	outs, _, _ := e.explore([]item{{fr: fr, st: st, blk: fn.Blocks[0]}}, nil)
	return outs
}

func (e *Eng) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if l, ok := e.loops[fn]; ok {
		return l
	}
	m := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := m[s]
			if l == nil {
				l = &Loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				m[s] = l
			}
			var add func(x *ssa.BasicBlock)
			add = func(x *ssa.BasicBlock) {
				if l.blocks[x] {
					return
				}
				l.blocks[x] = true
				for _, p := range x.Preds {
					add(p)
				}
			}
			add(b)
		}
	}
	e.loops[fn] = m
	return m
}

func (e *Eng) explore(work []item, loop *Loop) (outs []*Outcome, exits, backs []item) {
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		e.steps++
		if e.steps > e.maxStep {
			panic(undecided{fmt.Sprintf("more than %d steps in %s", e.maxStep, it.fr.fn)})
		}
		if loop != nil && !it.start && it.idx == 0 {
			if it.blk == loop.head && it.prev != nil && loop.blocks[it.prev] {
				backs = append(backs, it)
				continue
			}
			if !loop.blocks[it.blk] {
				exits = append(exits, it)
				continue
			}
		}
		if !it.start && it.idx == 0 {
			if l := e.loopsOf(it.fr.fn)[it.blk]; l != nil && l != loop && (it.prev == nil || !l.blocks[it.prev]) {
				o, x := e.runLoop(l, it)
				outs = append(outs, o...)
				work = append(work, x...)
				continue
			}
		}
		o, next := e.block(it)
		outs = append(outs, o...)
		// keep source order: first successor explored first
		for i := len(next) - 1; i >= 0; i-- {
			work = append(work, next[i])
		}
	}
	return
}

// phis of a block take their values on entry
func (e *Eng) enter(it *item) {
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range it.blk.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		k := -1
		for i, pr := range it.blk.Preds {
			if pr == it.prev {
				k = i
			}
		}
		if k < 0 {
			panic(undecided{"phi without predecessor in " + it.fr.fn.String()})
		}
		phis = append(phis, p)
		vals = append(vals, e.val(it.fr, p.Edges[k]))
	}
	for i, p := range phis {
		it.fr.env[p] = vals[i]
	}
}

func headPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

// headConst: the loop condition is a constant on this visit
func (e *Eng) headConst(it item) bool {
	fr := it.fr.clone()
	jt := item{fr: fr, st: it.st.clone(), blk: it.blk, prev: it.prev}
	for _, in := range it.blk.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.DebugRef, *ssa.If:
		case *ssa.UnOp:
			if in.Op != token.MUL && in.Op != token.NOT && in.Op != token.SUB {
				return false
			}
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	q := e.Hook
	e.Hook = nil
	defer func() { e.Hook = q }()
	if it.prev != nil {
		e.enter(&jt)
	}
	for i := range it.blk.Instrs {
		switch in := it.blk.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := e.val(fr, in.Cond)
			return c == tTrue || c == tFalse
		case *ssa.Call:
			fr.env[in] = e.lenOf(jt.st, e.val(fr, in.Call.Args[0]), in.Call.Args[0].Type())
		default:
			e.simple(fr, jt.st, in)
		}
	}
	return false
}

func (e *Eng) runLoop(l *Loop, it item) (outs []*Outcome, exits []item) {
	// constant trip counts are followed exactly
	cur := []item{it}
	for n := 0; n < 64 && len(cur) > 0; n++ {
		var rest []item
		var next []item
		for _, c := range cur {
			if !e.headConst(c) {
				rest = append(rest, c)
				continue
			}
			c.start = true
			o, x, b := e.explore([]item{c}, l)
			outs = append(outs, o...)
			exits = append(exits, x...)
			for _, y := range b {
				next = append(next, y)
			}
		}
		for _, r := range rest {
			o, x := e.genericLoop(l, r)
			outs = append(outs, o...)
			exits = append(exits, x...)
		}
		cur = next
	}
	for _, r := range cur {
		o, x := e.genericLoop(l, r)
		outs = append(outs, o...)
		exits = append(exits, x...)
	}
	return
}

func (e *Eng) genericLoop(l *Loop, it item) (outs []*Outcome, exits []item) {
	e.enter(&it)
	phis := headPhis(l.head)
	init := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		init[p] = it.fr.env[p]
	}
	modPhi := map[*ssa.Phi]bool{}
	// how integer variables move: not below, not above where they start
	lower := map[*ssa.Phi]bool{}
	upper := map[*ssa.Phi]bool{}
	modMem := map[*Term]types.Type{}
	modRoot := map[*Term]bool{}
	modMap := map[*Term]bool{}
	name := it.st.fresh("loop")
	name = fmt.Sprintf("%s@%s.%d", name, it.fr.fn.Name(), l.head.Index)
	allocMark := it.st.cnt["alloc"]
	late := &lateMod{name: name + ".deferred", mem: map[*Term]types.Type{}, root: map[*Term]bool{}, maps: map[*Term]bool{}}
	lateOn := false
	for round := 0; ; round++ {
		if round > 12 {
			panic(undecided{"loop does not stabilise in " + it.fr.fn.String()})
		}
		st := it.st.clone()
		fr := it.fr.clone()
		sub := &Sub{Kind: "loop", Name: name, Init: map[*Term]*Term{}, Syms: map[*Term]*Term{}, Loop: l, Phis: phis}
		for _, p := range phis {
			if modPhi[p] {
				s := mk("sym", name+"."+phiName(p), p.Type(), sub)
				s.X = sub
				sub.Init[s] = init[p]
				fr.env[p] = s
				if lower[p] {
					if k, ok := init[p].intVal(); ok {
						st.facts.assume(tLt(s, tInt(k)), false)
					} else {
						st.facts.inv = append(st.facts.inv, [2]*Term{init[p], s})
					}
				}
				if upper[p] {
					st.facts.inv = append(st.facts.inv, [2]*Term{s, init[p]})
				}
			}
		}
		e.havoc(st, name, sub, modMem, modRoot, modMap)
		if lateOn {
			fr.defers = append(fr.defers, deferred{late: late})
		}
		ev := &Event{Kind: "loop", Name: name, Sub: sub, Fn: it.fr.fn, Instr: l.head.Instrs[0]}
		st.ev = append(st.ev, ev)
		base := len(st.ev)
		sub.At = st.clone()
		q := e.Hook
		if round == 0 || true {
			// obligations are only final in the last round, which we do not
			// know yet: hooks collect per round and the caller keeps the last
		}
		e.Hook = nil
		steps := e.steps
		o, x, backs := e.explore([]item{{fr: fr.clone(), st: st.clone(), blk: l.head, prev: it.prev, start: true, idx: len(phis)}}, l)
		e.Hook = q
		changed := false
		for _, b := range backs {
			e.enter(&b)
			for _, p := range phis {
				v := b.fr.env[p]
				if v != fr.env[p] && !modPhi[p] {
					modPhi[p] = true
					changed = true
				}
			}
			if e.changes(sub.At, b.st, allocMark, modMem, modRoot, modMap) {
				changed = true
			}
			for _, o := range e.deferredHere(b, len(fr.defers)) {
				lateOn = true
				if e.changes(b.st, o.St, allocMark, late.mem, late.root, late.maps) {
					changed = true
				}
			}
		}
		if !changed {
			for _, p := range phis {
				if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
					continue
				}
				if !modPhi[p] || lower[p] || upper[p] {
					continue
				}
				up, down := len(backs) > 0, len(backs) > 0
				for _, b := range backs {
					v := b.fr.env[p]
					if v == fr.env[p] || !up && !down {
						continue
					}
					if v.Op == "add" && v.A[0] == fr.env[p] {
						if c, ok := v.A[1].intVal(); ok {
							up, down = up && c >= 0, down && c <= 0
							continue
						}
					}
					z := zoneOf(b.st.facts, nil)
					up = up && z.less(fr.env[p], v, 1)
					down = down && z.less(v, fr.env[p], 1)
				}
				if up || down {
					lower[p], upper[p] = up, down
					changed = true
				}
			}
		}
		if changed {
			continue
		}
		if q != nil {
			// final round again, with the hooks on
			e.steps = steps
			o, x, backs = e.explore([]item{{fr: fr.clone(), st: st.clone(), blk: l.head, prev: it.prev, start: true, idx: len(phis)}}, l)
			for i := range backs {
				e.enter(&backs[i])
			}
		}
		for _, b := range backs {
			tr := &Trace{St: b.st, Ev: b.st.ev[base:], Back: map[*Term]*Term{}}
			for _, p := range phis {
				if modPhi[p] {
					tr.Back[fr.env[p]] = b.fr.env[p]
				}
			}
			for a, s := range sub.Syms {
				if T, ok := modMem[a]; ok {
					tr.Back[s] = e.load(b.st, a, T)
				}
			}
			for _, o := range e.deferredHere(b, len(fr.defers)) {
				tr.Late = append(tr.Late, &Late{Ev: o.St.ev[len(b.st.ev):], St: o.St})
			}
			sub.Traces = append(sub.Traces, tr)
		}
		return o, x
	}
}

// deferredHere runs what an iteration has deferred, beyond the first n
func (e *Eng) deferredHere(b item, n int) (outs []*Outcome) {
	if len(b.fr.defers) <= n {
		return
	}
	f2, s2 := b.fr.clone(), b.st.clone()
	f2.defers = f2.defers[n:]
	q := e.Hook
	e.Hook = nil
	for _, d := range e.runDefers(f2, s2) {
		outs = append(outs, d.o)
	}
	e.Hook = q
	return
}

func phiName(p *ssa.Phi) string {
	n := p.Comment
	if n == "" {
		n = p.Name()
	}
	return n
}

func (e *Eng) havoc(st *State, name string, sub *Sub, modMem map[*Term]types.Type, modRoot, modMap map[*Term]bool) {
	for a, T := range modMem {
		s := mk("sym", name+".["+a.String()+"]", T, sub)
		s.X = sub
		sub.Init[s] = e.load(st, a, T)
		sub.Syms[a] = s
		e.storeRaw(st, a, s, T)
	}
	for r := range modRoot {
		st.dflt[r] = name
		for a := range st.mem {
			if rootOf(a) == r {
				delete(st.mem, a)
			}
		}
	}
	for m := range modMap {
		if m == nil {
			// calls of functions under way, which may change any map
			st.cnt["epoch"]++
			continue
		}
		st.mapver[m] = st.mapver[m] + 1000
		delete(st.mapkv, m)
	}
}

// changes records what differs between two states, of what existed in a
func (e *Eng) changes(a, b *State, mark int, modMem map[*Term]types.Type, modRoot, modMap map[*Term]bool) bool {
	ch := false
	for addr, v := range b.mem {
		r := rootOf(addr)
		if r.Op == "alloc" {
			if n, ok := r.X.(int); ok && n > mark {
				continue
			}
		}
		T := addrElem(addr)
		if e.load(a, addr, T) != v {
			if _, ok := modMem[addr]; !ok {
				modMem[addr] = T
				ch = true
			}
		}
	}
	for r, n := range b.dflt {
		if r.Op == "alloc" {
			if k, ok := r.X.(int); ok && k > mark {
				continue
			}
		}
		if a.dflt[r] != n && !modRoot[r] {
			modRoot[r] = true
			ch = true
		}
	}
	if a.cnt["epoch"] != b.cnt["epoch"] && !modMap[nil] {
		modMap[nil] = true
		ch = true
	}
	for m, n := range b.mapver {
		if m.Op == "mkmap" {
			if k, ok := m.X.(int); ok && k > mark {
				continue
			}
		}
		if a.mapver[m] != n && !modMap[m] {
			modMap[m] = true
			ch = true
		}
	}
	return ch
}

func addrElem(a *Term) types.Type {
	if a.T == nil {
		return types.Typ[types.Invalid]
	}
	return deref(a.T)
}

func rootOf(a *Term) *Term {
	for a.Op == "faddr" || a.Op == "iaddr" {
		a = a.A[0]
	}
	return a
}

// ---- memory ----

func (e *Eng) explode(T types.Type) bool {
	st, ok := T.Underlying().(*types.Struct)
	if !ok || st.NumFields() == 0 {
		return false
	}
	if _, ok := T.(*types.Named); ok {
		if p := st.Field(0).Pkg(); p != nil {
			return e.P.inModule(p.Path()) || strings.HasPrefix(p.Path(), "github.com/gobuffalo/here") || p.Path() == "go/token"
		}
	}
	return true
}

func (e *Eng) load(st *State, a *Term, T types.Type) *Term {
	if e.explode(T) {
		s := T.Underlying().(*types.Struct)
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, e.load(st, tFaddr(a, types.NewPointer(T), i), s.Field(i).Type()))
		}
		return tStruct(T, fs)
	}
	if v, ok := st.mem[a]; ok {
		return v
	}
	return e.initial(st, a, T)
}

func (e *Eng) initial(st *State, a *Term, T types.Type) *Term {
	r := rootOf(a)
	tag, changed := st.dflt[r]
	if r.Op == "alloc" && !changed {
		if a.Op == "iaddr" && a.A[0].Op != "alloc" {
			return tIndex(a.A[0], a.A[1], T)
		}
		return tZero(T)
	}
	switch a.Op {
	case "faddr":
		if a.A[0].T == nil {
			return mk("deref", tag, T, nil, a)
		}
		S := deref(a.A[0].T)
		s := e.initialTerm(st, a.A[0], S, tag)
		i, _ := a.X.(int)
		return tField(s, S, i)
	case "iaddr":
		if a.A[0].Op == "global" {
			if v := e.P.globalValue(a.A[0]); v != nil && v.Op == "list" {
				return tIndex(v, a.A[1], T)
			}
		}
		return tIndex(a.A[0], a.A[1], T)
	case "global":
		if !changed {
			if v := e.P.globalValue(a); v != nil {
				return v
			}
		}
	}
	return e.initialTerm(st, a, T, tag)
}

func (e *Eng) initialTerm(st *State, a *Term, T types.Type, tag string) *Term {
	switch a.Op {
	case "faddr":
		if a.A[0].T != nil {
			S := deref(a.A[0].T)
			i, _ := a.X.(int)
			return tField(e.initialTerm(st, a.A[0], S, tag), S, i)
		}
	case "iaddr":
		return tIndex(a.A[0], a.A[1], T)
	}
	return mk("deref", tag, T, nil, a)
}

func (e *Eng) storeRaw(st *State, a, v *Term, T types.Type) {
	if e.explode(T) {
		s := T.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			e.storeRaw(st, tFaddr(a, types.NewPointer(T), i), tField(v, T, i), s.Field(i).Type())
		}
		return
	}
	st.mem[a] = v
}

// ---- values ----

func (e *Eng) val(fr *frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return tZero(v.Type())
		}
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && v.Value.Kind() != constant.Int {
			if c := constant.ToInt(v.Value); c.Kind() == constant.Int {
				return tConst(c)
			}
		}
		return tConst(v.Value)
	case *ssa.Global:
		return e.P.globalTerm(v)
	case *ssa.Function:
		return mk("func", v.String(), v.Type(), v)
	case *ssa.Builtin:
		return mk("builtin", v.Name(), nil, nil)
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	if os.Getenv("DBG") != "" {
		fmt.Fprintf(os.Stderr, "no value for %s %s in %s\n", v.Name(), v, fr.fn)
	}
	panic(undecided{fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn)})
}

// simple executes an instruction that neither forks nor calls
func (e *Eng) simple(fr *frame, st *State, in ssa.Instruction) {
	set := func(v ssa.Value, t *Term) { fr.env[v] = t }
	val := func(v ssa.Value) *Term { return e.val(fr, v) }
	e.nInstr++
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		st.cnt["alloc"]++
		n := st.cnt["alloc"]
		nm := in.Comment
		if nm == "" {
			nm = "new"
		}
		if temporary(in) != nil {
			nm = "temp"
		}
		t := mk("alloc", fmt.Sprintf("%s@%d", nm, n), in.Type(), n)
		t.T = in.Type()
		set(in, t)
	case *ssa.BinOp:
		x, y := val(in.X), val(in.Y)
		if in.Op == token.QUO || in.Op == token.REM {
			e.hook("div", fr, in, st, x, y)
		}
		set(in, tBin(in.Op, x, y, in.X.Type()))
	case *ssa.UnOp:
		x := val(in.X)
		switch in.Op {
		case token.MUL:
			e.hook("deref", fr, in, st, x)
			st.facts.deref(x)
			set(in, e.load(st, x, in.Type()))
			if g, ok := in.X.(*ssa.Global); ok {
				st.ev = append(st.ev, &Event{Kind: "globalload", Name: g.String(), Args: []*Term{x}, Res: fr.env[in], Instr: in, Fn: fr.fn, Pure: true})
			}
		case token.NOT:
			set(in, tNot(x))
		case token.SUB:
			set(in, tSub(tInt(0), x))
		default:
			set(in, mk("un", in.Op.String(), in.Type(), nil, x))
		}
	case *ssa.ChangeInterface:
		set(in, val(in.X))
	case *ssa.ChangeType:
		set(in, retype(val(in.X), in.Type()))
	case *ssa.Convert:
		set(in, e.convert(val(in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		set(in, mk("conv", in.Type().String(), in.Type(), nil, val(in.X)))
	case *ssa.MakeInterface:
		set(in, mk("iface", typeKey(in.X.Type()), in.X.Type(), nil, val(in.X)))
	case *ssa.MakeClosure:
		var b []*Term
		for _, x := range in.Bindings {
			b = append(b, val(x))
		}
		f := in.Fn.(*ssa.Function)
		set(in, mk("closure", f.String(), in.Type(), f, b...))
	case *ssa.MakeMap:
		st.cnt["alloc"]++
		n := st.cnt["alloc"]
		set(in, mk("mkmap", fmt.Sprintf("map@%d", n), in.Type(), n))
	case *ssa.MakeSlice:
		st.cnt["alloc"]++
		n := st.cnt["alloc"]
		e.hook("makeslice", fr, in, st, val(in.Len), val(in.Cap))
		set(in, mk("mkslice", fmt.Sprintf("slice@%d", n), in.Type(), n, val(in.Len)))
	case *ssa.MakeChan:
		st.cnt["alloc"]++
		n := st.cnt["alloc"]
		set(in, mk("mkchan", fmt.Sprintf("chan@%d", n), in.Type(), n))
	case *ssa.Field:
		set(in, tField(val(in.X), in.X.Type(), in.Field))
	case *ssa.FieldAddr:
		x := val(in.X)
		e.hook("deref", fr, in, st, x)
		st.facts.deref(x)
		set(in, tFaddr(x, in.X.Type(), in.Field))
	case *ssa.Index:
		x, i := val(in.X), val(in.Index)
		e.hook("index", fr, in, st, x, i)
		set(in, tIndex(x, i, in.Type()))
	case *ssa.IndexAddr:
		x, i := val(in.X), val(in.Index)
		e.hook("index", fr, in, st, x, i)
		if x.Op == "slice" {
			// a slice of an array variable shares its elements
			i = tAdd(x.A[1], i)
			x = x.A[0]
		}
		set(in, mk("iaddr", "", in.Type(), nil, x, i))
	case *ssa.Extract:
		set(in, tExt(val(in.Tuple), in.Index, in.Type()))
	case *ssa.Slice:
		x := val(in.X)
		lo, hi := tNil, tNil
		if in.Low != nil {
			lo = val(in.Low)
		}
		if in.High != nil {
			hi = val(in.High)
		}
		if in.Low != nil || in.High != nil {
			e.hook("slice", fr, in, st, x, lo, hi)
		}
		if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			if arr, ok := p.Elem().Underlying().(*types.Array); ok && x.Op == "alloc" && lo == tNil && hi == tNil && arr.Len() <= 256 {
				// a literal: its elements
				var el []*Term
				for i := int64(0); i < arr.Len(); i++ {
					el = append(el, e.load(st, mk("iaddr", "", types.NewPointer(arr.Elem()), nil, x, tInt(i)), arr.Elem()))
				}
				set(in, mk("list", "", in.Type(), x, el...))
				return
			}
		}
		set(in, tSlice(x, lo, hi, in.Type()))
	case *ssa.SliceToArrayPointer:
		set(in, mk("conv", in.Type().String(), in.Type(), nil, val(in.X)))
	case *ssa.Range:
		set(in, mk("rangeiter", "", nil, nil, val(in.X)))
	case *ssa.Next:
		it := val(in.Iter)
		n := st.fresh("next")
		tup := in.Type().(*types.Tuple)
		src := it
		if it.Op == "rangeiter" {
			src = it.A[0]
		}
		set(in, tTuple(
			mk("sym", n+".more", types.Typ[types.Bool], in),
			mk("rangekey", n, tup.At(1).Type(), in, src),
			mk("rangeval", n, tup.At(2).Type(), in, src)))
	case *ssa.Store:
		a, v := val(in.Addr), val(in.Val)
		e.hook("deref", fr, in, st, a)
		e.hook("store", fr, in, st, a, v)
		e.store(fr, st, in, a, v, in.Val.Type())
	case *ssa.MapUpdate:
		m, k, v := val(in.Map), val(in.Key), val(in.Value)
		e.hook("mapupdate", fr, in, st, m, k, v)
		st.literal(m, k, v)
		st.mapver[m]++
		st.mapkv[m] = [2]*Term{k, v}
		st.ev = append(st.ev, &Event{Kind: "mapupdate", Args: []*Term{m, k, v}, Instr: in, Fn: fr.fn, Facts: len(st.facts.ord)})
	case *ssa.Send:
		st.ev = append(st.ev, &Event{Kind: "send", Args: []*Term{val(in.Chan), val(in.X)}, Instr: in, Fn: fr.fn})
	case *ssa.Go:
		ev := &Event{Kind: "go", Name: calleeName(&in.Call), Instr: in, Fn: fr.fn}
		for _, a := range in.Call.Args {
			ev.Args = append(ev.Args, val(a))
		}
		st.ev = append(st.ev, ev)
	case *ssa.Select:
		n := st.fresh("select")
		set(in, mk("res", n, in.Type(), nil))
	default:
		panic(undecided{fmt.Sprintf("instruction %T in %s", in, fr.fn)})
	}
}

func retype(t *Term, T types.Type) *Term {
	return t
}

func (e *Eng) store(fr *frame, st *State, in ssa.Instruction, a, v *Term, T types.Type) {
	e.storeRaw(st, a, v, T)
	r := rootOf(a)
	rec := r.Op != "alloc"
	if !rec {
		if al, ok := in.(*ssa.Store); ok {
			_ = al
		}
		rec = strings.HasPrefix(r.S, "complit@") || strings.HasPrefix(r.S, "new")
	}
	if rec {
		st.ev = append(st.ev, &Event{Kind: "store", Args: []*Term{a, v}, Instr: in, Fn: fr.fn, Facts: len(st.facts.ord)})
	}
}

func (e *Eng) convert(x *Term, from, to types.Type) *Term {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	switch {
	case fok && tok:
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return x
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			// widening is the identity, as is int <-> int64 here
			if sizeOf(tb) >= sizeOf(fb) {
				return x
			}
			return mk("conv", tb.Name(), to, nil, x)
		}
		return mk("conv", tb.Name(), to, nil, x)
	case fok && fb.Info()&types.IsString != 0:
		if s, ok := to.Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				return tApp("bytes", to, x)
			}
			return tApp("runes", to, x)
		}
	case tok && tb.Info()&types.IsString != 0:
		return tApp("string", to, x)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	return mk("conv", typeKey(to), to, nil, x)
}

func sizeOf(b *types.Basic) int64 {
	s := types.SizesFor("gc", "amd64").Sizeof(b)
	return s
}

// block runs a block from it.idx on
func (e *Eng) block(it item) (outs []*Outcome, next []item) {
	fr, st := it.fr, it.st
	if it.idx == 0 && it.prev != nil {
		e.enter(&it)
	}
	for i := it.idx; i < len(it.blk.Instrs); i++ {
		switch in := it.blk.Instrs[i].(type) {
		case *ssa.Phi:
			continue
		case *ssa.Jump:
			next = append(next, item{fr: fr, st: st, blk: it.blk.Succs[0], prev: it.blk})
			return
		case *ssa.If:
			c := e.val(fr, in.Cond)
			v, known := st.facts.decide(c)
			for k, want := range []bool{true, false} {
				if known && v != want {
					continue
				}
				f2, s2 := fr, st
				if !known {
					f2, s2 = fr.clone(), st.clone()
					if !s2.facts.assume(c, want) {
						continue
					}
				}
				next = append(next, item{fr: f2, st: s2, blk: it.blk.Succs[k], prev: it.blk})
			}
			return
		case *ssa.Return:
			var r []*Term
			for _, x := range in.Results {
				r = append(r, e.val(fr, x))
			}
			outs = append(outs, &Outcome{St: st, Ret: r, Pos: in.Pos()})
			return
		case *ssa.Panic:
			v := e.val(fr, in.X)
			st.ev = append(st.ev, &Event{Kind: "panic", Args: []*Term{v}, Instr: in, Fn: fr.fn})
			e.hook("panic", fr, in, st, v)
			outs = append(outs, e.unwind(fr, st, v, in.Pos())...)
			return
		case *ssa.RunDefers:
			os := e.runDefers(fr, st)
			for _, o := range os {
				if o.o.Panic != nil {
					outs = append(outs, e.unwind(o.fr, o.o.St, o.o.Panic, in.Pos())...)
					continue
				}
				next = append(next, item{fr: o.fr, st: o.o.St, blk: it.blk, prev: it.prev, idx: i + 1, start: true})
			}
			return
		case *ssa.Defer:
			d := deferred{call: &in.Call, in: in}
			if in.Call.IsInvoke() {
				d.fn = e.val(fr, in.Call.Value)
			} else if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
				d.fn = e.val(fr, in.Call.Value)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, e.val(fr, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.Call:
			var fnT *Term
			if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
				fnT = e.val(fr, in.Call.Value)
			}
			var args []*Term
			for _, a := range in.Call.Args {
				args = append(args, e.val(fr, a))
			}
			os := e.call(fr, st, in, &in.Call, fnT, args)
			for k, o := range os {
				f2 := fr
				if k < len(os)-1 {
					f2 = fr.clone()
				}
				if o.Panic != nil {
					outs = append(outs, e.unwind(f2, o.St, o.Panic, in.Pos())...)
					continue
				}
				switch len(o.Ret) {
				case 0:
				case 1:
					f2.env[in] = o.Ret[0]
				default:
					f2.env[in] = tTuple(o.Ret...)
				}
				next = append(next, item{fr: f2, st: o.St, blk: it.blk, prev: it.prev, idx: i + 1, start: true})
			}
			return
		case *ssa.TypeAssert:
			x := e.val(fr, in.X)
			is := e.isType(x, in.AssertedType)
			v, known := st.facts.decide(is)
			value := x
			if !types.IsInterface(in.AssertedType) {
				if x.Op == "iface" {
					value = x.A[0]
				} else {
					value = mk("assert", "", in.AssertedType, nil, x)
				}
			}
			if !in.CommaOk {
				e.hook("assert", fr, in, st, x, is)
				if known && !v {
					outs = append(outs, e.unwind(fr, st, mk("sym", "typeassertpanic", nil, nil), in.Pos())...)
					return
				}
				st.facts.assume(is, true)
				fr.env[in] = value
				continue
			}
			for _, want := range []bool{true, false} {
				if known && v != want {
					continue
				}
				f2, s2 := fr.clone(), st.clone()
				if !s2.facts.assume(is, want) {
					continue
				}
				if want {
					f2.env[in] = tTuple(value, tTrue)
				} else {
					f2.env[in] = tTuple(tZero(in.AssertedType), tFalse)
				}
				next = append(next, item{fr: f2, st: s2, blk: it.blk, prev: it.prev, idx: i + 1, start: true})
			}
			return
		case *ssa.Lookup:
			x, k := e.val(fr, in.X), e.val(fr, in.Index)
			if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
				e.hook("index", fr, in, st, x, k)
				fr.env[in] = tIndex(x, k, in.Type())
				continue
			}
			var vT types.Type = in.Type()
			if in.CommaOk {
				vT = in.Type().(*types.Tuple).At(0).Type()
			}
			if pairs := e.P.pairsOf(st, x); pairs != nil && !k.isConst() {
				// one of the entries, or none
				rest := st.clone()
				none := true
				for _, p := range pairs {
					f2, s2 := fr.clone(), st.clone()
					if s2.facts.assume(tEq(k, p[0]), true) {
						f2.env[in] = p[1]
						if in.CommaOk {
							f2.env[in] = tTuple(p[1], tTrue)
						}
						next = append(next, item{fr: f2, st: s2, blk: it.blk, prev: it.prev, idx: i + 1, start: true})
					}
					none = none && rest.facts.assume(tEq(k, p[0]), false)
				}
				if none {
					f2 := fr.clone()
					f2.env[in] = tZero(vT)
					if in.CommaOk {
						f2.env[in] = tTuple(tZero(vT), tFalse)
					}
					next = append(next, item{fr: f2, st: rest, blk: it.blk, prev: it.prev, idx: i + 1, start: true})
				}
				return
			} else if pairs != nil {
				v, has := tZero(vT), tFalse
				for _, p := range pairs {
					if p[0] == k {
						v, has = p[1], tTrue
					}
				}
				fr.env[in] = v
				if in.CommaOk {
					fr.env[in] = tTuple(v, has)
				}
				continue
			}
			var v, has *Term
			if kv, ok := st.mapkv[x]; ok && kv[0] == k {
				v, has = kv[1], tTrue
			} else if x.Op == "mkmap" && st.mapver[x] == 0 {
				v, has = tZero(vT), tFalse
			} else {
				v = mk("lookup", fmt.Sprint(st.mapver[x]), vT, nil, x, k)
				has = mk("has", fmt.Sprint(st.mapver[x]), types.Typ[types.Bool], nil, x, k)
			}
			if in.CommaOk {
				fr.env[in] = tTuple(v, has)
			} else {
				fr.env[in] = v
			}
		default:
			e.simple(fr, st, in)
		}
	}
	return
}

func (e *Eng) isType(x *Term, T types.Type) *Term {
	if x == tNil {
		return tFalse
	}
	if x.Op == "iface" {
		if v, ok := typeIs(x.T, T); ok {
			return tBool(v)
		}
	}
	return mk("istype", "", T, nil, x)
}

type fo struct {
	fr *frame
	o  *Outcome
}

// runDefers runs the pending deferred calls, last first
func (e *Eng) runDefers(fr *frame, st *State) []fo {
	cur := []fo{{fr, &Outcome{St: st}}}
	for {
		var nextc []fo
		more := false
		for _, c := range cur {
			if c.o.Panic != nil || len(c.fr.defers) == 0 {
				nextc = append(nextc, c)
				continue
			}
			more = true
			f2 := c.fr.clone()
			d := f2.defers[len(f2.defers)-1]
			f2.defers = f2.defers[:len(f2.defers)-1]
			s2 := c.o.St.clone()
			if d.late != nil {
				sub := &Sub{Kind: "loop", Name: d.late.name, Init: map[*Term]*Term{}, Syms: map[*Term]*Term{}}
				e.havoc(s2, d.late.name, sub, d.late.mem, d.late.root, d.late.maps)
				nextc = append(nextc, fo{f2, &Outcome{St: s2}})
				continue
			}
			s2.inDef++
			base := len(s2.ev)
			for k, o := range e.call(f2, s2, d.in, d.call, d.fn, d.args) {
				_ = k
				o.St.inDef--
				for _, ev := range o.St.ev[base:] {
					ev.Defer = true
				}
				nextc = append(nextc, fo{f2.clone(), o})
			}
		}
		cur = nextc
		if !more {
			return cur
		}
	}
}

// unwind runs the deferred calls of a panicking function
func (e *Eng) unwind(fr *frame, st *State, v *Term, pos token.Pos) []*Outcome {
	st = st.clone()
	st.pan = v
	var outs []*Outcome
	for _, c := range e.runDefers(fr, st) {
		if c.o.Panic != nil {
			outs = append(outs, e.unwind(c.fr, c.o.St, c.o.Panic, pos)...)
			continue
		}
		if c.o.St.pan != nil {
			p := c.o.St.pan
			outs = append(outs, &Outcome{St: c.o.St, Panic: p, Pos: pos})
			continue
		}
		// recovered
		if fr.fn.Recover != nil {
			o, _, _ := e.explore([]item{{fr: c.fr, st: c.o.St, blk: fr.fn.Recover}}, nil)
			outs = append(outs, o...)
			continue
		}
		var r []*Term
		res := fr.fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			r = append(r, tZero(res.At(i).Type()))
		}
		outs = append(outs, &Outcome{St: c.o.St, Ret: r, Pos: pos})
	}
	return outs
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return methodName(c.Method, c.Value.Type())
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	return "dynamic " + c.Signature().String()
}

// temporary: a struct that is only built to be stored in variables, with
// the fields that are set in it
func temporary(a *ssa.Alloc) map[int]bool {
	if a.Heap {
		return nil
	}
	if _, ok := deref(a.Type()).Underlying().(*types.Struct); !ok || a.Referrers() == nil {
		return nil
	}
	set := map[int]bool{}
	loads := 0
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			for _, q := range *r.Referrers() {
				if s, ok := q.(*ssa.Store); !ok || s.Addr != r {
					return nil
				}
			}
			set[r.Field] = true
		case *ssa.UnOp:
			for _, q := range *r.Referrers() {
				s, ok := q.(*ssa.Store)
				if !ok || s.Val != r {
					return nil
				}
				if _, ok := s.Addr.(*ssa.Alloc); !ok {
					return nil
				}
			}
			loads++
		default:
			return nil
		}
	}
	if loads == 0 {
		return nil
	}
	return set
}
