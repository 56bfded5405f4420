package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const pkgingPath = modPath + "/pkging"

var ops = []string{"Parse", "Current", "Info", "Create", "MkdirAll", "Open", "Stat", "Walk", "Remove", "RemoveAll"}

func isPkger(T types.Type) bool { return isNamed(T, pkgingPath, "Pkger") }

// activeGlobals: the variables that hold the applied and the fall-back
// implementation: the ones of type pkging.Pkger that are, and are not,
// assigned after initialisation.
func (p *Prog) activeGlobals() (applied, fallback map[*Term]bool) {
	applied, fallback = map[*Term]bool{}, map[*Term]bool{}
	sp := p.ssap[modPath]
	for _, m := range sp.Members {
		g, ok := m.(*ssa.Global)
		if !ok || !isPkger(deref(g.Type())) {
			continue
		}
		t := p.globalTerm(g)
		if p.mutableGlobals()[t] {
			applied[t] = true
		} else if len(p.gstore[g]) > 0 {
			fallback[t] = true
		}
	}
	return
}

// active: is x the implementation that is active on this path?
func (c *Ctx) active(f *Facts, x *Term) (bool, string) {
	applied, fallback := c.P.activeGlobals()
	if x.Op != "deref" {
		return false, "is not the active implementation but " + x.String()
	}
	g := x.A[0]
	switch {
	case applied[g]:
		if !f.notNil(x) {
			return false, "may be used although nothing was applied"
		}
		return true, ""
	case fallback[g]:
		// only when nothing was applied
		for _, t := range f.ord {
			if t.Op == "eq" && f.m[t] {
				for _, a := range t.A {
					if a.Op == "deref" && applied[a.A[0]] && f.isNil(a) {
						return true, ""
					}
				}
			}
		}
		return false, "the disk implementation is used without looking whether something was applied"
	}
	return false, "is not one of the variables that hold an implementation"
}

func lockOp(name string) (op string, ok bool) {
	for _, t := range []string{"(*sync.RWMutex).", "(*sync.Mutex).", "(sync.Locker)."} {
		if strings.HasPrefix(name, t) {
			return strings.TrimPrefix(name, t), true
		}
	}
	return "", false
}

// effects: the events that are not reads of variables, pure computations or
// operations of locks
func effects(evs []*Event) []*Event {
	var out []*Event
	for _, ev := range evs {
		if ev.Pure || ev.Kind == "globalload" {
			continue
		}
		if _, ok := lockOp(ev.Name); ok {
			continue
		}
		if ev.Kind == "store" {
			if r := rootOf(ev.Args[0]); r.Op == "alloc" {
				continue
			}
		}
		out = append(out, ev)
	}
	return out
}

// forwarded: the results are those of the event. With an error, the others
// may be left out.
func forwarded(o *Outcome, ev *Event) bool {
	rs := ev.results()
	if len(rs) != len(o.Ret) {
		return false
	}
	f := o.St.facts
	e := ev.errResult()
	for i := range rs {
		if same(f, o.Ret[i], rs[i]) {
			continue
		}
		if e != nil && f.notNil(e) && o.Ret[i].isZero() && rs[i] != e {
			continue
		}
		return false
	}
	return true
}

func c01(c *Ctx) {
	n := 0
	for _, name := range ops {
		fn := c.fn("", name)
		if fn == nil {
			continue
		}
		params := newEng(c.P).Params(fn)
		for _, o := range c.run(fn) {
			n++
			at := o.where(fn)
			k := "pkger." + name
			if !c.check("returns", k, at, o.Panic == nil, "%s panics %s", name, cond(o.St.facts)) {
				continue
			}
			ev := effects(o.St.ev)
			if !c.check("one-call", k, at, len(ev) == 1 && ev[0].Kind == "invoke" && ev[0].Name == "(pkging.Pkger)."+name,
				"%s does not make exactly one call of %s on the implementation: %s", name, name, evNames(ev)) {
				continue
			}
			ok, why := c.active(o.St.facts, ev[0].Args[0])
			c.check("active", k, at, ok, "the receiver of the call %s", why)
			c.check("arguments", k, at, sameList(o.St.facts, ev[0].Args[1:], params), "%s is called with %v instead of the caller's %v", name, ev[0].Args[1:], params)
			c.check("results", k, at, forwarded(o, ev[0]), "%s returns %v and not what the implementation returned, %v", name, o.Ret, ev[0].results())
		}
	}
	c.atLeast("paths of forwarding functions", n, len(ops))

	if fn := c.method("", "Dir", "Open"); fn != nil {
		p := newEng(c.P).Params(fn)
		okPaths := 0
		for _, o := range c.run(fn) {
			at := o.where(fn)
			f := o.St.facts
			if !c.check("returns", "pkger.Dir.Open", at, o.Panic == nil, "panics") {
				continue
			}
			var calls []*Event
			for _, ev := range effects(o.St.ev) {
				if ev.Kind == "invoke" && strings.HasSuffix(ev.Name, ".Close") {
					continue
				}
				calls = append(calls, ev)
			}
			if !c.check("opens-dir", "pkger.Dir.Open", at, len(calls) >= 1 && calls[0].Name == "(pkging.Pkger).Open" && len(calls) <= 2, "calls %s instead of opening the directory and then the name below it", evNames(calls)) {
				continue
			}
			ok, why := c.active(f, calls[0].Args[0])
			c.check("active", "pkger.Dir.Open", at, ok, "the receiver of the call %s", why)
			c.check("arguments", "pkger.Dir.Open", at, same(f, calls[0].Args[1], p[0]), "the directory is opened as %v", calls[0].Args[1])
			if len(calls) == 1 {
				c.check("fails-with-dir", "pkger.Dir.Open", at, f.notNil(calls[0].errResult()) && same(f, o.err(fn), calls[0].errResult()), "returns %v although the directory was opened %s", o.Ret, cond(f))
				continue
			}
			okPaths++
			c.check("opens-below", "pkger.Dir.Open", at, calls[1].Kind == "invoke" && strings.HasSuffix(calls[1].Name, ".Open") &&
				same(f, calls[1].Args[0].base(), calls[0].results()[0]) && same(f, calls[1].Args[1], p[1]) && f.isNil(calls[0].errResult()),
				"the name is opened by %s %v", calls[1].Name, calls[1].Args)
			c.check("results", "pkger.Dir.Open", at, forwarded(o, calls[1]), "returns %v, not the opened file", o.Ret)
		}
		c.atLeast("ways through Dir.Open that open a file", okPaths, 1)
	}
	if fn := c.fn("", "Include"); fn != nil {
		p := newEng(c.P).Params(fn)
		for _, o := range c.run(fn) {
			c.check("include", "pkger.Include", o.where(fn), o.Panic == nil && len(effects(o.St.ev)) == 0 && len(o.Ret) == 1 && same(o.St.facts, o.Ret[0], p[0]), "returns %v with effects %s", o.Ret, evNames(effects(o.St.ev)))
		}
	}
}

func sameList(f *Facts, a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !same(f, a[i], b[i]) {
			return false
		}
	}
	return true
}

func evNames(evs []*Event) string {
	var s []string
	for _, ev := range evs {
		n := ev.Name
		if n == "" {
			n = ev.Kind
		}
		s = append(s, n)
	}
	if len(s) == 0 {
		return "nothing"
	}
	return strings.Join(s, ", ")
}

// ---- C02 ----

func c02(c *Ctx) {
	applied, _ := c.P.activeGlobals()
	c.atLeast("variables holding the applied implementations", len(applied), 1)
	apply := c.fn("", "Apply")
	if apply == nil {
		return
	}
	// who assigns them
	writers := 0
	for g := range applied {
		sg := g.X.(*ssa.Global)
		for _, s := range c.P.gstore[sg] {
			if !isInit(s.Parent()) {
				writers++
			}
		}
	}
	c.atLeast("assignments of the applied implementation", writers, 1)
	c.check("no-alias", "package variables", token.NoPos, func() bool {
		for g := range applied {
			if c.P.addressTaken(g.X.(*ssa.Global)) {
				return false
			}
		}
		return true
	}(), "the address of the variable is taken, so that it can change without the lock")

	_, fallback := c.P.activeGlobals()
	disk := 0
	for g := range fallback {
		for _, s := range c.P.gstore[g.X.(*ssa.Global)] {
			disk++
			c.check("disk-first", short(g.S), s.Pos(), c.isDisk(s.Val), "before anything is applied, something else than the disk implementation is active")
		}
	}
	c.atLeast("initial implementations", disk, 1)
	newField, oldField := c.wrapFields()
	reads, stores := 0, 0
	sp := c.P.ssap[modPath]
	for _, fn := range c.P.all {
		if fn.Pkg != sp || fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		k := fnName(fn)
		params := newEng(c.P).Params(fn)
		for _, o := range c.run(fn) {
			at := o.where(fn)
			held := map[*Term]string{} // lock -> r, w
			var sectionLoad = map[*Term]bool{}
			every(o.St.ev, func(ev *Event, tr *Trace) {
				if op, ok := lockOp(ev.Name); ok && len(ev.Args) > 0 {
					l := ev.Args[0].base()
					switch op {
					case "Lock":
						c.check("relock", k, ev.pos(), held[l] == "", "%s locks what it holds already", k)
						held[l] = "w"
						sectionLoad = map[*Term]bool{}
					case "RLock":
						c.check("relock", k, ev.pos(), held[l] == "", "%s locks what it holds already", k)
						held[l] = "r"
					case "Unlock":
						c.check("unlock", k, ev.pos(), held[l] == "w", "Unlock without Lock")
						delete(held, l)
					case "RUnlock":
						c.check("unlock", k, ev.pos(), held[l] == "r", "RUnlock without RLock")
						delete(held, l)
					}
					return
				}
				switch ev.Kind {
				case "globalload":
					if applied[ev.Args[0]] {
						reads++
						c.check("read-locked", k+" reads "+short(ev.Args[0].S), ev.pos(), len(held) > 0, "%s is read without the lock", short(ev.Args[0].S))
						sectionLoad[ev.Args[0]] = true
					}
				case "store":
					g := ev.Args[0]
					if !applied[g] {
						return
					}
					stores++
					w := false
					for _, m := range held {
						w = w || m == "w"
					}
					c.check("write-locked", k+" writes "+short(g.S), ev.pos(), w, "%s is assigned without the exclusive lock", short(g.S))
					c.check("only-apply", k+" writes "+short(g.S), ev.pos(), fn == apply, "%s changes the active implementation", k)
					// what is stored
					v := ev.Args[1].base()
					if v.Op == "alloc" {
						// a wrapper behind a pointer
						if x := newEng(c.P).load(o.St, v, deref(v.T)); x.Op == "struct" {
							v = x
						}
					}
					okNew, okOld := false, false
					if fn == apply {
						if v == params[0].base() {
							// alone, when there was nothing before
							okNew = true
							for _, t := range o.St.facts.ord {
								if t.Op == "eq" && o.St.facts.m[t] {
									for _, a := range t.A {
										if a.Op == "deref" && a.A[0] == g && o.St.facts.isNil(a) {
											okOld = true
										}
									}
								}
							}
						}
						if v.Op == "struct" {
							st := v.T.Underlying().(*types.Struct)
							for i, x := range v.A {
								switch st.Field(i).Name() {
								case newField:
									okNew = same(o.St.facts, x, params[0])
								case oldField:
									okOld = x.Op == "deref" && x.A[0] == g && sectionLoad[g]
									if okOld {
										// read in the same critical section
										okOld = c.loadedSince(o.St.ev, ev, x)
									}
									if x == tNil {
										for _, t := range o.St.facts.ord {
											if t.Op == "eq" && o.St.facts.m[t] && (t.A[0].Op == "deref" && t.A[0].A[0] == g || t.A[1].Op == "deref" && t.A[1].A[0] == g) {
												okOld = true
											}
										}
									}
								}
							}
						}
					}
					c.check("newest-on-top", k+" writes "+short(g.S), ev.pos(), okNew, "what becomes active is %v: not the applied implementation on top", ev.Args[1])
					c.check("keeps-older", k+" writes "+short(g.S), ev.pos(), okOld, "what becomes active is %v: the implementations applied before are not kept, or were read outside of the critical section", ev.Args[1])
				case "invoke":
					if strings.HasPrefix(ev.Name, "(pkging.Pkger).") {
						for l, m := range held {
							c.check("call-unlocked", k, ev.pos(), m != "w", "an implementation is called while %v is held exclusively", l)
						}
					}
				}
			})
			if o.Panic != tExit {
				c.check("released", k, at, len(held) == 0, "%s returns with the lock held %s", k, cond(o.St.facts))
			}
			if fn == apply {
				c.applyOutcome(o, params, applied, at)
			}
		}
	}
	c.count("locked reads on paths", reads)
	c.atLeast("reads of the applied implementation on paths", reads, 10)
	c.atLeast("stores of the applied implementation on paths", stores, 1)
	// nobody outside of the package
	for _, fn := range c.P.all {
		if fn.Pkg == sp || fnPkg(fn) == modPath {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && applied[c.P.globalTerm(g)] {
						c.fail("private", fnName(fn), in.Pos(), "uses the active implementation from outside")
					}
				}
			}
		}
	}
}

// isDisk: is this initial value the disk implementation?
func (c *Ctx) isDisk(v ssa.Value) bool {
	want := types.NewPointer(c.P.typ("pkging/stdos", "Pkger"))
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return types.Identical(v.X.Type(), want)
	case *ssa.ChangeInterface:
		return c.isDisk(v.X)
	case *ssa.Extract:
		return c.isDisk(v.Tuple)
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil {
			return false
		}
		for _, o := range c.run(f) {
			if o.Panic != nil {
				continue
			}
			if len(o.Ret) == 0 || o.Ret[0].Op != "iface" || !types.Identical(o.Ret[0].T, want) {
				return false
			}
		}
		return true
	}
	return false
}

// loadedSince: the value was read after the lock was taken for this store
func (c *Ctx) loadedSince(evs []*Event, st *Event, x *Term) bool {
	ok := false
	for _, ev := range evs {
		if ev == st {
			return ok
		}
		if op, is := lockOp(ev.Name); is && op == "Lock" {
			ok = false
		} else if ev.Kind == "globalload" && ev.Res == x {
			ok = true
		}
	}
	return ok
}

func (c *Ctx) applyOutcome(o *Outcome, params []*Term, applied map[*Term]bool, at token.Pos) {
	f := o.St.facts
	stored := 0
	every(o.St.ev, func(ev *Event, _ *Trace) {
		if ev.Kind == "store" && applied[ev.Args[0]] {
			stored++
		}
	})
	e := params[1]
	switch {
	case f.notNil(e):
		c.check("refuses-error", "pkger.Apply", at, stored == 0, "an implementation that came with an error is installed")
		c.check("panics", "pkger.Apply", at, o.Panic != nil, "an error is not answered by a panic")
	case f.isNil(e):
		c.check("installs", "pkger.Apply", at, stored == 1 && o.Panic == nil, "the implementation is installed %d times, panic %v", stored, o.Panic)
		c.check("reports-success", "pkger.Apply", at, o.Panic != nil || o.Ret[0] == tNil, "returns %v", o.Ret)
	default:
		c.check("refuses-error", "pkger.Apply", at, false, "the error is not looked at")
	}
}

// wrapFields: the fields of a layered implementation that hold the newer
// and the older layer, as Wrap sets them
func (c *Ctx) wrapFields() (newest, older string) {
	fn := c.fn("pkging", "Wrap")
	if fn == nil {
		return
	}
	p := newEng(c.P).Params(fn)
	for _, o := range c.run(fn) {
		if o.Panic != nil || len(o.Ret) == 0 {
			continue
		}
		v := c.structOf(o.St, o.Ret[0])
		if v == nil {
			continue
		}
		st := v.T.Underlying().(*types.Struct)
		for i, x := range v.A {
			if x == p[1] {
				newest = st.Field(i).Name()
			}
			if x == p[0] {
				older = st.Field(i).Name()
			}
		}
	}
	return
}

// structOf: the struct value behind an interface or a pointer to a fresh one
func (c *Ctx) structOf(st *State, t *Term) *Term {
	b := t.base()
	if b.Op == "struct" {
		return b
	}
	if b.Op == "alloc" {
		T := deref(b.T)
		if s, ok := T.Underlying().(*types.Struct); ok {
			e := newEng(c.P)
			var fs []*Term
			for i := 0; i < s.NumFields(); i++ {
				fs = append(fs, e.load(st, tFaddr(b, types.NewPointer(T), i), s.Field(i).Type()))
			}
			return mk("struct", "", T, nil, fs...)
		}
	}
	return nil
}

// ---- C03 ----

func c03(c *Ctx) {
	wrap := c.fn("pkging", "Wrap")
	if wrap == nil {
		return
	}
	newest, older := c.wrapFields()
	if !c.check("wrap", "pkging.Wrap", wrap.Pos(), newest != "" && older != "", "Wrap does not keep both layers") {
		return
	}
	var T types.Type
	p := newEng(c.P).Params(wrap)
	for _, o := range c.run(wrap) {
		if !c.check("wrap", "pkging.Wrap", o.where(wrap), o.Panic == nil && len(effects(o.St.ev)) == 0, "Wrap panics or has effects") {
			continue
		}
		v := c.structOf(o.St, o.Ret[0])
		if v == nil {
			ok := same(o.St.facts, o.Ret[0], p[1]) && o.St.facts.isNil(p[0]) || same(o.St.facts, o.Ret[0], p[0]) && o.St.facts.isNil(p[1])
			c.check("wrap", "pkging.Wrap", o.where(wrap), ok, "returns %v %s", o.Ret, cond(o.St.facts))
			continue
		}
		T = v.T
		st := T.Underlying().(*types.Struct)
		for i, x := range v.A {
			switch st.Field(i).Name() {
			case newest:
				c.check("wrap", "pkging.Wrap", o.where(wrap), x == p[1], "the newer layer is %v", x)
			case older:
				c.check("wrap", "pkging.Wrap", o.where(wrap), x == p[0], "the older layer is %v", x)
			}
		}
	}
	n, ok := T.(*types.Named)
	if !ok {
		c.fail("wrap", "pkging.Wrap", wrap.Pos(), "no type of layered implementations found")
		return
	}
	isLayer := func(x *Term, field string) bool {
		return x.Op == "field" && x.S == field && x.A[0].T != nil && (types.Identical(deref(x.A[0].T), T)) || x.Op == "deref" && x.A[0].Op == "faddr" && x.A[0].S == field
	}
	total := 0
	for _, name := range ops {
		fn := c.method("pkging", n.Obj().Name(), name)
		if fn == nil {
			continue
		}
		params := newEng(c.P).Params(fn)
		readGroup := true
		switch name {
		case "MkdirAll", "Walk", "Remove", "RemoveAll":
			readGroup = false
		}
		k := "layered " + name
		ways := map[string]bool{}
		for _, o := range c.run(fn) {
			total++
			at := o.where(fn)
			f := o.St.facts
			if !c.check("returns", k, at, o.Panic == nil, "panics") {
				continue
			}
			absent := false
			for _, t := range f.ord {
				if t.Op == "eq" {
					for _, a := range t.A {
						absent = absent || isLayer(a, newest) && f.isNil(a)
					}
				}
			}
			if absent {
				continue // there is no such layer
			}
			ev := effects(o.St.ev)
			okCalls := len(ev) >= 1 && len(ev) <= 2
			for _, x := range ev {
				okCalls = okCalls && x.Kind == "invoke" && x.Name == "(pkging.Pkger)."+name
			}
			if !c.check("calls", k, at, okCalls, "%s calls %s", name, evNames(ev)) {
				continue
			}
			for _, x := range ev {
				c.check("arguments", k, at, sameList(f, x.Args[1:], params[1:]), "a layer gets %v instead of the caller's arguments", x.Args[1:])
			}
			if !c.check("newest-first", k, at, isLayer(ev[0].Args[0], newest), "the first layer asked is %v", ev[0].Args[0]) {
				continue
			}
			e0 := ev[0].errResult()
			var par *Term
			for _, t := range f.ord {
				if t.Op == "eq" {
					for _, a := range t.A {
						if isLayer(a, older) {
							par = a
						}
					}
				}
			}
			if len(ev) == 2 {
				par = ev[1].Args[0]
				c.check("older-second", k, at, isLayer(par, older), "the second layer asked is %v", par)
				c.check("older-exists", k, at, f.notNil(par), "an older layer is used without a test whether there is one")
			}
			switch {
			case len(ev) == 2 && readGroup:
				ways["fallback"] = true
				c.check("fallback-on-error", k, at, f.notNil(e0), "the older layer is asked although the newer one did not fail")
				c.check("results", k, at, forwarded(o, ev[1]), "returns %v instead of the results of the older layer", o.Ret)
			case len(ev) == 2:
				ways["both"] = true
				c.check("only-after-success", k, at, f.isNil(e0), "the older layer runs although the newer one failed, or that was not looked at")
				c.check("results", k, at, forwarded(o, ev[1]), "returns %v instead of the result of the older layer", o.Ret)
			default:
				none := par != nil && f.isNil(par)
				if readGroup {
					c.check("fallback-on-error", k, at, f.isNil(e0) || none, "the older layer is not asked %s", cond(f))
				} else {
					c.check("runs-older", k, at, f.notNil(e0) || none, "the older layer is left out %s", cond(f))
				}
				if none {
					ways["alone"] = true
				}
				c.check("results", k, at, forwarded(o, ev[0]), "returns %v instead of the results of the newer layer", o.Ret)
			}
		}
		if readGroup {
			c.check("asks-older", k, fn.Pos(), ways["fallback"], "the older layer is never asked")
		} else {
			c.check("asks-older", k, fn.Pos(), ways["both"], "the older layer never runs")
		}
	}
	c.atLeast("paths of layered operations", total, 30)
}

func init() {
	register("C01", "path-sensitive abstract interpretation of the package-level functions: on each path exactly one call of the operation of the same name on the active implementation, with the parameters as arguments and its results as results", c01)
	register("C02", "lock-set analysis over every path of the exported functions of the root package: the variables that hold the applied implementation are read and written under the lock, which is released on every way out, and replaced by a value that layers the argument over what was read in the same critical section", c02)
	register("C03", "path-sensitive abstract interpretation of Wrap and the methods of its result: which layers are called, in which order, under which outcome of the calls before, and what is returned", c03)
}
