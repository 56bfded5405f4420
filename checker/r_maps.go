package main

import "strings"

// mapsSpec: the synchronized maps do what they are named after: one
// operation on one sync.Map with the given key and value. The other checks
// take Load, Store, Delete, Range and Keys for granted.
func (c *Ctx) mapsSpec() {
	n := 0
	for _, kind := range []string{"Files", "Infos"} {
		T := c.P.typ("internal/maps", kind)
		if T == nil {
			c.fail("anchor", "maps."+kind, 0, "type not found")
			continue
		}
		for _, name := range []string{"Load", "Store", "Delete", "Range"} {
			fn := c.method("internal/maps", kind, name)
			if fn == nil {
				continue
			}
			k := "maps." + kind + "." + name
			p := newEng(c.P).Params(fn)
			for _, o := range c.run(fn) {
				n++
				if o.Panic != nil {
					c.check("map-panic", k, o.where(fn), false, "may panic")
					continue
				}
				var ops []*Event
				for _, ev := range o.St.ev {
					if strings.HasPrefix(ev.Name, "(*sync.Map).") {
						if ev.Kind == "call" {
							ops = append(ops, ev)
						}
						c.check("map-owner", k, ev.pos(), ev.Kind != "call" || c.ownMap(o, ev, p[0]), "works on %v, which is not the map of the receiver", ev.Args[0])
					}
				}
				if !c.check("map-operation", k, o.where(fn), len(ops) == 1, "does %d operations on the map", len(ops)) {
					continue
				}
				op := ops[0]
				pos := op.pos()
				base := func(i int) *Term { return stripIface(op.Args[i]) }
				switch name {
				case "Load":
					if !c.check("map-load", k, pos, op.Name == "(*sync.Map).Load" && base(1) == p[1], "does %s(%v)", op.Name, op.Args[1]) {
						continue
					}
					f := o.St.facts
					x, ok := op.results()[0], op.results()[1]
					has, known := f.decide(ok)
					typed := false
					for _, a := range f.ord {
						if a.Op == "istype" && a.A[0] == x {
							typed = f.m[a]
						}
					}
					if known && has && typed {
						v := o.Ret[0]
						for v.Op == "assert" || v.Op == "iface" {
							v = v.A[0]
						}
						c.check("map-load-found", k, o.where(fn), v == x && o.Ret[1] == tTrue, "of an entry that is there, returns %v", o.Ret)
					} else {
						c.check("map-load-missing", k, o.where(fn), o.Ret[1] == tFalse || known && !has && o.Ret[1] == ok || !known && o.Ret[1] == ok, "of an entry that is not there, returns %v (%s)", o.Ret, cond(f))
					}
				case "Store":
					okk := op.Name == "(*sync.Map).Store" || op.Name == "(*sync.Map).Swap"
					c.check("map-store", k, pos, okk && base(1) == p[1] && base(2) == p[2], "does %s of %v and %v", op.Name, op.Args[1], op.Args[2])
				case "Delete":
					okk := op.Name == "(*sync.Map).Delete" || op.Name == "(*sync.Map).LoadAndDelete"
					c.check("map-delete", k, pos, okk && base(1) == p[1], "does %s of %v", op.Name, op.Args[1])
				case "Range":
					if !c.check("map-range", k, pos, op.Name == "(*sync.Map).Range", "does %s", op.Name) {
						continue
					}
					found := false
					for _, cb := range o.St.ev {
						if cb.Kind != "callback" {
							continue
						}
						for _, tr := range cb.Sub.Traces {
							typed := map[*Term]bool{}
							for _, a := range tr.St.facts.ord {
								if a.Op == "istype" && !tr.St.facts.m[a] {
									typed[a.A[0]] = true
								}
							}
							if len(typed) > 0 {
								continue // never stored
							}
							var calls []*Event
							for _, e := range tr.Ev {
								if e.Kind == "dyn" {
									calls = append(calls, e)
								}
							}
							found = true
							if !c.check("map-range-call", k, pos, len(calls) == 1 && calls[0].Args[0] == p[1], "calls the function %d times for an entry", len(calls)) {
								continue
							}
							a := calls[0].args()
							un := func(t *Term) *Term {
								for t.Op == "assert" || t.Op == "iface" {
									t = t.A[0]
								}
								return t
							}
							c.check("map-range-entry", k, pos, un(a[0]) == cb.Sub.Args[0] && un(a[1]) == cb.Sub.Args[1], "gives the function %v", a)
							c.check("map-range-stop", k, pos, tr.Ret[0] == calls[0].results()[0], "stops on %v", tr.Ret[0])
						}
					}
					// or the function itself
					c.check("map-range-calls", k, pos, found, "does not call the function for the entries")
				}
			}
		}
		// Keys: complete and in order
		if fn := c.method("internal/maps", kind, "Keys"); fn != nil {
			k := "maps." + kind + ".Keys"
			store := classTree
			t := newTable(c, store)
			t.strKeys = kind == "Infos"
			for _, rev := range []bool{false, true} {
				t.reverse = rev
				o, t2, v := t.one(firstOnce(c.run(fn)), t.env())
				if !c.check("decided", k, fn.Pos(), o != nil && len(t2.why) == 0, "cannot tell what is returned: %s", strings.Join(t2.why, "; ")) {
					continue
				}
				n++
				x, _ := v.eval(o.Ret[0])
				l, ok := x.(vList)
				good := ok && len(l) == len(store)
				if good {
					for i, e := range sortedVP(store) {
						if kind == "Infos" {
							good = good && l[i] == e.String()
						} else {
							y, _ := toVP(l[i])
							good = good && y == e
						}
					}
				}
				c.check("map-keys", k, o.where(fn), good, "returns %v", x)
			}
		}
	}
	c.atLeast("paths of the maps decided", n, 20)
}

// ownMap: the sync.Map is the receiver's, made at most once
func (c *Ctx) ownMap(o *Outcome, ev *Event, recv *Term) bool {
	m := ev.Args[0]
	if rootParam(m) == recv {
		return true
	}
	if m.Op != "alloc" {
		return false
	}
	ok := false
	var sync *Event
	for _, e := range o.St.ev {
		if e == ev {
			break
		}
		if e.Kind == "once" || e.Kind == "call" && strings.HasSuffix(e.Name, ").Lock") {
			sync = e
		}
		if e.Kind == "store" && e.Args[1] == m && rootParam(e.Args[0]) == recv {
			// only when there was none
			none := false
			for _, f := range o.St.facts.ord {
				if f.Op == "eq" && o.St.facts.m[f] && (f.A[0] == tNil || f.A[1] == tNil) && rootParam(f.A[0]) == recv || f.Op == "eq" && o.St.facts.m[f] && len(f.A) == 2 && f.A[0] == tNil && rootParam(f.A[1]) == recv {
					none = true
				}
			}
			ok = sync != nil && none
		}
	}
	return ok
}

// firstOnce keeps one of the paths that differ only in whether the map was
// made before
func firstOnce(outs []*Outcome) (l []*Outcome) {
	for _, o := range outs {
		made := false
		for _, ev := range o.St.ev {
			made = made || ev.Kind == "once"
		}
		if !made {
			l = append(l, o)
		}
	}
	if l == nil {
		return outs
	}
	return l
}
