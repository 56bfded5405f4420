package main

import (
	"go/types"
	"reflect"
	"strings"
)

// ---- C33: what is reported of a declaration ----

func c33(c *Ctx) {
	c.positions()
	n := 0
	kinds := map[string]string{}
	for _, T := range c.declTypes() {
		n++
		if k, ok := c.kindOf(T.Obj().Name()); ok {
			c.check("encoded", T.Obj().Name(), T.Obj().Pos(), kinds[k] == "", "the encoded forms of %s and %s are of the type pkger.%s", T.Obj().Name(), kinds[k], k)
			kinds[k] = T.Obj().Name()
		}
		c.accessors(T.Obj().Name(), false)
		c.encoded(T)
	}
	c.atLeast("types of declarations", n, 7)
	c.views()
}

// positions: the position of a declaration is that of its argument, in the
// file that is searched
func (c *Ctx) positions() {
	fn, vs, _ := c.visits()
	if fn == nil {
		return
	}
	k := fnName(fn)
	n := 0
	for _, v := range vs {
		w := v.view
		fset := w.get(c.P.paramTerm(fn, 0), "FileSet")
		ce := w.as(w.node, "CallExpr")
		args := w.get(ce, "Args")
		a0 := tIndex(args, tInt(0), elemType(args.T))
		for _, tr := range v.cb.Sub.Traces {
			for _, ev := range addedDecls(tr.Ev) {
				_, el := appended(ev.Args[2])
				for _, d := range el {
					T, parts := c.declParts(tr.St, d)
					n++
					pos := parts["pos"]
					if !c.check("position", k, ev.pos(), pos != nil, "a %v has no position", T) {
						continue
					}
					ok := (pos.isApp("(*go/token.FileSet).Position") || pos.isApp("(*go/token.FileSet).PositionFor") && pos.A[2] == tTrue) && same(tr.St.facts, pos.A[0], fset) && posOf(pos.A[1], a0)
					c.check("position", k, ev.pos(), ok, "the position of a %v is %s, not that of its argument", T, pos)
				}
			}
		}
	}
	c.atLeast("declarations with a position", n, 7)
}

// posOf: t is where the node n begins
func posOf(t, n *Term) bool {
	if !t.contains(n) {
		return false
	}
	x := t
	switch {
	case t.Op == "app" && strings.HasSuffix(t.S, ".Pos") && len(t.A) == 1:
		x = t.A[0]
	case t.Op == "field" && (t.S == "ValuePos" || t.S == "NamePos"):
		x = t.A[0]
		if x.Op == "deref" {
			x = x.A[0]
		}
	default:
		return false
	}
	x = stripIface(x)
	for x.Op == "assert" || x.Op == "iface" {
		x = x.A[0]
	}
	return x == n
}

// encoded: the JSON form has the kind, the file, the position and the value
func (c *Ctx) encoded(T *types.Named) {
	name := T.Obj().Name()
	fn := c.P.method("parser", name, "MarshalJSON")
	if fn == nil || len(fn.Blocks) == 0 {
		c.fail("encoded", name, T.Obj().Pos(), "method MarshalJSON not found")
		return
	}
	k := fnName(fn)
	_, parts := c.declParts(newState(), c.P.paramTerm(fn, 0))
	good := 0
	for _, o := range c.run(fn) {
		f := o.St.facts
		if o.Panic != nil || len(o.Ret) != 2 {
			c.fail("encoded", k, o.where(fn), "%s: a path does not return", cond(f))
			continue
		}
		var enc *Event
		for _, ev := range o.St.ev {
			if strings.HasPrefix(ev.Name, "encoding/json.Marshal") && len(ev.results()) == 2 {
				enc = ev
			}
		}
		if f.notNil(o.Ret[1]) && (enc == nil || o.Ret[1] != enc.errResult()) {
			c.check("encoded", k, o.where(fn), c.failedAt(o), "%s: it fails though nothing failed", cond(f))
			continue
		}
		if f.notNil(o.Ret[1]) {
			continue
		}
		good++
		if !c.check("encoded", k, o.where(fn), enc != nil && o.Ret[0] == enc.results()[0] && (o.Ret[1] == enc.errResult() || f.isNil(enc.errResult())), "%s: it returns %v, which is not understood", cond(f), o.Ret) {
			continue
		}
		got := c.members(o, enc.Args[0])
		if !c.check("encoded", k, enc.pos(), got != nil, "what is encoded is %s, which is not understood", enc.Args[0]) {
			continue
		}
		for _, m := range []string{"file", "pos", "value"} {
			g := got[m]
			if g == nil {
				c.fail("encoded", k, enc.pos(), "the %s is not in the encoded form", m)
				continue
			}
			g = stripIface(g)
			ok := same(f, g, parts[m])
			if !ok && m == "file" && g.Op == "deref" {
				ok = same(f, g.A[0], parts[m]) && f.notNil(parts[m])
			}
			c.check("encoded", k, enc.pos(), ok, "the %s in the encoded form is %s", m, g)
		}
		kind, ok := "", false
		if g := got["type"]; g != nil {
			kind, ok = g.base().strVal()
		}
		known := false
		for _, n := range declKinds {
			known = known || kind == "pkger."+n
		}
		c.check("encoded", k, enc.pos(), ok && known, "the type in the encoded form is %q", kind)
	}
	c.atLeast("encoded forms of "+name, good, 1)
}

// failedAt: a step of the path failed
func (c *Ctx) failedAt(o *Outcome) bool {
	hit := false
	every(o.St.ev, func(ev *Event, _ *Trace) {
		if e := ev.errResult(); e != nil && o.St.facts.notNil(e) {
			hit = true
		}
	})
	return hit
}

// members: the members of the JSON object that the value is encoded as
func (c *Ctx) members(o *Outcome, x *Term) map[string]*Term {
	x = stripIface(x)
	out := map[string]*Term{}
	if x.T == nil {
		return nil
	}
	switch T := deref(x.T).Underlying().(type) {
	case *types.Map:
		if x.Op != "mkmap" {
			return nil
		}
		ok := true
		every(o.St.ev, func(ev *Event, in *Trace) {
			if ev.Kind != "mapupdate" && ev.Kind != "mapdelete" || ev.Args[0] != x {
				return
			}
			s, is := ev.Args[1].base().strVal()
			if ok = ok && is && in == nil && ev.Kind == "mapupdate"; ok {
				out[s] = ev.Args[2]
			}
		})
		if !ok {
			return nil
		}
	case *types.Struct:
		if ms := types.NewMethodSet(x.T); ms.Lookup(nil, "MarshalJSON") != nil {
			return nil
		}
		if x.Op == "alloc" {
			x = newEng(c.P).load(o.St, x, deref(x.T))
		}
		for i := 0; i < T.NumFields(); i++ {
			if !T.Field(i).Exported() {
				continue
			}
			tag := reflect.StructTag(T.Tag(i)).Get("json")
			n := strings.Split(tag, ",")[0]
			if n == "-" || strings.Contains(tag, ",omitempty") {
				continue
			}
			if n == "" {
				n = T.Field(i).Name()
			}
			out[n] = tField(x, x.T, i)
		}
	default:
		return nil
	}
	return out
}

// views: the map of declarations is the one they are collected in
func (c *Ctx) views() {
	fn := c.method("parser", "Parser", "DeclsMap")
	if fn == nil {
		return
	}
	k := fnName(fn)
	e := newEng(c.P)
	e.Opaque = c.opaqueAlso("parser", "(*parser.ParsedSource).DeclsMap", "(*parser.ParsedSource).Parse")
	self := c.P.paramTerm(fn, 0)
	good := 0
	for _, o := range c.runEng(e, fn) {
		f := o.St.facts
		if o.Panic != nil || len(o.Ret) != 2 {
			c.fail("map", k, o.where(fn), "%s: a path does not return", cond(f))
			continue
		}
		if f.notNil(o.Ret[1]) {
			continue
		}
		// the map that the walk fills, or the one that was filled before
		var decls *Term
		every(o.St.ev, func(ev *Event, _ *Trace) {
			if ev.Kind == "mapdelete" && isDeclMap(ev.Args[0].T) {
				c.fail("map", k, ev.pos(), "declarations are dropped from the map")
			}
		})
		for _, cb := range walkCallback(o.St.ev) {
			for _, tr := range cb.Sub.Traces {
				every(tr.Ev, func(ev *Event, _ *Trace) {
					for _, a := range addedDecls([]*Event{ev}) {
						decls = a.Args[0]
					}
				})
			}
		}
		good++
		r := o.Ret[0]
		is := func(t *Term) bool {
			return t == decls || decls == nil && (t.Op == "deref" || t.Op == "field") && rootParam(t) == self && isDeclMap(t.T)
		}
		c.check("map", k, o.where(fn), is(r) || copied(o, r, is), "%s: it returns %s, not what was found", cond(f), r)
	}
	c.atLeast("paths that return the map", good, 1)
	fn2, outs := c.parsing()
	for _, o := range outs {
		every(o.St.ev, func(ev *Event, _ *Trace) {
			if ev.Kind == "mapdelete" && isDeclMap(ev.Args[0].T) {
				c.fail("map", fnName(fn2), ev.pos(), "declarations are dropped from the map")
			}
		})
	}
}

// copied: the map has each entry of the other one
func copied(o *Outcome, m *Term, of func(t *Term) bool) bool {
	for _, ev := range o.St.ev {
		s := spanOf(ev)
		if s == nil || !of(s.list) || !s.finished(o.St.facts) {
			continue
		}
		all := len(ev.Sub.Traces) > 0
		for _, tr := range ev.Sub.Traces {
			hit := false
			for _, u := range addedDecls(tr.Ev) {
				if u.Args[0] != m || u.Args[1] != s.elem {
					continue
				}
				_, el := appended(u.Args[2])
				hit = hit || elemOf(u.Args[2], s) || len(el) == 1 && el[0].Op == "spread" && elemOf(el[0].A[0], s)
			}
			all = all && hit
		}
		if all {
			return true
		}
	}
	return false
}

func init() {
	register("C33", "the position of each declaration is that of its argument, on every path that makes one; its methods and its JSON form give its kind, file, position and value; the map of declarations has all that were found", c33,
		"encoding/json encodes maps and structs by their members; go/token.FileSet.Position gives the place of a node")
}
