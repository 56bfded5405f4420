package main

import (
	"go/token"
	"go/types"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C28: the commands and flags of the tool ----

const cmdsPkg = "cmd/pkger/cmds"

var subCommands = []string{"serve", "stat", "info", "path", "parse", "list"}

func c28(c *Ctx) {
	fn := c.fn(cmdsPkg, "New")
	if fn == nil {
		return
	}
	k := fnName(fn)
	var root *types.Named
	var subsField string
	flags := map[string]string{}
	made := map[string]*types.Named{}
	good := 0
	for _, o := range c.run(fn) {
		if o.Panic != nil || len(o.Ret) != 2 || o.St.facts.notNil(o.Ret[1]) {
			continue
		}
		good++
		r := o.Ret[0]
		if !c.check("root", k, o.where(fn), r.Op == "alloc", "the tool is %s", r) {
			return
		}
		root, _ = deref(r.T).(*types.Named)
		st, ok := deref(r.T).Underlying().(*types.Struct)
		if root == nil || !ok {
			c.fail("root", k, o.where(fn), "the tool is not a struct")
			return
		}
		e := newEng(c.P)
		var list *Term
		for i := 0; i < st.NumFields(); i++ {
			T := st.Field(i).Type()
			if _, ok := T.Underlying().(*types.Slice); ok && types.IsInterface(elemType(T)) {
				subsField = st.Field(i).Name()
				list = e.load(o.St, tFaddr(r, r.T, i), T)
			}
		}
		if !c.check("sub commands", k, o.where(fn), list != nil && list.Op == "list", "the sub commands are %v", list) {
			return
		}
		for _, x := range list.A {
			y := stripIface(x)
			T, _ := deref(y.T).(*types.Named)
			if T == nil {
				c.fail("sub commands", k, o.where(fn), "one is %s", x)
				continue
			}
			n := c.nameOf(T)
			if c.check("name", T.Obj().Name(), T.Obj().Pos(), n != "", "its name is not known") {
				c.check("name", T.Obj().Name(), T.Obj().Pos(), made[n] == nil, "%s is the name of two", n)
				made[n] = T
			}
		}
		c.flagsOf(k, o.St.ev, flags)
	}
	c.atLeast("paths that make the tool", good, 1)
	for _, n := range subCommands {
		if c.check("sub commands", n, fn.Pos(), made[n] != nil, "there is no sub command %s", n) {
			c.effect(n, made[n])
		}
	}
	if root == nil {
		return
	}
	c.check("flag", "pkger -include", fn.Pos(), flags["include"] != "", "there is no flag -include")
	c.check("flag", "pkger -o", fn.Pos(), flags["o"] != "", "there is no flag -o")
	c.route(root, subsField, flags)
	c.packs(root, flags)
	c.entry()
}

// flagsOf: the fields that the flags are kept in
func (c *Ctx) flagsOf(k string, evs []*Event, flags map[string]string) {
	for _, ev := range evs {
		if ev.Name == "flag.NewFlagSet" {
			m, ok := ev.Args[1].intVal()
			c.check("unknown flag", k, ev.pos(), ok && m == 1, "an unknown flag is not an error: mode %s", ev.Args[1])
		}
		if !strings.HasPrefix(ev.Name, "(*flag.FlagSet).") || len(ev.Args) < 3 {
			continue
		}
		n, ok := ev.Args[2].strVal()
		p := stripIface(ev.Args[1])
		if !ok || p.Op != "faddr" {
			continue
		}
		flags[n] = p.S
		if strings.HasSuffix(ev.Name, ").Var") {
			// each of them is kept
			m := c.P.prog.LookupMethod(p.T, nil, "Set")
			if p.T == nil || m == nil {
				c.fail("each", k+" -"+n, ev.pos(), "the values are kept in %s", p)
				continue
			}
			done := 0
			for _, o := range c.run(m) {
				if o.Panic != nil || len(o.Ret) != 1 || o.St.facts.notNil(o.Ret[0]) {
					continue
				}
				done++
				recv, val := c.P.paramTerm(m, 0), c.P.paramTerm(m, 1)
				e := newEng(c.P)
				now := e.load(o.St, recv, deref(recv.T))
				old, el := appended(now)
				c.check("each", k+" -"+n, o.where(m), old != nil && old.Op == "deref" && len(el) == 1 && el[0] == val, "after -%s it is %v, not the former values and the new one", n, now)
			}
			c.atLeast("paths that set -"+n, done, 1)
		}
	}
}

// nameOf: what the name of the command is, by its flags
func (c *Ctx) nameOf(T *types.Named) string {
	m := c.P.prog.LookupMethod(types.NewPointer(T), T.Obj().Pkg(), "Name")
	if m == nil {
		return ""
	}
	name, n := "", 0
	for _, o := range c.run(m) {
		if o.Panic != nil || len(o.Ret) != 1 {
			return ""
		}
		ev := eventOf(o.St.ev, o.Ret[0])
		s := ""
		switch {
		case ev != nil && ev.Name == "(*flag.FlagSet).Name":
			set := eventOf(o.St.ev, ev.Args[0])
			if set == nil || set.Name != "flag.NewFlagSet" {
				continue // made by an earlier call
			}
			s, _ = set.Args[0].strVal()
		default:
			s, _ = o.Ret[0].strVal()
		}
		if s == "" || n > 0 && s != name {
			return ""
		}
		name = s
		n++
	}
	return name
}

// route: every sub command is found by its name and gets what is after it
func (c *Ctx) route(root *types.Named, subsField string, flags map[string]string) {
	fn := c.method(cmdsPkg, root.Obj().Name(), "Route")
	exec := c.method(cmdsPkg, root.Obj().Name(), "Exec")
	if fn == nil || exec == nil {
		return
	}
	k := fnName(fn)
	e := newEng(c.P)
	e.Opaque = c.opaqueAlso(cmdsPkg, fnName(exec))
	self, given := c.P.paramTerm(fn, 0), c.P.paramTerm(fn, 1)
	packs, runs, unknown := 0, 0, 0
	for _, o := range c.runEng(e, fn) {
		f := o.St.facts
		if o.Panic != nil || len(o.Ret) != 1 {
			c.fail("returns", k, o.where(fn), "%s: a path does not return", cond(f))
			continue
		}
		var rest *Term // what is left of the arguments
		parsed := false
		for _, ev := range o.St.ev {
			switch {
			case ev.Name == "(*flag.FlagSet).Parse":
				parsed = same(f, ev.Args[1], given)
			case ev.Name == "(*flag.FlagSet).Args" && parsed:
				rest = ev.Res
			}
		}
		if !c.check("flags", k, o.where(fn), parsed, "%s: the flags are not looked at first", cond(f)) {
			continue
		}
		if bad := flagError(o.St.ev, o.Ret[0]); bad {
			continue
		}
		help := false
		for _, a := range f.ord {
			if v, ok := f.decide(a); !ok || !v {
				continue
			}
			switch {
			case attrOf(a) == flags["h"] && a.contains(self):
				help = true
			case a.Op == "eq":
				for _, x := range a.A {
					if s, ok := x.strVal(); ok && (s == "-h" || s == "-help" || s == "--help") {
						help = true
					}
				}
			case a.isApp("strings.HasPrefix"):
				if s, ok := a.A[1].strVal(); ok && s == "-h" {
					help = true
				}
			}
		}
		var ran *Event
		every(o.St.ev, func(ev *Event, _ *Trace) {
			if ev.Kind == "invoke" && strings.HasSuffix(ev.Name, "ommand).Exec") || ev.Kind == "invoke" && strings.HasSuffix(ev.Name, ".Exec") || ev.Name == fnName(exec) {
				if ran != nil {
					c.fail("once", k, ev.pos(), "%s: two commands are run", cond(f))
				}
				ran = ev
			}
		})
		none := rest != nil && decided(f, tLt(tLen(rest), tInt(1)), true)
		switch {
		case ran == nil && help:
			c.check("help", k, o.where(fn), explains(o.St.ev), "%s: the usage is not printed", cond(f))
		case ran == nil:
			unknown++
			c.check("unknown", k, o.where(fn), f.notNil(o.Ret[0]), "%s: nothing is run and there is no error", cond(f))
			c.check("unknown", k, o.where(fn), !none, "%s: without a sub command, nothing is packed", cond(f))
			// none of them has this name
			ok := false
			for _, ev := range o.St.ev {
				s := spanOf(ev)
				if s == nil || !s.finished(f) || attrOf(s.list) != subsField {
					continue
				}
				ok = true
				for _, tr := range ev.Sub.Traces {
					ok = ok && differs(tr, s.elem, rest)
				}
			}
			c.check("reachable", k, o.where(fn), ok, "%s: the argument is unknown before all sub commands were compared with it", cond(f))
		case ran.Name == fnName(exec):
			packs++
			c.check("packs", k, ran.pos(), none && ran.Args[0] == self, "%s: it packs though there are arguments", cond(f))
			c.check("error", k, ran.pos(), same(f, o.Ret[0], ran.Res), "%s is returned, not what packing did", o.Ret[0])
		default:
			runs++
			c.check("by name", k, ran.pos(), rest != nil && nameMatches(o.St.ev, f, ran.Args[0], rest), "%s: a sub command is run though its name may not be the argument", cond(f))
			a := ran.Args[1]
			ok := rest != nil && a.Op == "slice" && same(f, a.A[0], rest) && a.A[1] == tInt(1) && (len(a.A) < 3 || a.A[2] == tNil || a.A[2] == tLen(rest))
			helped := false
			for _, ev := range o.St.ev {
				helped = helped || notAmong(ev, f, a, tStr("-h"))
			}
			c.check("help", k, ran.pos(), helped, "%s: a sub command is run though it may be asked for its usage", cond(f))
			c.check("arguments", k, ran.pos(), ok, "the sub command gets %s, not the arguments after its name", a)
			c.check("error", k, ran.pos(), same(f, o.Ret[0], ran.Res), "%s is returned, not what the sub command did", o.Ret[0])
		}
	}
	c.atLeast("paths that pack", packs, 1)
	c.atLeast("paths that run a sub command", runs, 1)
	c.atLeast("paths for unknown arguments", unknown, 1)
}

// notAmong: the loop, which is over, went over all of the list, and found no
// element that is x
func notAmong(ev *Event, f *Facts, list, x *Term) bool {
	if ev.Kind != "loop" || ev.Sub == nil || len(ev.Sub.Traces) == 0 {
		return false
	}
	over, n := false, tLen(list)
	if list.Op == "slice" && list.A[2] == tNil {
		n = tSub(tLen(list.A[0]), list.A[1])
	}
	for _, a := range f.ord {
		// not i < len(list), for an i that goes through them all
		if a.Op != "lt" || !decided(f, a, false) || !same(f, a.A[1], n) {
			continue
		}
		i, off := a.A[0], int64(0)
		if i.Op == "add" && len(i.A) == 2 {
			if k, ok := i.A[1].intVal(); ok {
				off, i = k, i.A[0]
			}
		}
		init, ok := ev.Sub.Init[i]
		if !ok {
			continue
		}
		first, ok := init.intVal()
		if !ok || first+off != 0 {
			continue
		}
		over = true
		elem := tIndex(list, a.A[0], elemType(list.T))
		for _, tr := range ev.Sub.Traces {
			if tr.Back[i] != tAdd(i, tInt(1)) || possible(tr.St.facts, literal{tEq(elem, x), true}) {
				return false
			}
		}
	}
	return over
}

func decided(f *Facts, t *Term, want bool) bool {
	v, ok := f.decide(t)
	return ok && v == want
}

func isBool(T types.Type) bool {
	if T == nil {
		return false
	}
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// nameMatches: the path knows that the name of the command is the first argument
func nameMatches(evs []*Event, f *Facts, cmd, rest *Term) bool {
	hit := false
	every(evs, func(ev *Event, _ *Trace) {
		if strings.HasSuffix(ev.Name, ".Name") && ev.Kind == "invoke" && ev.Args[0] == cmd && same(f, ev.Res, tIndex(rest, tInt(0), elemType(rest.T))) {
			hit = true
		}
	})
	return hit
}

// differs: the path knows that it is not
func differs(tr *Trace, cmd, rest *Term) bool {
	if rest == nil {
		return false
	}
	for _, ev := range tr.Ev {
		if strings.HasSuffix(ev.Name, ".Name") && ev.Kind == "invoke" && ev.Args[0] == cmd &&
			decided(tr.St.facts, tEq(ev.Res, tIndex(rest, tInt(0), elemType(rest.T))), false) {
			return true
		}
	}
	return false
}

// parsing: the includes reach the analysis of the sources
func (c *Ctx) includes(k string, evs []*Event, f *Facts, field string, pos token.Pos) (decls, info *Term) {
	for _, ev := range evs {
		if ev.Name == "parser.Parse" {
			a := ev.Args[len(ev.Args)-1]
			ok := len(ev.Args) == 2 && field != "" && attrOf(a) == field
			c.check("-include", k, ev.pos(), ok, "%s: the sources are analysed with %s, not with the includes", cond(f), a)
			cur := eventOf(evs, ev.Args[0])
			c.check("current", k, ev.pos(), cur != nil && cur.Name == "pkger.Current", "it is %s that is analysed, not the current module", ev.Args[0])
			return ev.results()[0], ev.Args[0]
		}
	}
	c.check("-include", k, pos, false, "%s: nothing is analysed", cond(f))
	return nil, nil
}

// packs: what is written, and where
func (c *Ctx) packs(root *types.Named, flags map[string]string) {
	fn := c.method(cmdsPkg, root.Obj().Name(), "Exec")
	if fn == nil {
		return
	}
	k := fnName(fn)
	self := c.P.paramTerm(fn, 0)
	good := 0
	for _, o := range c.run(fn) {
		f := o.St.facts
		if o.Panic != nil || len(o.Ret) != 1 || f.notNil(o.Ret[0]) {
			continue
		}
		good++
		decls, info := c.includes(k, o.St.ev, f, flags["include"], o.where(fn))
		if decls == nil {
			continue
		}
		for _, out := range []string{"", "cmd/x", "./a/", "a/../b"} {
			v := env{tHook: hookFn(func(v env, t *Term) (interface{}, bool) {
				switch {
				case attrOf(t) == flags["o"] && t.contains(self):
					return out, true
				case t.Op == "field" && t.A[0] == info && t.S == "Dir":
					return "/s/m", true
				}
				return nil, false
			})}
			want := path.Join("/s/m", out, "pkged.go")
			removed, created := false, false
			what := "nothing"
			analysed := false
			for _, ev := range o.St.ev {
				switch ev.Name {
				case "parser.Parse":
					analysed = true
				case "os.RemoveAll", "os.Remove":
					if evalsTo(v, ev.Args[0], want) {
						removed = removed || !analysed
					} else {
						c.fail("-o", k, ev.pos(), "with -o %q, %s is removed", out, ev.Args[0])
					}
				case "os.Create", "os.OpenFile":
					what = ev.Args[0].String()
					created = evalsTo(v, ev.Args[0], want)
				case "pkging/pkgutil.Stuff":
					c.check("declared", k, ev.pos(), ev.Args[2] == decls && ev.Args[1] == info, "it is %s that is packed, not what was found", ev.Args[2])
				}
			}
			c.check("-o", k, o.where(fn), created, "with -o %q, %s is written, not %s", out, what, want)
			c.check("-o", k, o.where(fn), removed, "with -o %q, %s is not removed before the sources are analysed", out, want)
		}
	}
	c.atLeast("paths that pack", good, 1)
}

// derived: everything the steps make of the terms
func derived(evs []*Event, from ...*Term) map[*Term]bool {
	m := map[*Term]bool{}
	for _, t := range from {
		m[t] = true
	}
	has := func(t *Term) bool { return t.any(func(x *Term) bool { return m[x] }) }
	for n := -1; n != len(m); {
		n = len(m)
		every(evs, func(ev *Event, _ *Trace) {
			hit := false
			for i, a := range ev.Args {
				if (ev.Kind != "store" && ev.Kind != "mapupdate" || i > 0) && has(a) {
					hit = true
				}
			}
			if !hit {
				return
			}
			switch ev.Kind {
			case "store":
				m[rootOf(ev.Args[0])] = true
			case "mapupdate":
				m[ev.Args[0]] = true
			default:
				for _, r := range ev.results() {
					m[r] = true
				}
				// what is written to
				if strings.HasSuffix(ev.Name, ".Encode") {
					if enc := eventOf(evs, ev.Args[0]); enc != nil && strings.HasSuffix(enc.Name, ".NewEncoder") {
						m[stripIface(enc.Args[0])] = true
					}
				}
			}
		})
	}
	return m
}

// shown: something made of the terms is printed
func shown(evs []*Event, from ...*Term) bool {
	return printed(evs, evs, derived(evs, from...))
}

// printed: the steps print one of the terms; all are the steps so far
func printed(evs, all []*Event, m map[*Term]bool) bool {
	hit := false
	every(evs, func(ev *Event, _ *Trace) {
		out := false
		switch {
		case strings.HasPrefix(ev.Name, "fmt.Print"):
			out = true
		case strings.HasPrefix(ev.Name, "fmt.Fprint"), strings.HasSuffix(ev.Name, ".Write"), ev.Name == "io.Copy", strings.HasSuffix(ev.Name, ".WriteString"):
			out = isStdout(ev.Args[0])
		case strings.HasSuffix(ev.Name, ".WriteTo") && len(ev.Args) == 2:
			out = isStdout(ev.Args[1])
		case strings.HasSuffix(ev.Name, ".Encode"):
			enc := eventOf(all, ev.Args[0])
			out = enc != nil && len(enc.Args) > 0 && isStdout(enc.Args[0])
		}
		if !out {
			return
		}
		for _, a := range ev.Args {
			if a.any(func(x *Term) bool { return m[x] }) {
				hit = true
			}
		}
	})
	return hit
}

// shownIf: one of the terms that it is true for is printed
func shownIf(evs []*Event, is func(x *Term) bool) bool {
	var from []*Term
	look := func(t *Term) {
		if t == nil {
			return
		}
		t.any(func(x *Term) bool {
			if is(x) {
				from = append(from, x)
			}
			return false
		})
	}
	every(evs, func(ev *Event, _ *Trace) {
		for _, a := range ev.Args {
			look(a)
		}
	})
	return len(from) > 0 && shown(evs, from...)
}

// explains: the usage, or something, is printed
func explains(evs []*Event) bool {
	hit := false
	every(evs, func(ev *Event, _ *Trace) {
		switch {
		case ev.Kind == "dyn" && strings.HasSuffix(ev.Name, "Usage"), strings.HasSuffix(ev.Name, ".Usage"), strings.HasSuffix(ev.Name, ").PrintDefaults"):
			hit = true
		case strings.HasPrefix(ev.Name, "fmt.Print"), strings.HasPrefix(ev.Name, "fmt.Fprint"):
			hit = true
		}
	})
	return hit
}

func isStdout(t *Term) bool {
	return t.any(func(x *Term) bool { return x.Op == "global" && strings.HasSuffix(x.S, "os.Stdout") })
}

// flagError: what is returned is that the flags could not be parsed
func flagError(evs []*Event, r *Term) bool {
	for _, ev := range evs {
		if ev.Name == "(*flag.FlagSet).Parse" && ev.errResult() == r {
			return true
		}
	}
	return false
}

// effect: what a sub command does with its arguments
func (c *Ctx) effect(name string, T *types.Named) {
	m := c.P.prog.LookupMethod(types.NewPointer(T), T.Obj().Pkg(), "Exec")
	fl := c.P.prog.LookupMethod(types.NewPointer(T), T.Obj().Pkg(), "Flags")
	if m == nil || fl == nil {
		c.fail("anchor", name, T.Obj().Pos(), "its methods are not found")
		return
	}
	k := fnName(m)
	flags := map[string]string{}
	for _, o := range c.run(fl) {
		c.flagsOf(fnName(fl), o.St.ev, flags)
	}
	self, given := c.P.paramTerm(m, 0), c.P.paramTerm(m, 1)
	does := map[string]string{"serve": "pkger.Open", "stat": "pkger.Open", "info": "pkger.Info", "path": "pkger.Parse", "parse": "parser.Parse", "list": "parser.Parse"}[name]
	good := 0
	for _, o := range c.run(m) {
		f := o.St.facts
		if o.Panic != nil || len(o.Ret) != 1 {
			c.fail("returns", k, o.where(m), "%s: a path does not return", cond(f))
			continue
		}
		if f.notNil(o.Ret[0]) {
			// something failed, or there is nothing to look at
			failed, args := false, given
			every(o.St.ev, func(ev *Event, in *Trace) {
				tf := f
				if in != nil {
					tf = in.St.facts
				}
				if ev.Name == "(*flag.FlagSet).Args" {
					args = ev.Res
				}
				if e := ev.errResult(); e != nil && (tf.notNil(e) || f.notNil(e) || e == o.Ret[0]) && !strings.HasPrefix(ev.Name, "fmt.Error") && ev.Name != "errors.New" {
					failed = true
				}
			})
			c.check("refused", k, o.where(m), failed || decided(f, tLt(tLen(args), tInt(1)), true), "%s: it fails though nothing did", cond(f))
			continue
		}
		args := given
		help, parsed := false, false
		for _, ev := range o.St.ev {
			switch {
			case ev.Name == "(*flag.FlagSet).Parse":
				c.check("flags", k, ev.pos(), ev.Args[1] == given, "%s is parsed, not the arguments", ev.Args[1])
				args = nil
				parsed = true
			case ev.Name == "(*flag.FlagSet).Args":
				args = ev.Res
				c.check("flags", k, ev.pos(), parsed, "%s: what is left of the arguments is used before the flags are looked at", cond(f))
			}
		}
		for _, a := range f.ord {
			if isBool(a.T) && attrOf(a) != "" && a.contains(self) && f.m[a] && attrOf(a) != flags["json"] {
				help = true
			}
			for n, field := range flags {
				if attrOf(a) == field && a.contains(self) {
					c.check("flags", k+" -"+n, o.where(m), parsed, "%s: the flag is used before the flags are looked at", cond(f))
				}
			}
		}
		if help {
			c.check("help", k, o.where(m), explains(o.St.ev), "%s: the usage is not printed", cond(f))
			continue
		}
		if name == "list" {
			good++
			decls, info := c.includes(k, o.St.ev, f, flags["include"], o.where(m))
			if info != nil {
				c.check("shown", k, o.where(m), shownIf(o.St.ev, func(x *Term) bool { return x.Op == "field" && x.S == "ImportPath" && x.A[0] == info }), "%s: the list does not say of what package it is", cond(f))
			}
			c.check("flags", k, o.where(m), parsed, "%s: the flags are not looked at", cond(f))
			asked, known := false, false
			for _, a := range f.ord {
				if attrOf(a) == flags["json"] && a.contains(self) && isBool(a.T) {
					asked, known = f.decide(a)
				}
			}
			asJSON := false
			every(o.St.ev, func(ev *Event, _ *Trace) {
				asJSON = asJSON || strings.HasPrefix(ev.Name, "encoding/json.Marshal") || ev.Name == "(*encoding/json.Encoder).Encode"
			})
			c.check("-json", k, o.where(m), flags["json"] != "" && known && asked == asJSON, "%s: the list is JSON: %v", cond(f), asJSON)
			var files *Term
			for _, ev := range o.St.ev {
				if ev.Name == "(parser.Decls).Files" && ev.Args[0] == decls {
					files = ev.results()[0]
				}
			}
			if !c.check("files", k, o.where(m), files != nil, "%s: the files are not those of the declarations", cond(f)) {
				continue
			}
			c.check("shown", k, o.where(m), shown(o.St.ev, files), "%s: the files are not listed", cond(f))
			for _, ev := range o.St.ev {
				if s := spanOf(ev); s != nil && s.list == files {
					for _, tr := range ev.Sub.Traces {
						c.check("shown", k, ev.pos(), shown(tr.Ev, s.elem), "%s: a file is not listed", cond(tr.St.facts))
					}
					c.check("shown", k, ev.pos(), s.finished(f), "%s: not all files are listed", cond(f))
				}
			}
			continue
		}
		var over *span
		for _, ev := range o.St.ev {
			if s := spanOf(ev); s != nil && args != nil && s.list == args {
				over = s
			} else if s != nil && args != nil {
				if old, el := appended(s.list); old == args && len(el) == 1 && el[0] == tStr(".") {
					over = s
				}
			}
		}
		if args != nil && decided(f, tLt(tLen(args), tInt(1)), true) && (over == nil || over.list == args) {
			// what is here
			var did *Event
			at := map[string]string{"parse": "here.Dir"}[name]
			for _, ev := range o.St.ev {
				if ev.Name != does || len(ev.Args) == 0 {
					continue
				}
				if at == "" && ev.Args[0] == tStr(".") {
					did = ev
				}
				for _, by := range o.St.ev {
					if by.Name == at && len(by.Args) > 0 && by.Args[0] == tStr(".") && len(by.results()) > 0 && ev.Args[0].contains(by.results()[0]) {
						did = ev
					}
				}
			}
			c.check("no arguments", k, o.where(m), did != nil, "%s: without arguments it does not look at what is in the current directory", cond(f))
			continue
		}
		if args == nil {
			continue
		}
		if name != "path" && (over == nil || over.list == args) {
			c.check("no arguments", k, o.where(m), decided(f, tLt(tLen(args), tInt(1)), false), "%s: without arguments nothing is done", cond(f))
		}
		good++
		if name == "serve" {
			first := tIndex(args, tInt(0), elemType(args.T))
			var h *Term
			for _, ev := range o.St.ev {
				if ev.Name == does && ev.Args[0] == first {
					h = ev.results()[0]
				}
				if ev.Name == "net/http.FileServer" && h != nil {
					c.check("served", k, ev.pos(), stripIface(ev.Args[0]) == h, "%s is served, not what the argument names", ev.Args[0])
				}
			}
			if c.check("arguments", k, o.where(m), h != nil, "%s: the argument is not opened", cond(f)) {
				d := derived(o.St.ev, h)
				ok := false
				for _, ev := range o.St.ev {
					if ev.Name == "net/http.ListenAndServe" || strings.HasPrefix(ev.Name, "net/http.Serve") {
						ok = len(ev.Args) > 1 && ev.Args[1].any(func(x *Term) bool { return d[x] })
					}
				}
				c.check("served", k, o.where(m), ok, "%s: what the argument names is not served", cond(f))
			}
			continue
		}
		if !c.check("arguments", k, o.where(m), over != nil && over.finished(f), "%s: not all the arguments are looked at", cond(f)) {
			continue
		}
		for _, tr := range over.ev.Sub.Traces {
			seed := []*Term{over.elem}
			for _, s := range constantsOf(nil, tr).strs {
				if same(tr.St.facts, over.elem, tStr(s)) {
					seed = append(seed, tStr(s))
				}
			}
			d := derived(tr.Ev, seed...)
			var did *Event
			for _, ev := range tr.Ev {
				if ev.Name == does && len(ev.Args) > 0 && ev.Args[0].any(func(x *Term) bool { return d[x] }) {
					did = ev
				}
			}
			if !c.check("effect", k, over.ev.pos(), did != nil, "%s: nothing is done for an argument", cond(tr.St.facts)) {
				continue
			}
			c.check("effect", k, did.pos(), did.errResult() == nil || tr.St.facts.isNil(did.errResult()), "%s: it goes on though %s failed", cond(tr.St.facts), did.Name)
			if name == "parse" {
				// a package by its import path, the one here by a dot
				var by *Event
				for _, ev := range tr.Ev {
					for _, r := range ev.results() {
						if did.Args[0].contains(r) {
							by = ev
						}
					}
				}
				here, known := tr.St.facts.decide(tEq(over.elem, tStr(".")))
				want := "here.Package"
				if here {
					want = "here.Dir"
				}
				c.check("effect", k, did.pos(), by != nil && (known && by.Name == want), "%s: the package of an argument is found by %v", cond(tr.St.facts), by)
			}
			for _, ev := range tr.Ev {
				if name == "stat" && strings.HasSuffix(ev.Name, ".Readdir") {
					n, ok := ev.Args[len(ev.Args)-1].intVal()
					c.check("effect", k, ev.pos(), ok && n <= 0, "%s: not all of a directory is listed, but %s", cond(tr.St.facts), ev.Args[len(ev.Args)-1])
				}
			}
			r := did.results()[0]
			if name == "stat" {
				// a directory is listed
				listed := false
				for _, ev := range tr.Ev {
					listed = listed || strings.Contains(ev.Name, ".Readdir") || strings.HasSuffix(ev.Name, ".Walk")
				}
				for _, a := range tr.St.facts.ord {
					if v, ok := tr.St.facts.decide(a); ok && !v && strings.HasSuffix(a.S, ".IsDir") {
						listed = true
					}
				}
				c.check("effect", k, did.pos(), listed, "%s: the entries of a directory are not listed", cond(tr.St.facts))
			}
			ok := shown(tr.Ev, r)
			// all that is in it
			every(tr.Ev, func(ev *Event, in *Trace) {
				s := spanOf(ev)
				if s == nil || !d[s.list] && !derived(tr.Ev, r)[s.list] {
					return
				}
				tf := tr.St.facts
				if in != nil {
					tf = in.St.facts
				}
				c.check("shown", k, ev.pos(), s.finished(tf), "%s: not all that was found is shown", cond(tf))
				for _, t := range ev.Sub.Traces {
					c.check("shown", k, ev.pos(), shown(t.Ev, s.elem), "%s: one of those that were found is not shown", cond(t.St.facts))
				}
			})
			// under the name it was asked for
			for _, ev := range tr.Ev {
				if ev.Kind == "mapupdate" && ev.Args[2].any(func(x *Term) bool { return x == r || r.Op == "ext" && x == r.A[0] }) {
					c.check("shown", k, ev.pos(), ev.Args[1] == over.elem, "what was found for the argument is kept for %s", ev.Args[1])
				}
			}
			if !ok {
				// in a map, or a list, that is shown in the end
				m := derived(o.St.ev, r)
				for _, ev := range o.St.ev {
					ok = ok || ev != over.ev && printed([]*Event{ev}, o.St.ev, m)
				}
			}
			// a directory without files has nothing to show
			if !ok && name == "stat" {
				for _, ev := range tr.Ev {
					if s := spanOf(ev); s != nil && len(ev.Sub.Traces) > 0 && s.finished(tr.St.facts) && derived(tr.Ev, r)[s.list] {
						ok = true
					}
				}
			}
			c.check("shown", k, did.pos(), ok, "%s: what was found for the argument is not shown", cond(tr.St.facts))
		}
	}
	c.atLeast("paths of "+name, good, 1)
}

// entry: the program runs the tool on its arguments
func (c *Ctx) entry() {
	fn := c.fn("cmd/pkger", "main")
	if fn == nil {
		return
	}
	k := fnName(fn)
	e := newEng(c.P)
	in := c.opaqueAlso("cmd/pkger")
	e.Opaque = func(f *ssa.Function) bool {
		return in(f) || f.Name() == "Route" && fnPkg(f) == pkgPath(cmdsPkg) || f.Name() == "New" && fnPkg(f) == pkgPath(cmdsPkg)
	}
	good, bad := 0, 0
	for _, o := range c.runEng(e, fn) {
		f := o.St.facts
		var made, routed *Event
		exits := false
		for _, ev := range o.St.ev {
			switch {
			case strings.HasSuffix(ev.Name, "cmds.New"):
				made = ev
			case strings.HasSuffix(ev.Name, ").Route"):
				routed = ev
			case ev.Kind == "exit":
				exits = true
				if ev.Name == "os.Exit" {
					v, ok := ev.Args[0].intVal()
					exits = ok && v != 0
				}
			}
		}
		if o.Panic != nil && !exits && routed == nil {
			continue
		}
		if !c.check("runs", k, o.where(fn), made != nil, "%s: the tool is not made", cond(f)) {
			continue
		}
		if e := made.errResult(); e != nil && !f.isNil(e) {
			c.check("fails", k, o.where(fn), exits, "%s: an error is not one of the program", cond(f))
			continue
		}
		if !c.check("runs", k, o.where(fn), routed != nil && routed.Args[0] == made.results()[0], "%s: the tool is not run", cond(f)) {
			continue
		}
		a := routed.Args[1]
		ok := a.Op == "slice" && a.A[1] == tInt(1) && a.A[0].any(func(x *Term) bool { return x.Op == "global" && strings.HasSuffix(x.S, "os.Args") }) && (len(a.A) < 3 || a.A[2] == tNil)
		c.check("arguments", k, routed.pos(), ok, "the tool gets %s, not the arguments of the program", a)
		if f.isNil(routed.Res) {
			good++
		} else {
			bad++
			c.check("fails", k, o.where(fn), exits, "%s: an error of the tool is not one of the program", cond(f))
		}
	}
	c.atLeast("paths that run the tool", good, 1)
	c.atLeast("paths for an error of the tool", bad, 1)
}

func init() {
	register("C28", "on every path of Route, a sub command is run if and only if its name is the first argument, with those after it, and the tool packs if there is none; the fields that -include and -o are kept in are those that reach the analysis and the path of the generated file; each sub command does for every argument what it is for and shows it", c28,
		"package flag sets the fields that are registered, and ends the program for an unknown flag")
}
