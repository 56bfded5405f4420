package main

import (
	"path"
	"strings"
)

// ---- C29: opening a name through a directory handle ----

func c29(c *Ctx) {
	for _, pkg := range []string{"pkging/stdos", "pkging/mem"} {
		c.below(pkg)
	}
}

// below: what a handle opens, on representatives of directories and names
func (c *Ctx) below(pkg string) {
	fn := c.method(pkg, "File", "Open")
	own := c.method(pkg, "File", "Path")
	if fn == nil || own == nil {
		return
	}
	k := fnName(fn)
	label := ""
	for _, o := range c.run(own) {
		if o.Panic == nil && len(o.Ret) == 1 {
			label = attrOf(o.Ret[0])
		}
	}
	if !c.check("anchor", fnName(own), own.Pos(), label != "", "the path of the handle is not a field of it") {
		return
	}
	self, given := c.P.paramTerm(fn, 0), c.P.paramTerm(fn, 1)
	outs := c.run(fn)
	openCases := append([]openCase{}, openCases...)
	for _, s := range constantsOf(outs).strs {
		if s == "" || len(s) > 60 {
			continue
		}
		for _, d := range []string{"/", "/d", path.Clean("/" + strings.Trim(s, "/\\:.*?"))} {
			for _, n := range []string{s, s + "q", "q" + s, "q" + s + "q", "/" + s, "x/" + s, "../" + s, s + "/../../q", s + "/x", "..\\" + s} {
				openCases = append(openCases, openCase{"m/p", d, n})
			}
		}
	}
	good, bad := 0, 0
	for _, o := range outs {
		f := o.St.facts
		if !c.check("returns", k, o.where(fn), o.Panic == nil && len(o.Ret) == 2, "%s: a path does not return", cond(f)) {
			continue
		}
		opens := openings(o.St.ev)
		failed := f.notNil(o.Ret[1])
		if len(opens) == 1 && !failed && !f.isNil(o.Ret[1]) && opens[0].errResult() == o.Ret[1] {
			// both results of the one that opens, as they are
			rs := opens[0].results()
			r := stripIface(o.Ret[0])
			c.check("handle", k, o.where(fn), len(rs) == 2 && (same(f, r, rs[0]) || r == stripIface(rs[0])), "%s is returned, not what was opened", o.Ret[0])
			var before []*Event
			for _, ev := range o.St.ev {
				if ev != opens[0] {
					before = append(before, ev)
				}
			}
			c.noneFailed(k, before, f)
			good++
			bad++
			continue
		}
		if !failed {
			c.check("error", k, o.where(fn), f.isNil(o.Ret[1]), "%s: %s is returned, which may be an error or not", cond(f), o.Ret[1])
		}
		if failed {
			bad++
			// only because a step failed
			ok := false
			for _, ev := range o.St.ev {
				if e := ev.errResult(); e != nil && f.notNil(e) {
					ok = true
				}
			}
			c.check("fails", k, o.where(fn), ok, "%s: it fails though nothing it did failed", cond(f))
			continue
		}
		good++
		c.noneFailed(k, o.St.ev, f)
		if !c.check("opens", k, o.where(fn), len(opens) == 1, "%s: it opens %s, not one file", cond(f), evNames(opens)) {
			continue
		}
		got := opens[0].results()[0]
		r := stripIface(o.Ret[0])
		switch {
		case same(f, r, got) || r == stripIface(got):
		case r.Op == "alloc":
			e := newEng(c.P)
			v := e.load(o.St, r, deref(r.T))
			pk := e.load(o.St, self, deref(self.T))
			c.check("handle", k, o.where(fn), v.Op == "struct" && part(v, nil, "pkging") == part(pk, nil, "pkging"), "the handle that is returned belongs to another implementation: %s", v)
			if v.Op == "struct" {
				for _, cs := range openCases {
					w := cs.env(self, given, label)
					if ok, _ := w.holds(f, 0); !ok {
						continue
					}
					p := part(v, nil, label)
					x, ok := w.eval(p)
					y, isS := x.(vStruct)
					c.check("handle", k, o.where(fn), ok && isS && len(y.F) == 2 && y.F[0] == cs.pkg && y.F[1] == cs.want(), "opening %q below %s:%s returns a handle of %s", cs.name, cs.pkg, cs.dir, p)
				}
			}
		default:
			c.fail("handle", k, o.where(fn), "%s is returned, not what was opened", o.Ret[0])
		}
	}
	c.atLeast("paths that open", good, 1)
	c.atLeast("paths that fail", bad, 1)

	for _, cs := range openCases {
		v := cs.env(self, given, label)
		at := "opening " + quote(cs.name) + " below " + cs.pkg + ":" + cs.dir
		hit := 0
		for _, o := range outs {
			f := o.St.facts
			if o.Panic != nil || len(o.Ret) != 2 {
				continue
			}
			if ok, _ := v.holds(f, 0); !ok {
				continue
			}
			for _, ev := range openings(o.St.ev) {
				hit++
				recv, arg := ev.Args[0], ev.Args[len(ev.Args)-1]
				c.check("implementation", k, ev.pos(), attrOf(stripIface(recv)) == "pkging" && rootParam(stripIface(recv)) == self, "it is opened by %s, not by the implementation of the handle", recv)
				x, known := v.eval(arg)
				s, isS := x.(string)
				if !c.check("place", k, ev.pos(), known && isS, "%s: what is opened is not known: %s", at, arg) {
					continue
				}
				pkg, name := "", s
				if i := strings.Index(s, ":"); i >= 0 {
					pkg, name = s[:i], s[i+1:]
				}
				c.check("package", k, ev.pos(), pkg == cs.pkg, "%s opens %q, of another package", at, s)
				name = path.Clean("/" + strings.Replace(name, "\\", "/", -1))
				c.check("place", k, ev.pos(), name == cs.want(), "%s opens %q", at, s)
			}
		}
		c.check("reaches", k, fn.Pos(), hit > 0, "%s opens nothing", at)
	}
}

func quote(s string) string { return "\"" + s + "\"" }

// openings: the calls that open a file
func openings(evs []*Event) (l []*Event) {
	every(evs, func(ev *Event, _ *Trace) {
		switch ev.Kind {
		case "call", "invoke", "dyn", "rec":
			n := ev.Name[strings.LastIndexByte(ev.Name, '.')+1:]
			if n == "Open" || n == "OpenFile" || n == "Create" {
				l = append(l, ev)
			}
		}
	})
	return
}

type openCase struct{ pkg, dir, name string }

// the place of the name below the directory
func (o openCase) want() string {
	return path.Join(o.dir, path.Clean("/"+strings.Replace(o.name, "\\", "/", -1)))
}

func (o openCase) env(self, given *Term, label string) env {
	return env{given: o.name, tHook: hookFn(func(v env, t *Term) (interface{}, bool) {
		if isPath(t.T) && attrOf(t) == label && rootParam(t) == self {
			return vStruct{t.T, []interface{}{o.pkg, o.dir}}, true
		}
		if t.Op == "field" && len(t.A) == 1 && isPath(t.A[0].T) && attrOf(t.A[0]) == label && rootParam(t.A[0]) == self {
			switch t.S {
			case "Pkg":
				return o.pkg, true
			case "Name":
				return o.dir, true
			}
		}
		return nil, false
	})}
}

var openCases = func() (l []openCase) {
	names := []string{"x", "/x", "x/y.txt", "/x/y.txt", "", "/", ".", "./x", "..", "/..", "../x", "/../x", "/../../x", "x/..", "x/../..", "x/../../y",
		"/x/../../../y", `..\x`, `\..\x`, `\x\..\..\y`, `x\y`, `..\..`, `/..\..\x`, "..x", "x..", "/d/x", "/d/e/x", "/dx", "d/e/x", "/d", "/d/..", "d/../..", "/d/../x", "/d/../../x", `\d\..\..\x`, "...", "../d", "../de", "d", "d/x", "//x", "x//y", "x/", "x y", "a:b", "m/q:/x", "C:/x"}
	for _, pkg := range []string{"m/p", "other/q"} {
		for _, dir := range []string{"/", "/d", "/d/e"} {
			for _, n := range names {
				l = append(l, openCase{pkg, dir, n})
			}
		}
	}
	return
}()

func init() {
	register("C29", "every path of Open of a handle opens exactly one file, in the implementation of the handle, and for every representative of package, directory and name it is the one at the name, cleaned as a rooted slash path, below the directory in the package of the directory", c29,
		"Parse keeps the package of a string with one and the name after the first colon (C12)")
}
