package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// parsing runs the analysis of the sources of a module.
func (c *Ctx) parsing() (fn *ssa.Function, outs []*Outcome) {
	fn = c.fn("parser", "Parse")
	if fn == nil {
		return nil, nil
	}
	e := newEng(c.P)
	e.Opaque = c.opaqueAlso("parser", "(*parser.ParsedSource).DeclsMap", "(*parser.ParsedSource).Parse")
	return fn, c.runEng(e, fn)
}

var ignoredPrefixes = []string{".", "_", "vendor", "node_modules", "testdata"}

// ---- C32 ----

func c32(c *Ctx) {
	fn, outs := c.parsing()
	if fn == nil {
		return
	}
	her := c.P.paramTerm(fn, 0)
	root := part(her, her.T, "Dir")
	good := 0
	for _, o := range outs {
		if o.Panic != nil || len(o.Ret) != 2 {
			c.fail("returns", fnName(fn), o.where(fn), "a path does not return")
			continue
		}
		if o.St.facts.notNil(o.Ret[1]) {
			continue
		}
		good++
		var walk *Event
		for _, cb := range walkCallback(o.St.ev) {
			if cb.Args[0] == root || same(o.St.facts, cb.Args[0], root) {
				walk = cb
			}
		}
		if !c.check("walk", fnName(fn), o.where(fn), walk != nil, "%s: the sources are not walked from the directory of the module on", cond(o.St.facts)) {
			continue
		}
		c.check("walk", fnName(fn), walk.pos(), walk.Res != nil && (o.St.facts.isNil(walk.Res) || o.Ret[1] == walk.Res), "an error of the walk is dropped")
		c.sources(walk, root)
	}
	c.atLeast("paths that parse the sources", good, 1)
}

// sources checks what is done with each directory.
func (c *Ctx) sources(cb *Event, root *Term) {
	k := fnName(cb.Fn)
	W, info, er := cb.Sub.Args[0], cb.Sub.Args[1], cb.Sub.Args[2]
	n := 0
	for _, tr := range cb.Sub.Traces {
		if tr.St.facts.notNil(er) {
			n++
			c.check("error", k, cb.pos(), len(tr.Ret) == 1 && tr.St.facts.notNil(tr.Ret[0]) && !isSkip(tr.Ret[0]), "an error of the walk is dropped: %v is returned", tr.Ret)
		}
	}
	c.atLeast("paths for an error of the walk", n, 1)
	type class struct {
		root, at string
		dir      bool
	}
	var classes []class
	for _, r := range []string{"/s/m", "/s/_m", "/s/.m", "/s/vendor", "/s/testdata", "/s/node_modules"} {
		classes = append(classes, class{r, r, true})
		for _, d := range []string{"a", "a/b", "internal", "tests", "xvendor", "a.b", "a_b", "vend", "node", "test", "cmd/x", "V", "Vendor", "VENDOR", "Testdata", "TESTDATA", "Node_Modules", "é", "a b", "x~", "a,b", "a/vend/b", "x.old", "third_party/x", strings.Repeat("a/", 300) + "b", strings.Repeat("a", 200)} {
			classes = append(classes, class{r, path.Join(r, d), true})
		}
		for _, i := range ignoredPrefixes {
			classes = append(classes, class{r, path.Join(r, i+"x"), true}, class{r, path.Join(r, "a", i+"x"), true}, class{r, path.Join(r, i+"x.go"), false})
			if len(i) > 1 {
				classes = append(classes, class{r, path.Join(r, i), true})
			}
		}
		classes = append(classes, class{r, path.Join(r, "x.go"), false}, class{r, path.Join(r, "a", "x.txt"), false})
	}
	consts := constantsOf(nil, cb.Sub.Traces...)
	for _, n := range consts.names() {
		classes = append(classes, class{"/s/m", "/s/m/" + n, true}, class{"/s/m", "/s/m/a/" + n, true}, class{"/s/m", "/s/m/a/" + n + "/q", true}, class{"/s/m", "/s/m/" + n, false}, class{"/s/" + n, "/s/" + n, true})
	}
	analysed := map[*Trace]bool{}
	parsed := 0
	sizes := consts.kinds()
	for i := 0; i < len(classes)*len(sizes); i++ {
		cl, size := classes[i%len(classes)], sizes[i/len(classes)]
		b := path.Base(cl.at)
		skip := false
		for _, p := range ignoredPrefixes {
			skip = skip || cl.dir && cl.at != cl.root && strings.HasPrefix(b, p)
		}
		hit := 0
		for _, tr := range cb.Sub.Traces {
			v := env{W: cl.at, info: vInfo{name: b, dir: cl.dir, kind: size}, er: vNil{}, root: cl.root}
			ok, _ := v.holds(tr.St.facts, len(cb.Sub.At.facts.ord))
			if !ok {
				continue
			}
			hit++
			r := tr.Ret[0]
			what := "the directory " + strings.TrimPrefix(cl.at, "/s/") + " of the module in " + cl.root
			if !cl.dir {
				what = "the file " + strings.TrimPrefix(cl.at, "/s/")
			}
			switch {
			case skip:
				c.check("ignored", k, cb.pos(), isSkip(r) && !strings.HasSuffix(r.S, "SkipAll"), "%s is not left out", what)
			case !cl.dir:
				c.check("file", k, cb.pos(), !isSkip(r), "%s ends the walk of its directory", what)
				if !tr.St.facts.isNil(r) {
					c.check("file", k, cb.pos(), c.failed(tr), "%s is an error", what)
				}
			default:
				if !c.check("analysed", k, cb.pos(), !isSkip(r), "%s is left out", what) {
					continue
				}
				if tr.St.facts.notNil(r) {
					c.check("analysed", k, cb.pos(), c.failed(tr), "%s is an error without a reason: %s", what, r)
					continue
				}
				parsed++
				if !analysed[tr] {
					analysed[tr] = true
					c.analyses(k, cb, tr, W, what)
				}
			}
		}
		c.check("decided", k, cb.pos(), hit > 0, "nothing is known of %s", cl.at)
	}
	c.atLeast("directories analysed", parsed, 10)
}

// failed: something the path did returned an error, or it found that
// something is not what it has to be
func (c *Ctx) failed(tr *Trace) bool {
	f := tr.St.facts
	bad := false
	every(tr.Ev, func(ev *Event, _ *Trace) {
		if e := ev.errResult(); e != nil && f.notNil(e) {
			bad = true
		}
	})
	for _, t := range f.ord {
		// errors of pure calls, and of those in a loop that was left
		if t.Op == "eq" && !f.m[t] && (t.A[0] == tNil || t.A[1] == tNil) {
			x := t.A[0]
			if x == tNil {
				x = t.A[1]
			}
			if x.T != nil && isErr(x.T) {
				bad = true
			}
		}
		if t.isApp("(os.FileInfo).IsDir") && !f.m[t] && t.A[0].Op == "res" {
			bad = true
		}
	}
	return bad
}

// analyses: every file of the directory is parsed and its declarations kept
func (c *Ctx) analyses(k string, cb *Event, tr *Trace, W *Term, what string) {
	f := tr.St.facts
	var pd *Event
	for i, ev := range tr.Ev {
		if ev.Name == "go/parser.ParseDir" && ev.Kind == "call" && len(ev.Args) == 4 {
			pd = ev
			c.check("directory", k, ev.pos(), same(f, ev.Args[1], W), "%s is parsed, not the directory", ev.Args[1])
			m, ok := ev.Args[3].intVal()
			c.check("mode", k, ev.pos(), ok && m&3 == 0 && m&64 == 0, "the files are parsed in a mode that leaves calls or constants out: %s", ev.Args[3])
			switch {
			case ev.Args[2] == tNil || ev.Args[2].isZero():
			case i+1 < len(tr.Ev) && tr.Ev[i+1].Kind == "callback":
				c.filter(k, tr.Ev[i+1])
			default:
				c.fail("filter", k, ev.pos(), "the filter is not understood")
			}
		}
	}
	if !c.check("parsed", k, cb.pos(), pd != nil, "%s is passed over without an error: %s", what, cond(f)) {
		return
	}
	if !c.check("parsed", k, pd.pos(), f.isNil(pd.errResult()), "what was parsed is used although there was an error") {
		return
	}
	// all the files of all the packages
	pkgs := pd.results()[0]
	var outer *span
	for _, ev := range tr.Ev {
		if s := spanOf(ev); s != nil && s.list == pkgs {
			outer = s
		}
	}
	if !c.check("every file", k, pd.pos(), outer != nil && outer.finished(f), "not all the packages found in the directory are looked at") {
		return
	}
	// what is collected: a list of sources, or the declarations at once
	var srcs *Term
	var byName *Term // where they are, if the list is one of their names
	direct := false
	for _, t1 := range outer.ev.Sub.Traces {
		ok := false
		for _, ev := range t1.Ev {
			s := spanOf(ev)
			if s == nil || !s.finished(t1.St.facts) || !isFilesOf(s.list, outer) {
				continue
			}
			for sym := range ev.Sub.Init {
				all := len(ev.Sub.Traces) > 0
				var in *Term
				for _, t2 := range ev.Sub.Traces {
					old, el := appended(t2.Back[sym])
					if old != sym || len(el) != 1 {
						all = false
						continue
					}
					src := el[0]
					if src == s.elem {
						for _, u := range t2.Ev {
							if u.Kind == "mapupdate" && u.Args[1] == s.elem && u.Args[0].Op == "mkmap" && (in == nil || in == u.Args[0]) {
								src, in = u.Args[2], u.Args[0]
							}
						}
					}
					all = all && c.isSource(t2.St, src, s, pd)
				}
				if !all {
					continue
				}
				// carried on by the outer loop
				for osym, back := range t1.Back {
					if back == sym && ev.Sub.Init[sym] == osym && nothingIn(outer.ev.Sub.Init[osym]) {
						ok = true
						srcs, byName = osym, in
					}
				}
			}
		}
		c.check("every file", k, outer.ev.pos(), ok || direct, "%s: a file of a package is left out", cond(t1.St.facts))
	}
	if srcs == nil {
		return
	}
	// the declarations of each source
	var each *span
	named := func(el *Term, s *span) bool { return el.Op == "lookup" && el.A[0] == byName && el.A[1] == s.elem }
	for _, ev := range tr.Ev {
		s := spanOf(ev)
		switch {
		case s == nil:
		case byName == nil:
			if s.list == srcs {
				each = s
			}
		case s.list == srcs:
			// the source of each name
			for _, t1 := range ev.Sub.Traces {
				for _, a := range t1.Ev {
					if strings.HasSuffix(a.Name, "ParsedSource).DeclsMap") && named(a.Args[0], s) {
						each = &span{s.list, a.Args[0], s.more, s.ev}
					}
				}
			}
		case gathered(tr.Ev, f, s.list, func(g *span, el *Term) bool { return g.list == srcs && named(el, g) }) >= 0:
			each = s
		}
	}
	if !c.check("every declaration", k, pd.pos(), each != nil && each.finished(f), "not all the sources of the directory are searched") {
		return
	}
	c.keeps(k, each)
}

// keeps: what is found in each source is added to what was found before
func (c *Ctx) keeps(k string, each *span) {
	for _, t1 := range each.ev.Sub.Traces {
		ok := false
		var dm *Event
		for _, ev := range t1.Ev {
			if strings.HasSuffix(ev.Name, "ParsedSource).DeclsMap") && ev.Args[0] == each.elem {
				dm = ev
			}
			s := spanOf(ev)
			if s == nil || dm == nil || s.list != dm.results()[0] || !s.finished(t1.St.facts) {
				continue
			}
			ok = len(ev.Sub.Traces) > 0
			for _, t2 := range ev.Sub.Traces {
				adds := func(evs []*Event, is func(el *Term) bool) bool {
					for _, u := range addedDecls(evs) {
						old, el := appended(u.Args[2])
						if u.Args[1] == s.elem && old != nil && old.Op == "lookup" && old.A[0] == u.Args[0] && old.A[1] == s.elem && len(el) == 1 && is(el[0]) {
							return true
						}
					}
					return false
				}
				hit := adds(t2.Ev, func(el *Term) bool { return el.Op == "spread" && elemOf(el.A[0], s) })
				for _, e2 := range t2.Ev {
					// or one by one
					if in := spanOf(e2); !hit && in != nil && elemOf(in.list, s) && in.finished(t2.St.facts) {
						hit = true
						for _, t3 := range e2.Sub.Traces {
							hit = hit && adds(t3.Ev, func(el *Term) bool { return el == in.elem })
						}
					}
					// or by a list that is put in at the end
					for _, u := range addedDecls([]*Event{e2}) {
						old, list := spliced(t2.Ev, t2.St.facts, u.Args[2])
						if list != nil && u.Args[1] == s.elem && old.Op == "lookup" && old.A[0] == u.Args[0] && old.A[1] == s.elem && elemOf(list, s) {
							hit = true
						}
					}
				}
				ok = ok && hit
			}
		}
		if !c.check("every declaration", k, each.ev.pos(), dm != nil, "%s: a source is not searched", cond(t1.St.facts)) {
			continue
		}
		c.check("every declaration", k, each.ev.pos(), t1.St.facts.isNil(dm.errResult()), "%s: the error of a source is dropped", cond(t1.St.facts))
		c.check("every declaration", k, each.ev.pos(), ok, "%s: declarations that were found are left out", cond(t1.St.facts))
	}
}

// elemOf: the value of the map at the key that is looked at
func elemOf(t *Term, s *span) bool {
	switch t.Op {
	case "rangeval":
		return t.A[0] == s.list && s.elem.Op == "rangekey" && t.S == s.elem.S
	case "lookup":
		return t.A[0] == s.list && t.A[1] == s.elem
	}
	return false
}

// isFilesOf: the files of the package that the outer loop looks at
func isFilesOf(t *Term, outer *span) bool {
	return t.any(func(x *Term) bool { return elemOf(x, outer) }) && attrOf(t) == "Files"
}

// isSource: the element holds the syntax and the name of the file
func (c *Ctx) isSource(st *State, el *Term, s *span, pd *Event) bool {
	if el.Op != "alloc" {
		return false
	}
	e := newEng(c.P)
	T := deref(el.T)
	v := e.load(st, el, T)
	src := part(v, T, "Source")
	abs := part(src, nil, "Abs")
	ast := part(v, T, "Ast")
	fset := part(v, T, "FileSet")
	return abs == s.elem && ast != nil && elemOf(ast, s) && fset == pd.Args[0]
}

// filter: no Go file is left out
func (c *Ctx) filter(k string, cb *Event) {
	if len(cb.Sub.Args) != 1 {
		c.fail("filter", k, cb.pos(), "the filter is not understood")
		return
	}
	info := cb.Sub.Args[0]
	names := []string{"a.go", "a_test.go", "_a.go", ".a.go", "pkged.go", "a_windows.go", "zz.go", "A.go"}
	consts := constantsOf(nil, cb.Sub.Traces...)
	for _, n := range consts.names() {
		names = append(names, n+".go")
		if strings.HasSuffix(n, ".go") {
			names = append(names, n)
		}
	}
	sizes := consts.kinds()
	for i := 0; i < len(names)*len(sizes); i++ {
		n, size := names[i%len(names)], sizes[i/len(names)]
		hit := 0
		for _, tr := range cb.Sub.Traces {
			v := env{info: vInfo{name: n, dir: false, kind: size}}
			ok, u := v.holds(tr.St.facts, len(cb.Sub.At.facts.ord))
			if !ok {
				continue
			}
			hit++
			x, known := v.eval(tr.Ret[0])
			c.check("filter", k, cb.pos(), known && u == 0 && x == true, "the file %s is left out", n)
		}
		c.check("filter", k, cb.pos(), hit == 1, "what the filter does with %s is not understood", n)
	}
}

func init() {
	register("C32", "every directory below the root that is not ignored by the prefix of its name has all its Go files parsed and searched, and an error on the way is returned, on every path of the walk's callback", c32,
		"go/parser.ParseDir parses all files of a directory whose name ends in .go and that its filter accepts")
	_ = token.NoPos
}

// ---- C22 ----

func c22(c *Ctx) {
	c.recognised()
	c.reported()
	c.filers()
	c.allFiles()
}

// kindOf: the kind a declaration says it is, in its encoded form
func (c *Ctx) kindOf(name string) (string, bool) {
	fn := c.P.method("parser", name, "MarshalJSON")
	if fn == nil || len(fn.Blocks) == 0 {
		return "", false
	}
	kind, n := "", 0
	for _, o := range c.run(fn) {
		for _, ev := range o.St.ev {
			if !strings.HasPrefix(ev.Name, "encoding/json.Marshal") || len(ev.Args) == 0 {
				continue
			}
			if m := c.members(o, ev.Args[0]); m["type"] != nil {
				if v, ok := m["type"].base().strVal(); ok && (n == 0 || v == kind) {
					kind = v
					n++
				}
			}
		}
	}
	return strings.TrimPrefix(kind, "pkger."), n > 0 && strings.HasPrefix(kind, "pkger.")
}

func (c *Ctx) recognised() {
	// the types of declarations: what they are, and what they offer
	kinds := map[string]string{}
	F, V := c.P.typ("parser", "Filer"), c.P.typ("parser", "Virtualer")
	if F == nil || V == nil {
		c.fail("anchor", "parser.Filer", token.NoPos, "the interfaces of declarations are not found")
		return
	}
	for _, T := range c.declTypes() {
		n := T.Obj().Name()
		k, ok := c.kindOf(n)
		c.check("kind", n, T.Obj().Pos(), ok, "the kind of the declaration is not known from its encoded form")
		kinds[n] = k
		files := types.Implements(T, F.Underlying().(*types.Interface))
		virt := types.Implements(T, V.Underlying().(*types.Interface))
		c.check("contributes", n, T.Obj().Pos(), files == !virtualKind[k], "a declaration of kind %s: has files is %v", k, files)
		c.check("contributes", n, T.Obj().Pos(), virt == virtualKind[k], "a declaration of kind %s: makes paths is %v", k, virt)
		c.accessors(n, virt)
	}
	fn, vs, unsearched := c.visits()
	if fn == nil {
		return
	}
	k := fnName(fn)
	for _, o := range unsearched {
		f := o.St.facts
		if len(o.Ret) != 2 || f.notNil(o.Ret[1]) {
			continue
		}
		// found before, or there is nothing to search
		r := o.Ret[0]
		ok := (r.Op == "deref" || r.Op == "field") && rootParam(r) == c.P.paramTerm(fn, 0) && (f.notNil(r) || ranBefore(o.St.ev))
		ok = ok || f.isNil((&nodeView{c, newEng(c.P), o.St, nil}).get(c.P.paramTerm(fn, 0), "Ast"))
		c.check("whole file", k, o.where(fn), ok, "%s: the file is not searched", cond(f))
		// with what went wrong then, or it is known that nothing did
		self := c.P.paramTerm(fn, 0)
		if !ok || rootParam(r) != self || rootParam(o.Ret[1]) == self || ranBefore(o.St.ev) {
			continue
		}
		known := false
		for _, a := range f.ord {
			if a.Op != "eq" || !decided(f, a, true) {
				continue
			}
			for _, x := range a.A {
				known = known || x.T != nil && isErr(x.T) && rootParam(x) == self
			}
		}
		if !known {
			// a search that fails leaves nothing
			known = true
			for _, v := range vs {
				e := v.o.Ret[1]
				if v.o.Panic == nil && !v.o.St.facts.isNil(e) {
					now := (&nodeView{c, newEng(c.P), v.o.St, nil}).get(self, attrOf(r))
					known = known && (now == tNil || now == r || v.o.St.facts.isNil(now))
				}
			}
		}
		c.check("whole file", k, o.where(fn), known, "%s: what an earlier search found is returned though it may have failed", cond(f))
	}
	found := map[string]int{}
	for _, v := range vs {
		w := v.view
		p := c.P.paramTerm(fn, 0)
		ast := w.get(p, "Ast")
		if c.check("whole file", k, v.cb.pos(), len(v.cb.Args) > 0 && ast != nil, "the search is not understood") {
			hit := false
			for _, a := range v.cb.Args {
				hit = hit || stripIface(a) == ast
			}
			c.check("whole file", k, v.cb.pos(), hit, "it is not the whole file that is searched: %v", v.cb.Args)
		}
		N := w.node
		ce := w.as(N, "CallExpr")
		fun := w.get(ce, "Fun")
		sel := w.as(fun, "SelectorExpr")
		x := w.get(sel, "X")
		id := w.as(x, "Ident")
		pkg := w.get(id, "Name")
		selName := w.get(w.get(sel, "Sel"), "Name")
		args := w.get(ce, "Args")
		a0 := tIndex(args, tInt(0), elemType(args.T))
		call := []literal{{w.is(N, "CallExpr"), true}, {w.is(fun, "SelectorExpr"), true}, {w.is(x, "Ident"), true}, {tEq(pkg, tStr("pkger")), true}}
		some := literal{tLt(tLen(args), tInt(1)), false}
		var decls *Term
		for _, tr := range v.cb.Sub.Traces {
			f := tr.St.facts
			added := addedDecls(tr.Ev)
			failedBefore, failing, stop := c.searchState(v.cb, tr)
			if len(added) > 0 {
				if !c.check("one", k, added[0].pos(), len(added) == 1, "a call yields %d declarations", len(added)) {
					continue
				}
				ev := added[0]
				decls = ev.Args[0]
				for _, l := range append(append([]literal{}, call...), some) {
					c.check("only those", k, ev.pos(), l.holds(f), "%s: a declaration is made although it is not known that %s is %v", cond(f), l.t, l.v)
				}
				kind := ""
				for _, n := range declKinds {
					if same(f, selName, tStr(n)) {
						kind = n
					}
				}
				if !c.check("only those", k, ev.pos(), kind != "", "%s: a declaration is made for a function that is not one of the seven", cond(f)) {
					continue
				}
				old, el := appended(ev.Args[2])
				ok := same(f, ev.Args[1], tStr(kind)) && len(el) == 1 && old != nil && old.Op == "lookup" && old.A[0] == ev.Args[0] && same(f, old.A[1], ev.Args[1])
				if !c.check("kept", k+": "+kind, ev.pos(), ok, "the declaration is not added to those of its kind: %s gets %s", ev.Args[1], ev.Args[2]) {
					continue
				}
				T, parts := c.declParts(tr.St, el[0])
				n, isN := T.(*types.Named)
				if !c.check("kind of call", k+": "+kind, ev.pos(), isN && kinds[n.Obj().Name()] == kind, "pkger.%s yields a %v", kind, T) {
					continue
				}
				found[kind]++
				val := parts["value"]
				text := (*Term)(nil)
				if val != nil && val.Op == "ext" && val.A[0].isApp("strconv.Unquote") {
					text = val.A[0].A[0]
				}
				if !c.check("value", k+": "+kind, ev.pos(), text != nil, "the value is %v, not what a literal says", val) {
					continue
				}
				why := c.literalOf(tr, w, a0, text, 0)
				c.check("value", k+": "+kind, ev.pos(), why == "", "the value is %s: %s", val, why)
				e := tExt(val.A[0], 1, nil)
				c.check("value", k+": "+kind, ev.pos(), c.unquoted(f, val.A[0]), "a value is used although it may not be a literal: %s", e)
				if F := c.P.typ("parser", "File"); parts["file"] != nil && parts["file"].Op == "alloc" && F != nil {
					pt := part(newEng(c.P).load(tr.St, parts["file"], F), F, "Path")
					ok := pt != nil && pt.Op == "ext" && pt.A[0].isApp("(gohere.Info).Parse") && pt.A[0].A[1] == val
					c.check("file of call", k+": "+kind, ev.pos(), ok && c.infoOfSource(tr, pt.A[0].A[0], w.get(p, "Source")), "the file declared has the path %v, not what the value says in the package of the source", pt)
				} else {
					c.fail("file of call", k+": "+kind, ev.pos(), "the declaration has no file")
				}
				pos := parts["pos"]
				c.check("position", k+": "+kind, ev.pos(), pos != nil && pos.contains(N), "the position is %v, not one of the call", pos)
				c.check("goes on", k, ev.pos(), !stop, "the search stops after a declaration")
				continue
			}
			if stop {
				c.check("goes on", k, v.cb.pos(), failedBefore || failing, "%s: the search does not go below a node, though there was no error", cond(f))
			}
			if failedBefore {
				continue
			}
			for _, n := range declKinds {
				// the parser puts no nil among the arguments
				ls := append(append([]literal{}, call...), literal{tEq(selName, tStr(n)), true}, literal{tEq(a0, tNil), false})
				if !possible(f, append(ls, some)...) {
					// too few arguments are an error
					continue
				}
				if failing {
					c.check("error", k+": "+n, v.cb.pos(), c.searchFailed(tr), "%s: a call is an error without a reason", cond(f))
					continue
				}
				// nothing is declared: the argument must not be a constant
				lit, _ := f.decide(w.is(a0, "BasicLit"))
				text := c.textTried(f)
				if text == nil {
					// no attempt was made: allowed only if it is neither
					for _, t := range []string{"BasicLit", "Ident"} {
						c.check("found", k+": "+n, v.cb.pos(), !possible(f, append(ls, some, literal{w.is(a0, t), true})...), "%s: a call of pkger.%s with a %s yields nothing", cond(f), n, t)
					}
					continue
				}
				_ = lit
				why := c.literalOf(tr, w, a0, text, 0)
				c.check("found", k+": "+n, v.cb.pos(), why == "", "%s: a call of pkger.%s yields nothing: %s", cond(f), n, why)
			}
		}
		// an error that stopped the search is returned
		for s := range v.cb.Sub.Init {
			if s.T == nil || !isErr(s.T) || len(v.o.Ret) != 2 {
				continue
			}
			f, r := v.o.St.facts, v.o.Ret[1]
			c.check("error", k, v.o.where(fn), same(f, r, s) || f.isNil(s) || f.notNil(r), "%s: the error of the search is dropped, %s is returned", cond(f), r)
		}
		// what was found is what is returned
		if decls != nil {
			c.check("kept", k, v.o.where(fn), len(v.o.Ret) == 2 && v.o.Ret[0] == decls, "the declarations found are not returned but %v", v.o.Ret[0])
		}
	}
	for _, n := range declKinds {
		c.atLeast("paths that declare a "+n, found[n], 1)
	}
	c.onceKept(func(path string) bool { return path == modPath+"/parser" }, nil)
}

// infoOfSource: the info of the directory the source is in
func (c *Ctx) infoOfSource(tr *Trace, info, src *Term) bool {
	if info == part(src, nil, "Here") {
		return true
	}
	ev := eventOf(tr.St.ev, info)
	if ev == nil || ev.Name != "here.Dir" || len(ev.Args) != 1 {
		return false
	}
	abs := part(src, nil, "Abs")
	x, ok := (env{abs: "/d/m/a/x.go"}).eval(ev.Args[0])
	return ok && x == "/d/m/a"
}

// searchState: was there an error before, is there one now, does the search
// go below the node
func (c *Ctx) searchState(cb *Event, tr *Trace) (before, now, stop bool) {
	f := tr.St.facts
	for s, back := range tr.Back {
		if s.T != nil && isErr(s.T) {
			if f.notNil(s) {
				before = true
			} else if f.notNil(back) {
				now = true
			}
		}
	}
	if len(tr.Ret) == 1 {
		r := tr.Ret[0]
		stop = r == tNil || r == tFalse || f.isNil(r) && r.Op != "closure"
		if v, ok := f.decide(r); ok && cb.Name == "go/ast.Inspect" {
			stop = !v
		}
	}
	return
}

// searchFailed: the error has a reason other than an argument that is not
// a literal
func (c *Ctx) searchFailed(tr *Trace) bool {
	f := tr.St.facts
	for _, t := range f.ord {
		if t.Op == "eq" && !f.m[t] && (t.A[0] == tNil || t.A[1] == tNil) {
			x := t.A[0]
			if x == tNil {
				x = t.A[1]
			}
			if x.T != nil && isErr(x.T) && !x.any(func(y *Term) bool { return y.isApp("strconv.Unquote") && x.Op == "ext" && x.A[0] == y }) {
				return true
			}
		}
	}
	return false
}

// unquoted: the literal was one
func (c *Ctx) unquoted(f *Facts, u *Term) bool {
	for _, t := range f.ord {
		if t.Op == "eq" && f.m[t] {
			for i, x := range t.A {
				if t.A[1-i] == tNil && x.Op == "ext" && x.A[0] == u {
					return true
				}
			}
		}
	}
	return false
}

// textTried: the text that turned out not to be a literal
func (c *Ctx) textTried(f *Facts) *Term {
	for _, t := range f.ord {
		if t.Op == "eq" && !f.m[t] {
			for i, x := range t.A {
				if t.A[1-i] == tNil && x.Op == "ext" && x.A[0].isApp("strconv.Unquote") {
					return x.A[0].A[0]
				}
			}
		}
	}
	return nil
}

// literalOf: the text is that of the literal the node stands for, or none
// where it does not stand for one. The reason why not.
func (c *Ctx) literalOf(tr *Trace, w *nodeView, n, text *Term, depth int) string {
	f := tr.St.facts
	if depth > 4 {
		return "not understood"
	}
	for _, ev := range tr.St.ev {
		// what the same search finds for a part
		if ev.Kind == "rec" && ev.Res == text && len(ev.Args) > 0 && ev.Args[len(ev.Args)-1] == n {
			return ""
		}
	}
	is := func(typ string) (bool, bool) { return f.decide(w.is(n, typ)) }
	if v, ok := is("BasicLit"); ok && v {
		if text == w.get(w.as(n, "BasicLit"), "Value") {
			return ""
		}
		return "for a literal the text is " + text.String()
	} else if !ok {
		if possible(f, literal{w.is(n, "BasicLit"), true}) {
			return "it is not known whether the argument is a literal"
		}
	}
	v, ok := is("Ident")
	if !ok && possible(f, literal{w.is(n, "Ident"), true}) {
		return "it is not known whether the argument is a constant"
	}
	name := w.get(w.as(n, "Ident"), "Name")
	none := text == name || text.isZero() || text == tStr("")
	if !v || !ok {
		if text.isZero() || text == tStr("") {
			return ""
		}
		return "for something that is neither a literal nor a constant the text is " + text.String()
	}
	id := w.as(n, "Ident")
	obj := w.get(id, "Obj")
	con := tEq(w.get(obj, "Kind"), tInt(2))
	decl := w.get(obj, "Decl")
	isSpec := w.is(decl, "ValueSpec")
	spec := w.as(decl, "ValueSpec")
	names, values := w.get(spec, "Names"), w.get(spec, "Values")
	if none {
		if !possible(f, literal{tEq(obj, tNil), false}, literal{con, true}, literal{isSpec, true}, literal{tEq(spec, tNil), false}) {
			return ""
		}
		// the names of the declaration were searched to the end
		for _, ev := range tr.St.ev {
			for _, s := range spansOf(ev) {
				if s.list != names && s.list != values || !s.finished(f) {
					continue
				}
				ok := true
				for _, t := range ev.Sub.Traces {
					i := s.elem.A[1]
					g := t.St.facts
					n := tIndex(names, i, elemType(names.T))
					ok = ok && !possible(g, literal{tLt(i, tLen(names)), true}, literal{tEq(name, w.get(n, "Name")), true}, literal{tLt(i, tLen(values)), true})
				}
				if ok {
					return ""
				}
				return "a constant may be passed over"
			}
		}
		return "a constant is not looked up"
	}
	// the value at the place of the name
	for _, l := range []literal{{con, true}, {isSpec, true}} {
		if !l.holds(f) {
			return "it is not known that the identifier is a constant"
		}
	}
	var at []*Term
	look := func(t *Term) {
		t.any(func(x *Term) bool {
			if x.Op == "index" && x.A[0] == values {
				at = append(at, x)
			}
			return false
		})
	}
	look(text)
	for _, ev := range tr.St.ev {
		if ev.Kind == "rec" && ev.Res == text {
			look(ev.Args[len(ev.Args)-1])
		}
	}
	for _, x := range at {
		nm := tIndex(names, x.A[1], elemType(names.T))
		if !same(f, name, w.get(nm, "Name")) {
			continue
		}
		return c.literalOf(tr, w, x, text, depth+1)
	}
	return "the text " + text.String() + " is not that of the constant's value"
}

// accessors: each gives its part of the declaration
func (c *Ctx) accessors(typ string, virt bool) {
	for _, m := range []struct{ name, part string }{{"File", "file"}, {"Position", "pos"}, {"Value", "value"}} {
		fn := c.P.method("parser", typ, m.name)
		if fn == nil || len(fn.Blocks) == 0 {
			c.fail("accessor", typ+"."+m.name, token.NoPos, "method not found")
			continue
		}
		d := c.P.paramTerm(fn, 0)
		_, parts := c.declParts(newState(), d)
		n := 0
		for _, o := range c.run(fn) {
			k := fnName(fn)
			if o.Panic != nil || len(o.Ret) != 2 {
				c.fail("accessor", k, o.where(fn), "a path does not return")
				continue
			}
			want := parts[m.part]
			f := o.St.facts
			if f.notNil(o.Ret[1]) {
				none := want != nil && (f.isNil(want) || same(f, want, tStr("")))
				if want != nil && !none {
					v, ok := f.decide(tLt(tLen(want), tInt(1)))
					none = ok && v
				}
				c.check("accessor", k, o.where(fn), none, "%s: it fails although there is one", cond(f))
				continue
			}
			n++
			c.check("accessor", k, o.where(fn), o.Ret[0] == want && want != nil, "it returns %s", o.Ret[0])
		}
		c.atLeast("results of "+typ+"."+m.name, n, 1)
	}
	if !virt {
		return
	}
	fn := c.P.method("parser", typ, "VirtualPaths")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	_, parts := c.declParts(newState(), c.P.paramTerm(fn, 0))
	for _, o := range c.run(fn) {
		ok := o.Panic == nil && len(o.Ret) == 1
		if ok {
			l := o.Ret[0]
			el := l.A
			if l.Op == "append" {
				_, el = appended(l)
			}
			hit := false
			for _, x := range el {
				hit = hit || x == parts["value"]
			}
			ok = hit
		}
		c.check("virtual paths", fnName(fn), o.where(fn), ok, "the path that is made is not among %v", o.Ret)
	}
}

// reported: all that was found is in the list, paths that are made first
func isParsed(T types.Type) bool {
	return T != nil && isNamed(deref(T), modPath+"/parser", "ParsedSource")
}

// unlessEmpty: nothing is returned for a list that has nothing in it
func unlessEmpty(o *Outcome, r *Term) *Term {
	if !nothingIn(r) {
		return r
	}
	for i := len(o.St.ev) - 1; i >= 0; i-- {
		ev := o.St.ev[i]
		if ev.Kind != "loop" || ev.Sub == nil {
			continue
		}
		for S := range ev.Sub.Init {
			if S.T != nil && r.T != nil && types.Identical(S.T, r.T) || S.T != nil && isSlice(S.T) {
				if decided(o.St.facts, tLt(tInt(0), tLen(S)), false) || decided(o.St.facts, tEq(tInt(0), tLen(S)), true) {
					return S
				}
			}
		}
	}
	return r
}

func isSlice(T types.Type) bool {
	_, ok := T.Underlying().(*types.Slice)
	return ok
}

// nothingIn: a list with nothing in it
func nothingIn(t *Term) bool {
	if t == nil {
		return false
	}
	if t.Op == "mkslice" {
		n, ok := t.A[0].intVal()
		return ok && n == 0
	}
	return t == tNil || t.isZero() || t.Op == "list" && len(t.A) == 0
}

func (c *Ctx) reported() {
	fn, outs := c.parsing()
	if fn == nil {
		return
	}
	k := fnName(fn)
	good := 0
	inc := c.P.paramTerm(fn, 1)
	for _, o := range outs {
		if o.Panic != nil || len(o.Ret) != 2 || o.St.facts.notNil(o.Ret[1]) {
			continue
		}
		good++
		// the map that declarations are collected in
		var decls *Term
		every(o.St.ev, func(ev *Event, _ *Trace) {
			for _, a := range addedDecls([]*Event{ev}) {
				decls = a.Args[0]
			}
		})
		if !c.check("reported", k, o.where(fn), decls != nil, "%s: nothing is collected", cond(o.St.facts)) {
			continue
		}
		pos := map[string]int{}
		n := 0
		bad := ""
		var flat func(t *Term)
		flat = func(t *Term) {
			if old, list := spliced(o.St.ev, o.St.facts, t); list != nil {
				flat(old)
				flat(list)
				return
			}
			switch {
			case t == tNil || t.isZero() || t.Op == "list" && len(t.A) == 0 || t.Op == "mkslice":
			case t.Op == "append":
				for _, a := range t.A {
					flat(a)
				}
			case t.Op == "spread":
				flat(t.A[0])
			case t.Op == "lookup" && t.A[0] == decls:
				s, ok := t.A[1].strVal()
				if !ok || t.S != fmt.Sprint(o.St.mapver[decls]) {
					bad = t.String()
					return
				}
				if _, dup := pos[s]; dup {
					bad = "the " + s + " declarations twice"
				}
				n++
				pos[s] = n
			default:
				bad = t.String()
			}
		}
		flat(unlessEmpty(o, o.Ret[0]))
		c.check("reported", k, o.where(fn), bad == "", "what is reported has %s in it", bad)
		for _, kind := range declKinds {
			p, ok := pos[kind]
			if !ok && noneOf(o.St, decls, tStr(kind)) {
				continue
			}
			c.check("reported", k+": "+kind, o.where(fn), ok, "declarations of kind %s are not reported", kind)
			if ok && !virtualKind[kind] {
				for v := range virtualKind {
					c.check("made first", k+": "+kind, o.where(fn), pos[v] < p, "declarations of kind %s come before those of kind %s", kind, v)
				}
			}
		}
		// what is found in a source is added to what was found before
		n = 0
		for _, cb := range walkCallback(o.St.ev) {
			for _, tr := range cb.Sub.Traces {
				for _, ev := range tr.Ev {
					if s := spanOf(ev); s != nil && s.elem != nil && isParsed(s.elem.T) {
						n++
						c.keeps(k, s)
					}
				}
			}
		}
		c.atLeast("loops over sources", n, 1)
		// what the caller wants included
		var over *span
		for _, ev := range o.St.ev {
			if s := spanOf(ev); s != nil && s.list == inc {
				over = s
			}
		}
		if !c.check("included", k, o.where(fn), over != nil && over.finished(o.St.facts), "not all the includes are declared") {
			continue
		}
		isInc := func(tr *Trace, el *Term) bool {
			T, parts := c.declParts(tr.St, el)
			nt, isN := T.(*types.Named)
			kind := ""
			if isN {
				kind, _ = c.kindOf(nt.Obj().Name())
			}
			if kind != "Include" || parts["value"] != over.elem || parts["file"] == nil || parts["file"].Op != "alloc" {
				return false
			}
			F := c.P.typ("parser", "File")
			pt := part(newEng(c.P).load(tr.St, parts["file"], F), F, "Path")
			return pt != nil && pt.Op == "ext" && pt.A[0].isApp("(gohere.Info).Parse") && pt.A[0].A[1] == over.elem
		}
		var list *Term // collected first
		for _, tr := range over.ev.Sub.Traces {
			ok := false
			switch added := addedDecls(tr.Ev); len(added) {
			case 1:
				a := added[0]
				s, isS := a.Args[1].strVal()
				old, el := appended(a.Args[2])
				ok = isS && s == "Include" && a.Args[0] == decls && len(el) == 1 && old.Op == "lookup" && old.A[0] == decls && old.A[1] == a.Args[1] && isInc(tr, el[0])
			case 0:
				for S, b := range tr.Back {
					old, el := appended(b)
					if old == S && len(el) == 1 && isInc(tr, el[0]) && nothingIn(over.ev.Sub.Init[S]) && (list == nil || list == S) {
						list, ok = S, true
					}
				}
			}
			c.check("included", k, over.ev.pos(), ok, "%s: an include is not declared as it is given", cond(tr.St.facts))
		}
		if list == nil {
			continue
		}
		ok, before := decided(o.St.facts, tLt(tInt(0), tLen(list)), false), 0
		every(o.St.ev, func(ev *Event, tr *Trace) {
			if len(addedDecls([]*Event{ev})) == 0 {
				return
			}
			s, isS := ev.Args[1].strVal()
			old, el := appended(ev.Args[2])
			switch {
			case tr != nil || !isS || s != "Include" || ev.Args[0] != decls:
			case ev.Args[2] == list && before == 0:
				ok = true
			case len(el) == 1 && el[0].Op == "spread" && el[0].A[0] == list && (old.Op == "lookup" && old.A[0] == decls && old.A[1] == ev.Args[1] || nothingIn(old) && before == 0):
				ok = true
			}
			before++
		})
		c.check("included", k, over.ev.pos(), ok, "%s: the includes are not declared", cond(o.St.facts))
	}
	c.atLeast("paths that report declarations", good, 1)
}

func init() {
	register("C22", "on every path of the visitor of a source file, a call of one of the seven functions of pkger with a literal or a constant yields one declaration of its kind and value, and nothing else does; all found are reported, and their files listed", c22,
		"go/ast.Walk and Inspect visit every node below one whose visit asks for that",
		"strconv.Unquote succeeds for the text of every string literal and fails for an identifier and for the empty text")
}

// noneOf: the map of lists has nothing for the key
func noneOf(st *State, m, k *Term) bool {
	ver := fmt.Sprint(st.mapver[m])
	for _, t := range st.facts.ord {
		switch v := st.facts.m[t]; t.Op {
		case "has":
			if !v && t.S == ver && t.A[0] == m && t.A[1] == k {
				return true
			}
		case "eq", "lt":
			for _, x := range t.A {
				if x = stripLen(x); x.Op == "lookup" && x.S == ver && x.A[0] == m && x.A[1] == k {
					if decided(st.facts, tLt(tInt(0), tLen(x)), false) || st.facts.isNil(x) {
						return true
					}
				}
			}
		}
	}
	return false
}

func stripLen(t *Term) *Term {
	if t.Op == "len" {
		return t.A[0]
	}
	return t
}

// ranBefore: what is done once was done in an earlier call
func ranBefore(evs []*Event) bool {
	n := 0
	for _, ev := range evs {
		switch {
		case ev.Kind == "once":
			n--
		case ev.Name == "(*sync.Once).Do" && ev.Kind != "callback":
			n++
		}
	}
	return n > 0
}
