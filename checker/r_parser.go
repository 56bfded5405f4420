package main

import (
	"go/token"
	"go/types"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the parser package: C22, C31, C32 ----

const astPkg = "go/ast"

// opaqueAlso: the usual contracts, and these functions too
func (c *Ctx) opaqueAlso(root string, names ...string) func(f *ssa.Function) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(f *ssa.Function) bool {
		if m[fnName(f)] {
			return true
		}
		return fnPkg(f) != pkgPath(root) && c.P.isContract(f)
	}
}

// nodeType finds a type of go/ast.
func (c *Ctx) nodeType(name string) types.Type {
	for _, p := range c.P.prog.AllPackages() {
		if p.Pkg != nil && p.Pkg.Path() == astPkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return types.NewPointer(o.Type())
			}
		}
	}
	return nil
}

// the parts of the node that a visitor looks at
type nodeView struct {
	c    *Ctx
	e    *Eng
	st   *State
	node *Term
}

func (v *nodeView) is(x *Term, typ string) *Term {
	return mk("istype", "", v.c.nodeType(typ), nil, x)
}

func (v *nodeView) as(x *Term, typ string) *Term {
	return mk("assert", "", v.c.nodeType(typ), nil, x)
}

func (v *nodeView) get(p *Term, name string) *Term {
	st, ok := deref(p.T).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return v.e.load(v.st, tFaddr(p, p.T, i), st.Field(i).Type())
		}
	}
	return nil
}

type literal struct {
	t *Term
	v bool
}

func (l literal) holds(f *Facts) bool {
	v, ok := f.decide(l.t)
	return ok && v == l.v
}

// possible: the facts allow the literals
func possible(f *Facts, ls ...literal) bool {
	g := f.clone()
	for _, l := range ls {
		if v, ok := g.decide(l.t); ok {
			if v != l.v {
				return false
			}
			continue
		}
		if !g.assume(l.t, l.v) {
			return false
		}
	}
	for _, l := range ls {
		if v, ok := g.decide(l.t); ok && v != l.v {
			return false
		}
	}
	// what was known must still hold
	for _, t := range f.ord {
		if v, ok := g.decide(t); ok && v != f.m[t] {
			return false
		}
	}
	return true
}

var declKinds = []string{"MkdirAll", "Create", "Include", "Stat", "Open", "Dir", "Walk"}
var virtualKind = map[string]bool{"MkdirAll": true, "Create": true}

// addedDecls: declarations that the events add to a map of them
func addedDecls(evs []*Event) (out []*Event) {
	for _, ev := range evs {
		if ev.Kind == "mapupdate" && len(ev.Args) == 3 && isDeclMap(ev.Args[0].T) {
			out = append(out, ev)
		}
	}
	return
}

func isDeclMap(T types.Type) bool {
	if T == nil {
		return false
	}
	m, ok := T.Underlying().(*types.Map)
	return ok && isNamed(m.Elem(), modPath+"/parser", "Decls")
}

// appended: t is the old list and these elements
func appended(t *Term) (old *Term, elems []*Term) {
	if t.Op == "append" && len(t.A) > 0 {
		return t.A[0], t.A[1:]
	}
	return nil, nil
}

// spliced: t is the old list and, by a loop over them, all the elements of list
func spliced(evs []*Event, f *Facts, t *Term) (old, list *Term) {
	if t.Op != "sym" {
		return nil, nil
	}
	for _, ev := range evs {
		if ev.Kind != "loop" || ev.Sub == nil || ev.Sub.Init[t] == nil {
			continue
		}
		s := spanOf(ev)
		if s == nil || !s.finished(f) {
			continue
		}
		all := len(ev.Sub.Traces) > 0
		for _, tr := range ev.Sub.Traces {
			o, el := appended(tr.Back[t])
			all = all && o == t && len(el) == 1 && el[0] == s.elem
		}
		if all {
			return ev.Sub.Init[t], s.list
		}
	}
	return nil, nil
}

// gathered: the index of the loop that puts together the list t, from nothing,
// adding to it once for each of what it goes over; is says what is added
func gathered(evs []*Event, f *Facts, t *Term, is func(s *span, el *Term) bool) int {
	if t.Op != "sym" {
		return -1
	}
	for i, ev := range evs {
		if ev.Kind != "loop" || ev.Sub == nil || ev.Sub.Init[t] == nil || !emptyList(ev.Sub.Init[t]) {
			continue
		}
		s := spanOf(ev)
		if s == nil || !s.finished(f) {
			continue
		}
		all := len(ev.Sub.Traces) > 0
		for _, tr := range ev.Sub.Traces {
			o, el := appended(tr.Back[t])
			all = all && o == t && len(el) == 1 && is(s, el[0])
		}
		if all {
			return i
		}
	}
	return -1
}

// valuesOf: the list has each value of the map once; the index of the loop
// that makes it so, or -1
func valuesOf(evs []*Event, f *Facts, list, m *Term) int {
	return gathered(evs, f, list, func(s *span, el *Term) bool {
		if s.list == m {
			return elemOf(el, s)
		}
		// by a list of the keys
		return el.Op == "lookup" && el.A[0] == m && el.A[1] == s.elem &&
			gathered(evs, f, s.list, func(s *span, el *Term) bool { return s.list == m && el == s.elem }) >= 0
	})
}

// kinds: the type of declaration made for each name, by its encoded form
type declType struct {
	named *types.Named
	ptr   bool
}

// declStruct: the fields of a declaration value
func (c *Ctx) declParts(st *State, d *Term) (T types.Type, fields map[string]*Term) {
	d = stripIface(d)
	fields = map[string]*Term{}
	e := newEng(c.P)
	if d.T != nil {
		if p, ok := d.T.Underlying().(*types.Pointer); ok && d.Op == "alloc" {
			d = e.load(st, d, p.Elem())
		}
	}
	if d.T == nil {
		return nil, nil
	}
	s, ok := d.T.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := tField(d, d.T, i)
		switch T := s.Field(i).Type(); {
		case isNamed(deref(T), modPath+"/parser", "File"):
			fields["file"] = f
		case isNamed(T, "go/token", "Position"):
			fields["pos"] = f
		case isStringT(T):
			fields["value"] = f
		}
	}
	return d.T, fields
}

// ---- C31: place, path and package of a file ----

// agree checks the parts of a file: place on disk, path, info.
func (c *Ctx) agree(k string, pos token.Pos, st *State, f *Facts, file *Term) {
	F := c.P.typ("parser", "File")
	if F == nil {
		c.fail("anchor", "parser.File", token.NoPos, "type not found")
		return
	}
	e := newEng(c.P)
	if file.Op != "alloc" {
		c.fail("file", k, pos, "the file is %s, which is not understood", file)
		return
	}
	v := e.load(st, file, F)
	abs, pt, her := part(v, F, "Abs"), part(v, F, "Path"), part(v, F, "Here")
	if abs == nil || pt == nil || her == nil {
		c.fail("anchor", "parser.File", token.NoPos, "fields not found")
		return
	}
	dir := part(part(her, her.T, "Module"), nil, "Dir")
	mod := part(part(her, her.T, "Module"), nil, "Path")
	imp := part(her, her.T, "ImportPath")
	name, pkg := part(pt, pt.T, "Name"), part(pt, pt.T, "Pkg")
	for _, w := range [][2]string{{"/d/m", "/a/f.txt"}, {"/d/m", "/"}, {"/d/m", "/x"}} {
		x, ok := (env{dir: w[0], name: w[1]}).eval(abs)
		s, _ := x.(string)
		c.check("place", k, pos, ok && s == path.Join(w[0], w[1]), "the file %s of the module in %s is placed at %v: the place is %s", w[1], w[0], x, abs)
	}
	ok := same(f, pkg, mod) || same(f, pkg, imp)
	if !ok {
		for _, ev := range st.ev {
			if ev.Name == "here.Package" && len(ev.args()) == 1 && len(ev.results()) == 2 && same(f, ev.args()[0], pkg) && ev.results()[0] == her {
				ok = f.isNil(ev.errResult())
			}
		}
	}
	c.check("package", k, pos, ok, "the info %s is not known to be that of the package %s", her, pkg)
}

func part(t *Term, T types.Type, name string) *Term {
	if t == nil {
		return nil
	}
	if T == nil {
		T = t.T
	}
	if T == nil {
		return nil
	}
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return tField(t, T, i)
		}
	}
	return nil
}

func strip2(s string) string { return strings.TrimPrefix(s, modPath+"/") }

// ---- the world that a walk is looked at in ----

// a tree with a module in another one
var worldDirs = map[string]bool{"/d/m": true, "/d/m/a": true, "/d/m/a/b": true, "/d/m/n": true, "/d/m/n/c": true, "/d/m/d": true, "/d/m/d/m": true, "/d/m/dm": true}
var worldFiles = map[string]bool{"/d/m/f": true, "/d/m/a/f": true, "/d/m/a/b/f": true, "/d/m/n/f": true, "/d/m/n/c/f": true, "/d/m/d/m/f": true, "/d/m/m": true}

func worldModule(p string) (dir, mod string) {
	if p == "/d/m/n" || strings.HasPrefix(p, "/d/m/n/") {
		return "/d/m/n", "ex.com/n"
	}
	return "/d/m", "ex.com/m"
}

// worldHook gives the infos of directories of the world.
func worldHook(evs []*Event, virtual map[string]bool, declared string, isDir map[string]bool) hookFn {
	return func(v env, t *Term) (interface{}, bool) {
		switch t.Op {
		case "has":
			x, ok := v.eval(t.A[1])
			if s, isS := x.(string); ok && isS && t.A[0].T != nil {
				if m, isM := t.A[0].T.Underlying().(*types.Map); isM && isStringT(m.Key()) {
					return virtual[s], true
				}
			}
			return nil, false
		case "res", "sym", "ext":
			if ev := eventOf(evs, t); ev != nil && ev.Name == "here.Dir" && len(ev.Args) == 1 && t == ev.errResult() {
				x, ok := v.eval(ev.Args[0])
				s, isS := x.(string)
				if !ok || !isS {
					return nil, false
				}
				if isDir[s] {
					return vNil{}, true
				}
				return vErr("not a directory"), true
			}
			return nil, false
		case "field":
		default:
			return nil, false
		}
		x := t
		for x.Op == "field" {
			x = x.A[0]
		}
		at := "/d/m"
		if ev := eventOf(evs, x); ev != nil && isInfo(x.T) {
			if ev.Name != "here.Dir" || len(ev.Args) != 1 {
				return nil, false
			}
			y, ok := v.eval(ev.Args[0])
			s, isS := y.(string)
			if !ok || !isS || !isDir[s] {
				return nil, false
			}
			at = s
		} else if x.Op != "param" && x.Op != "deref" {
			return nil, false
		}
		dir, mod := worldModule(at)
		switch {
		case t.S == "Dir" && isNamed(t.A[0].T, herePkg, "Module"):
			return dir, true
		case t.S == "Path" && isNamed(t.A[0].T, herePkg, "Module"):
			return mod, true
		case t.S == "Dir" && isInfo(t.A[0].T):
			return at, true
		case t.S == "ImportPath" && isInfo(t.A[0].T):
			return mod + strings.TrimPrefix(at, dir), true
		case t.S == "Name" && isPath(t.A[0].T):
			return declared, true
		case t.S == "Pkg" && isPath(t.A[0].T):
			return mod, true
		case t.S == "Abs" && isNamed(t.A[0].T, modPath+"/parser", "File"):
			return path.Join(dir, declared), true
		}
		return nil, false
	}
}

// walkCallback finds the walk over a tree among the events.
func walkCallback(evs []*Event) (out []*Event) {
	for _, ev := range subs(evs) {
		if ev.Kind == "callback" && (ev.Name == "path/filepath.Walk" || ev.Name == "path/filepath.WalkDir") && len(ev.Sub.Args) == 3 {
			out = append(out, ev)
		}
	}
	return
}

// listed checks that a walk lists everything it meets, with the parts in
// agreement, except for what is virtual.
func (c *Ctx) listed(k string, cb *Event, list *Term) {
	F := c.P.typ("parser", "File")
	W, info, er := cb.Sub.Args[0], cb.Sub.Args[1], cb.Sub.Args[2]
	n := 0
	for _, tr := range cb.Sub.Traces {
		if tr.St.facts.notNil(er) {
			n++
			c.check("error", k, cb.pos(), len(tr.Ret) == 1 && tr.St.facts.notNil(tr.Ret[0]) && !isSkip(tr.Ret[0]), "an error of the walk is dropped: %v is returned", tr.Ret)
		}
	}
	c.atLeast("paths of "+k+" for an error of the walk", n, 1)
	var all []string
	for p := range worldDirs {
		all = append(all, p)
	}
	for p := range worldFiles {
		all = append(all, p)
	}
	// and the names the code tells apart
	consts := constantsOf(nil, cb.Sub.Traces...)
	isDir := map[string]bool{}
	for p := range worldDirs {
		isDir[p] = true
	}
	for _, n := range consts.names() {
		for _, d := range []string{"/d/m/", "/d/m/a/", "/d/m/n/"} {
			if !isDir[d+n] {
				e := d + "E/" + n
				all = append(all, d+n, e, e+"/q")
				isDir[d+"E"], isDir[e] = true, true
			}
		}
	}
	sort.Strings(all)
	sizes := consts.kinds()
	for i := 0; i < len(all)*len(sizes); i++ {
		p, size := all[i%len(all)], sizes[i/len(all)]
		for _, virt := range []bool{false, true} {
			mdir, mod := worldModule(p)
			name := "/" + strings.TrimPrefix(strings.TrimPrefix(p, mdir), "/")
			if virt && name == "/" {
				continue
			}
			virtual := map[string]bool{}
			what := p
			if virt {
				virtual[name] = true
				what += ", which the program makes itself"
			}
			var hits []*Trace
			unknown := 0
			var ve env
			for _, tr := range cb.Sub.Traces {
				v := env{W: p, info: vInfo{name: path.Base(p), dir: isDir[p], kind: size}, er: vNil{}, tHook: worldHook(tr.Ev, virtual, "/a", isDir)}
				ok, u := v.holds(tr.St.facts, len(cb.Sub.At.facts.ord))
				if !ok {
					continue
				}
				unknown += u
				hits = append(hits, tr)
				ve = v
			}
			if !c.check("decided", k, cb.pos(), len(hits) == 1 && unknown == 0, "what is done with %s is not understood: %d paths, %d unknown conditions", what, len(hits), unknown) {
				continue
			}
			tr := hits[0]
			back, tracked := tr.Back[list]
			if !tracked {
				back = list
			}
			x, ok := ve.eval(tr.Ret[0])
			if virt {
				c.check("virtual", k, cb.pos(), back == list, "%s: is listed", what)
				if isDir[p] {
					c.check("virtual", k, cb.pos(), ok && (isSkipDir(x) || isNilVal(x)), "%s: %v is returned", what, tr.Ret[0])
				} else {
					c.check("virtual", k, cb.pos(), ok && isNilVal(x), "%s: %v is returned", what, tr.Ret[0])
				}
				continue
			}
			c.check("tree", k, cb.pos(), ok && isNilVal(x), "%s: the walk stops there: %v is returned", what, tr.Ret[0])
			old, el := appended(back)
			if !c.check("tree", k, cb.pos(), old == list && len(el) == 1 && el[0].Op == "alloc", "%s: is not listed", what) {
				continue
			}
			v := newEng(c.P).load(tr.St, el[0], F)
			abs, pt, her := part(v, F, "Abs"), part(v, F, "Path"), part(v, F, "Here")
			if abs == nil || pt == nil || her == nil {
				c.fail("anchor", "parser.File", token.NoPos, "fields not found")
				return
			}
			get := func(t *Term) string {
				if t == nil {
					return "nothing"
				}
				x, ok := ve.eval(t)
				if s, isS := x.(string); ok && isS {
					return s
				}
				return "unknown: " + t.String()
			}
			c.check("place", k, cb.pos(), get(abs) == p, "%s: is listed as at %s", what, get(abs))
			c.check("path", k, cb.pos(), get(part(pt, pt.T, "Name")) == name && get(part(pt, pt.T, "Pkg")) == mod, "%s: is listed as %s:%s, not as %s:%s", what, get(part(pt, pt.T, "Pkg")), get(part(pt, pt.T, "Name")), mod, name)
			m := part(her, her.T, "Module")
			c.check("package", k, cb.pos(), get(part(m, nil, "Dir")) == mdir && get(part(m, nil, "Path")) == mod, "%s: is listed with the info of %s in %s", what, get(part(m, nil, "Path")), get(part(m, nil, "Dir")))
		}
	}
}

func isSkip(t *Term) bool {
	return t.Op == "errconst" && (strings.HasSuffix(t.S, ".SkipDir") || strings.HasSuffix(t.S, ".SkipAll"))
}

// filers: the files of each declaration
func (c *Ctx) filers() {
	n := 0
	for _, T := range c.declTypes() {
		fn := c.P.method("parser", T.Obj().Name(), "Files")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		n++
		c.filesOf(fn)
	}
	c.atLeast("kinds of declaration with files", n, 5)
}

// declTypes: the types that are declarations
func (c *Ctx) declTypes() (out []*types.Named) {
	D := c.P.typ("parser", "Decl")
	if D == nil {
		c.fail("anchor", "parser.Decl", token.NoPos, "type not found")
		return nil
	}
	it := D.Underlying().(*types.Interface)
	for _, x := range c.P.pkgs {
		if x.PkgPath != pkgPath("parser") {
			continue
		}
		s := x.Types.Scope()
		for _, n := range s.Names() {
			tn, ok := s.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nt) || !types.Implements(nt, it) && !types.Implements(types.NewPointer(nt), it) {
				continue
			}
			out = append(out, nt)
		}
	}
	return
}

func (c *Ctx) filesOf(fn *ssa.Function) {
	k := fnName(fn)
	e := newEng(c.P)
	outs := c.runEng(e, fn)
	d, virt := c.P.paramTerm(fn, 0), c.P.paramTerm(fn, 1)
	_, parts := c.declParts(newState(), d)
	if parts == nil || parts["file"] == nil || parts["value"] == nil {
		c.fail("anchor", k, fn.Pos(), "the declaration has no file or no value")
		return
	}
	isVirt := mk("has", "0", types.Typ[types.Bool], nil, virt, parts["value"])
	walks := 0
	for _, o := range outs {
		if o.Panic != nil || len(o.Ret) != 2 {
			c.fail("files", k, o.where(fn), "a path does not return")
			continue
		}
		f := o.St.facts
		list, err := o.Ret[0], o.Ret[1]
		// not required to exist
		if !f.isNil(err) {
			c.check("virtual", k, o.where(fn), !possible(f, literal{isVirt, true}), "a path the program makes itself may fail: %s is returned", err)
		}
		if f.notNil(err) {
			continue
		}
		if v, ok := f.decide(isVirt); ok && v {
			c.check("virtual", k, o.where(fn), list == tNil || list.Op == "list" && len(list.A) == 0, "a path the program makes itself is listed: %s", list)
			continue
		}
		v := env{tHook: worldHook(o.St.ev, nil, "/a/f", worldDirs)}
		root := func(t *Term) bool {
			x, ok := v.eval(t)
			s, isS := x.(string)
			return ok && isS && s == "/d/m/a/f"
		}
		done := false
		for _, cb := range walkCallback(o.St.ev) {
			if list != nil && cb.Sub != nil && cbSym(cb, list) {
				done = true
				walks++
				c.check("root", k, cb.pos(), root(cb.Args[0]), "the walk starts at %s, not at the place of the declared file", cb.Args[0])
				c.check("error", k, cb.pos(), err == cb.Res || f.isNil(cb.Res), "the error of the walk is lost: %s is returned", err)
				c.listed(k, cb, list)
			}
		}
		if done {
			continue
		}
		// a single file
		el := []*Term{}
		if list.Op == "list" {
			el = list.A
		} else if old, x := appended(list); old != nil && (old == tNil || old.isZero() || old.Op == "list" && len(old.A) == 0) {
			el = x
		}
		ok := len(el) == 1 && el[0] == parts["file"]
		c.check("file", k, o.where(fn), ok, "%s: the files are %s, not the declared one", cond(f), list)
		notDir := false
		for _, ev := range o.St.ev {
			if (ev.Name == "os.Stat") && len(ev.results()) == 2 && root(ev.Args[0]) && f.isNil(ev.errResult()) {
				for _, t := range f.ord {
					if t.Op == "app" && (t.S == "(os.FileInfo).IsDir" || t.S == "(os.FileMode).IsDir") && t.contains(ev.results()[0]) && !f.m[t] {
						notDir = true
					}
				}
			}
		}
		c.check("tree", k, o.where(fn), notDir, "%s: only the declared file is listed, though it may be a directory or not exist", cond(f))
	}
	c.atLeast("walks of "+k, walks, 1)
}

// cbSym: the list is what the callback collects
func cbSym(cb *Event, list *Term) bool {
	for s := range cb.Sub.Init {
		if s == list {
			return true
		}
	}
	return false
}

// ---- the list of all files ----

func (c *Ctx) allFiles() {
	fn := c.P.method("parser", "Decls", "Files")
	if fn == nil {
		c.fail("anchor", "Decls.Files", token.NoPos, "method not found")
		return
	}
	k := fnName(fn)
	F := c.P.typ("parser", "File")
	filer, virt := c.P.typ("parser", "Filer"), c.P.typ("parser", "Virtualer")
	if F == nil || filer == nil || virt == nil {
		c.fail("anchor", k, fn.Pos(), "the interfaces of declarations are not found")
		return
	}
	outs := c.run(fn)
	decls := c.P.paramTerm(fn, 0)
	good := 0
	absOf := func(st *State, f *Term) *Term {
		return part(newEng(c.P).load(st, f, F), F, "Abs")
	}
	for _, o := range outs {
		if o.Panic != nil || o.St.facts.notNil(o.Ret[1]) {
			continue
		}
		good++
		// over all declarations
		var over *span
		for _, ev := range o.St.ev {
			if s := spanOf(ev); s != nil && s.list == decls {
				over = s
				break
			}
		}
		if !c.check("all", k, o.where(fn), over != nil && over.finished(o.St.facts), "the files are returned before all declarations were looked at") {
			continue
		}
		var seen *Term  // the map of the files
		var known *Term // the map of virtual paths
		for _, tr := range over.ev.Sub.Traces {
			f := tr.St.facts
			isV := mk("istype", "", virt, nil, over.elem)
			isF := mk("istype", "", filer, nil, over.elem)
			var vp, fl *Event
			var vpAt, flAt int
			for i, ev := range tr.Ev {
				if ev.Kind == "invoke" && strings.HasSuffix(ev.Name, ".VirtualPaths") && stripAssert(ev.Args[0]) == over.elem {
					vp, vpAt = ev, i
				}
				if ev.Kind == "invoke" && strings.HasSuffix(ev.Name, ".Files") && stripAssert(ev.Args[0]) == over.elem {
					fl, flAt = ev, i
				}
			}
			if possible(f, literal{isV, true}) {
				ok := false
				if vp != nil {
					for _, ev := range tr.Ev[vpAt:] {
						if s := spanOf(ev); s != nil && s.list == vp.Res && s.finished(f) {
							ok = true
							for _, t2 := range s.ev.Sub.Traces {
								hit := false
								for _, u := range t2.Ev {
									if u.Kind == "mapupdate" && u.Args[1] == s.elem {
										hit = true
										if known != nil && known != u.Args[0] {
											hit = false
										}
										known = u.Args[0]
									}
								}
								ok = ok && hit
							}
						}
					}
				}
				c.check("virtual paths", k, over.ev.pos(), ok, "%s: the paths a declaration makes are not all remembered", cond(f))
			}
			if !possible(f, literal{isF, true}) {
				continue
			}
			if !c.check("files of each", k, over.ev.pos(), fl != nil, "%s: a declaration is not asked for its files", cond(f)) {
				continue
			}
			c.check("virtual paths", k, fl.pos(), len(fl.Args) == 2 && (known == nil || fl.Args[1] == known), "the declaration is not given the paths that are made, but %s", fl.Args[len(fl.Args)-1])
			if known == nil && len(fl.Args) == 2 {
				known = fl.Args[1]
			}
			if er := fl.errResult(); !c.check("files of each", k, fl.pos(), er != nil && f.isNil(er), "an error of the declaration's files is dropped") {
				continue
			}
			ok := false
			for _, ev := range tr.Ev[flAt:] {
				s := spanOf(ev)
				if s == nil || s.list != fl.results()[0] || !s.finished(f) {
					continue
				}
				ok = true
				for _, t2 := range s.ev.Sub.Traces {
					hit := false
					abs := absOf(t2.St, s.elem)
					for _, u := range t2.Ev {
						if u.Kind == "mapupdate" && u.Args[1] == abs && stripIface(u.Args[2]) == s.elem {
							hit = true
							seen = u.Args[0]
						}
					}
					// or it is listed already
					if !hit {
						for _, a := range t2.St.facts.ord {
							if a.Op == "has" && a.A[1] == abs && t2.St.facts.m[a] {
								hit = true
							}
						}
					}
					ok = ok && hit
				}
			}
			c.check("no duplicates", k, fl.pos(), ok, "the files of a declaration are not all kept once for their place on disk")
		}
		// the list
		list := unlessEmpty(o, o.Ret[0])
		from := false
		var at int
		if seen != nil {
			at = valuesOf(o.St.ev, o.St.facts, list, seen)
			from = at >= 0
		}
		c.check("no duplicates", k, o.where(fn), from, "the list is not that of all the different files found: %s", list)
		if from {
			sorted := false
			for i := at + 1; i+1 < len(o.St.ev); i++ {
				ev := o.St.ev[i]
				if sortCall(ev) != "" && stripIface(ev.Args[0]) == list && o.St.ev[i+1].Kind == "callback" {
					sorted = c.byPath(k, o.St.ev[i+1], list)
				}
			}
			c.check("sorted", k, o.where(fn), sorted, "the list is not sorted by path")
		}
	}
	c.atLeast("paths that list all files", good, 1)
}

func emptyList(t *Term) bool {
	return t != nil && (t == tNil || t.isZero() || tLen(t) == tInt(0) || t.Op == "mkslice" && len(t.A) > 0 && t.A[0] == tInt(0) || t.Op == "slice" && len(t.A) > 2 && t.A[2] == tInt(0))
}

func stripAssert(t *Term) *Term {
	for t != nil && (t.Op == "assert" || t.Op == "iface") && len(t.A) > 0 {
		t = t.A[0]
	}
	return t
}

// byPath: the comparison is that of the paths
func (c *Ctx) byPath(k string, cmp *Event, list *Term) bool {
	n := len(cmp.Sub.Args)
	if n < 2 {
		return false
	}
	i, j := cmp.Sub.Args[n-2], cmp.Sub.Args[n-1]
	pairs := [][2]vp{{{"m", "/a"}, {"m", "/b"}}, {{"a", "/z"}, {"b", "/a"}}, {{"m", "/a"}, {"m", "/a/b"}}}
	try := func(a, b vp) (int, bool) {
		hook := func(v env, t *Term) (interface{}, bool) {
			x := t
			for x.Op == "field" || x.Op == "deref" || x.Op == "faddr" {
				x = x.A[0]
			}
			var p vp
			switch {
			case x == i || x.Op == "index" && x.A[1] == i || x.Op == "iaddr" && x.A[1] == i:
				p = a
			case x == j || x.Op == "index" && x.A[1] == j || x.Op == "iaddr" && x.A[1] == j:
				p = b
			default:
				return nil, false
			}
			if t.Op == "field" && isPath(t.T) {
				return p.val(), true
			}
			if t.Op == "field" && t.S == "Name" && isPath(t.A[0].T) {
				return p.name, true
			}
			if t.Op == "field" && t.S == "Pkg" && isPath(t.A[0].T) {
				return p.pkg, true
			}
			return nil, false
		}
		res, n := 0, 0
		for _, tr := range cmp.Sub.Traces {
			v := env{tHook: hookFn(hook)}
			if ok, u := v.holds(tr.St.facts, len(cmp.Sub.At.facts.ord)); !ok {
				continue
			} else if u > 0 {
				return 0, false
			}
			x, ok := v.eval(tr.Ret[0])
			if !ok {
				return 0, false
			}
			n++
			switch x := x.(type) {
			case bool:
				if x {
					res = -1
				}
			case int64:
				res = int(x)
			default:
				return 0, false
			}
		}
		return res, n == 1
	}
	for _, p := range pairs {
		r1, ok1 := try(p[0], p[1])
		r2, ok2 := try(p[1], p[0])
		if !ok1 || !ok2 || r1 >= 0 || r2 < 0 {
			return false
		}
	}
	return true
}

// visitor runs the search of one source file.
type search struct {
	cb   *Event
	o    *Outcome
	view *nodeView
}

func (c *Ctx) visits() (fn *ssa.Function, out []search, none []*Outcome) {
	fn = c.method("parser", "ParsedSource", "DeclsMap")
	if fn == nil {
		return nil, nil, nil
	}
	e := newEng(c.P)
	for _, o := range c.runEng(e, fn) {
		had := len(out)
		for _, ev := range subs(o.St.ev) {
			if ev.Kind == "callback" && (ev.Name == "go/ast.Walk" || ev.Name == "go/ast.Inspect") && len(ev.Sub.Args) > 0 {
				n := ev.Sub.Args[len(ev.Sub.Args)-1]
				out = append(out, search{ev, o, &nodeView{c, e, ev.Sub.At, n}})
			}
		}
		if len(out) == had && o.Panic == nil {
			none = append(none, o)
		}
	}
	c.atLeast("searches of a source file", len(out), 1)
	return
}

func c31(c *Ctx) {
	fn, vs, _ := c.visits()
	n := 0
	for _, v := range vs {
		for _, tr := range v.cb.Sub.Traces {
			for _, ev := range addedDecls(tr.Ev) {
				_, el := appended(ev.Args[2])
				for _, d := range el {
					_, parts := c.declParts(tr.St, d)
					if parts == nil || parts["file"] == nil {
						c.fail("file", fnName(fn), ev.pos(), "the declaration %s has no file", d)
						continue
					}
					n++
					c.agree(fnName(fn), ev.pos(), tr.St, tr.St.facts, parts["file"])
				}
			}
		}
	}
	c.atLeast("paths that declare a file", n, 7)
	if inc := c.fn("parser", "NewInclude"); inc != nil {
		n = 0
		for _, o := range c.run(inc) {
			if o.Panic != nil || o.St.facts.notNil(o.Ret[1]) {
				continue
			}
			n++
			_, parts := c.declParts(o.St, o.Ret[0])
			if parts == nil || parts["file"] == nil {
				c.fail("file", fnName(inc), o.where(inc), "the declaration has no file")
				continue
			}
			c.agree(fnName(inc), o.where(inc), o.St, o.St.facts, parts["file"])
		}
		c.atLeast("paths that include a file", n, 2)
	}
	c.filers()
	c.allFiles()
}

func init() {
	register("C31", "place on disk, path and package info of every file the parser lists agree, on every path that lists one; the list is one of different files, sorted by path", c31,
		"here.Dir gives the info of the package in a directory, with the innermost module around it")
}
