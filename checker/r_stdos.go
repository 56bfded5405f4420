package main

import (
	"go/token"
	"go/types"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sinkPaths: the arguments of a call that name a place on disk
func sinkPaths(ev *Event) []*Term {
	if ev.Kind != "call" {
		return nil
	}
	n := ev.Name
	switch {
	case strings.HasPrefix(n, "os."), strings.HasPrefix(n, "io/ioutil."), strings.HasPrefix(n, "syscall."):
		switch n {
		case "os.Getenv", "os.LookupEnv", "os.Setenv", "os.Unsetenv", "os.Expand", "os.ExpandEnv", "os.NewSyscallError":
			return nil
		}
	case n == "path/filepath.Walk", n == "path/filepath.WalkDir", n == "path/filepath.Glob", n == "path/filepath.EvalSymlinks":
	default:
		return nil
	}
	if ev.Sig == nil {
		return nil
	}
	var out []*Term
	ps := ev.Sig.Params()
	for i := 0; i < ps.Len() && i < len(ev.Args); i++ {
		if b, ok := ps.At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			out = append(out, ev.Args[i])
		}
	}
	return out
}

func isDirOf(t *Term) bool {
	return t.Op == "field" && t.S == "Dir" && isInfo(t.A[0].T)
}

// rootedClean: an absolute name without parent elements, that stays one
func rootedClean(t *Term) bool {
	if s, ok := t.strVal(); ok {
		return s == "" || path.Clean("/"+s) == s
	}
	switch {
	case t.isApp("path.Clean"), t.isApp("path.Dir"):
		a := t.A[0]
		if rootedClean(a) {
			return true
		}
		if a.Op == "concat" {
			if s, ok := a.A[0].strVal(); ok && strings.HasPrefix(s, "/") {
				return true
			}
			return rootedClean(a.A[0]) && a.A[0].Op != "const"
		}
	case t.isApp("path.Join"):
		if s, ok := t.A[0].strVal(); ok && strings.HasPrefix(s, "/") {
			return true
		}
		if rootedClean(t.A[0]) {
			// still below the root, by lexical cleaning
			return true
		}
	}
	return false
}

// contained: the path is a package's directory or below it
func contained(t *Term, f *Facts) bool {
	if isDirOf(t) {
		return true
	}
	parts := []*Term(nil)
	switch {
	case t.isApp("path.Join"):
		parts = t.A
	case t.isApp("path.Clean"):
		return contained(t.A[0], f)
	case t.Op == "concat":
		parts = t.A
	}
	if len(parts) > 0 && isDirOf(parts[0]) {
		ok := true
		for _, x := range parts[1:] {
			if s, is := x.strVal(); is {
				ok = ok && !strings.Contains(s, "..")
				continue
			}
			ok = ok && rootedClean(x)
		}
		if ok {
			return true
		}
	}
	// guarded: prefix of the directory was tested on a cleaned path
	if t.isApp("path.Join") || t.isApp("path.Clean") {
		for _, a := range f.ord {
			if a.isApp("strings.HasPrefix") && f.m[a] && a.A[0] == t && a.A[1].Op == "concat" && isDirOf(a.A[1].A[0]) {
				if s, ok := a.A[1].A[1].strVal(); ok && strings.HasPrefix(s, "/") {
					return true
				}
			}
		}
		for _, p := range t.A {
			if isDirOf(p) && same(f, t, p) {
				return true
			}
		}
	}
	return false
}

// exportedMethods of a named type, those declared in its own package
func (c *Ctx) exportedMethods(pkg, typ string) []*ssa.Function {
	T := c.P.typ(pkg, typ)
	if T == nil {
		c.fail("anchor", pkg+"."+typ, token.NoPos, "type %s.%s not found", pkg, typ)
		return nil
	}
	var out []*ssa.Function
	ms := c.P.prog.MethodSets.MethodSet(types.NewPointer(T))
	for i := 0; i < ms.Len(); i++ {
		o := ms.At(i).Obj()
		if !o.Exported() || len(ms.At(i).Index()) != 1 {
			continue
		}
		if f := c.P.method(pkg, typ, o.Name()); f != nil && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	return out
}

func c04(c *Ctx) {
	sites := map[[2]string]bool{}
	for _, typ := range []string{"Pkger", "File"} {
		for _, fn := range c.exportedMethods("pkging/stdos", typ) {
			for _, o := range c.run(fn) {
				every(o.St.ev, func(ev *Event, tr *Trace) {
					f := o.St.facts
					if tr != nil {
						f = tr.St.facts
					}
					for _, a := range sinkPaths(ev) {
						sites[[2]string{fnName(fn), ev.Name}] = true
						ok := contained(a, f)
						if !ok && a.Op == "sym" && strings.HasPrefix(a.S, "cb:path/filepath.Walk") {
							ok = true // what a walk of a contained directory reports
						}
						c.check("contained", fnName(fn)+" "+ev.Name, ev.pos(), ok, "%s is called on %v, which can be outside of the package's directory: it must be the directory joined with a name that is cleaned as an absolute one after the back slashes were replaced", ev.Name, a)
					}
					if ev.Kind == "call" && (ev.Name == "os/exec.Command" || ev.Name == "os.StartProcess") {
						c.fail("contained", fnName(fn)+" "+ev.Name, ev.pos(), "starts a process")
					}
				})
			}
		}
	}
	c.atLeast("file system calls of the disk implementation", len(sites), 7)
}

// ---- C05 ----

// parsed: the here.Path that Parse gives for the name, if t is its package
// or its name
func parsedFrom(t *Term) (call *Term, ok bool) {
	for t.isApp("path.Clean") {
		a := t.A[0]
		if a.Op == "concat" && len(a.A) == 2 {
			if s, is := a.A[0].strVal(); is && s == "/" {
				a = a.A[1]
			}
		}
		t = a
	}
	if t.Op == "field" && t.A[0].Op == "ext" && t.A[0].S == "0" && t.A[0].A[0].isApp("(gohere.Info).Parse") {
		return t.A[0].A[0], true
	}
	return nil, false
}

func pathPkg(t *Term, p *Term) bool { // package part of the parsed p
	return t.Op == "field" && t.S == "Pkg" && isParseOf(t, p)
}

func isParseOf(t, p *Term) bool {
	call, ok := parsedFrom(t)
	return ok && len(call.A) == 2 && call.A[1] == p && isHere(call.A[0])
}

func isHere(t *Term) bool { return t.Op == "field" && isInfo(t.T) }

func pathName(t *Term, p *Term) bool { // name part of the parsed p
	for x := t; ; {
		if x.Op == "field" {
			return x.S == "Name" && isParseOf(t, p)
		}
		if x.isApp("path.Clean") {
			x = x.A[0]
			continue
		}
		if x.Op == "concat" && len(x.A) == 2 {
			x = x.A[1]
			continue
		}
		return false
	}
}

// infoFor: the Info is the one of this package, by the events before
func infoFor(evs []*Event, f *Facts, info, pkg *Term) bool {
	if info == nil {
		return false
	}
	for _, ev := range evs {
		if ev.Sub != nil {
			for _, t := range ev.Sub.Traces {
				if infoFor(t.Ev, t.St.facts, info, pkg) {
					return true
				}
			}
		}
		r := ev.results()
		if len(r) == 0 || r[0] != info {
			continue
		}
		switch {
		case ev.Kind == "prim" && ev.Name == "Infos.Load":
			return same(f, ev.Args[1], pkg)
		case strings.HasSuffix(ev.Name, "here.Package") || strings.HasSuffix(ev.Name, "Here).Package"):
			a := ev.args()
			return same(f, a[len(a)-1], pkg) && f.isNil(ev.errResult())
		case strings.HasSuffix(ev.Name, ".Info") && ev.Kind != "prim":
			a := ev.args()
			return same(f, a[len(a)-1], pkg)
		}
	}
	if isHere(info) {
		// the own package, where that was tested
		for _, fld := range []string{"ImportPath"} {
			for _, t := range f.ord {
				if t.Op == "eq" && f.m[t] {
					for i, a := range t.A {
						if a.Op == "field" && a.S == fld && a.A[0] == info && same(f, t.A[1-i], pkg) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// place: t is (directory of the package of name p) joined with its name
func (c *Ctx) place(t *Term, p *Term, evs []*Event, f *Facts) (info *Term, why string) {
	for t.isApp("path.Clean") {
		t = t.A[0]
	}
	var parts []*Term
	if t.isApp("path.Join") || t.Op == "concat" {
		parts = t.A
	} else {
		return nil, "is not the package's directory joined with the name"
	}
	if !isDirOf(parts[0]) {
		return nil, "does not start with the directory of the package"
	}
	info = parts[0].A[0]
	var names []*Term
	for _, x := range parts[1:] {
		if s, ok := x.strVal(); ok && path.Clean("/"+s) == "/" {
			continue
		}
		names = append(names, x)
	}
	if len(names) != 1 || !pathName(names[0], p) {
		return nil, "does not end with the name that was given"
	}
	call, _ := parsedFrom(names[0])
	pt := tExt(call, 0, nil)
	pkg := mk("field", "Pkg", types.Typ[types.String], 0, pt)
	if !infoFor(evs, f, info, pkg) {
		return nil, "is not in the directory of the package that the name gives, but of " + info.String()
	}
	return info, ""
}

// infoSource: where the data of a file info comes from. A *pkging.FileInfo
// made by copying stands for its source.
func (c *Ctx) infoSource(st *State, t *Term) *Term {
	b := t.base()
	if b.Op != "alloc" {
		return t
	}
	return c.sourceOf(c.structOf(st, b), t)
}

// infoGiven: as infoSource, for an argument of a call
func (c *Ctx) infoGiven(ev *Event, st *State, t *Term) *Term {
	if s := ev.Snap[t.base()]; s != nil {
		return c.sourceOf(s, t)
	}
	return c.infoSource(st, t)
}

func (c *Ctx) sourceOf(s, t *Term) *Term {
	if s == nil || !isNamed(s.T, pkgingPath, "FileInfo") {
		return t
	}
	if s.Op == "deref" {
		return s.A[0].base() // all of it
	}
	if s.Op != "struct" {
		return t
	}
	var src *Term
	ok := true
	var rec func(s *Term)
	rec = func(s *Term) {
		su := s.T.Underlying().(*types.Struct)
		for i, x := range s.A {
			if x.Op == "struct" {
				rec(x)
				continue
			}
			fn := su.Field(i).Name()
			var from *Term
			if x.Op == "app" && x.S == "(os.FileInfo)."+fn {
				from = x.A[0]
			} else if x.Op == "field" && x.S == fn {
				// Details.X of another FileInfo
				y := x.A[0]
				for y.Op == "field" {
					y = y.A[0]
				}
				if y.Op == "deref" {
					from = y.A[0]
				}
			}
			if from == nil || src != nil && src != from.base() {
				ok = false
				continue
			}
			src = from.base()
		}
	}
	rec(s)
	if !ok || src == nil {
		return t
	}
	return src
}

type diskOp struct {
	name  string
	calls []string
}

var diskOps = []diskOp{
	{"Create", []string{"os.Create", "os.OpenFile"}},
	{"MkdirAll", []string{"os.MkdirAll"}},
	{"Open", []string{"os.Open", "os.OpenFile"}},
	{"Stat", []string{"os.Stat"}},
	{"Walk", []string{"path/filepath.Walk"}},
	{"Remove", []string{"os.Remove"}},
	{"RemoveAll", []string{"os.RemoveAll"}},
}

func c05(c *Ctx) {
	c.mapsSpec()
	sites := 0
	for _, op := range diskOps {
		fn := c.method("pkging/stdos", "Pkger", op.name)
		if fn == nil {
			continue
		}
		k := "stdos." + op.name
		p := newEng(c.P).Params(fn)
		for _, o := range c.run(fn) {
			at := o.where(fn)
			f := o.St.facts
			if !c.check("returns", k, at, o.Panic == nil, "panics") {
				continue
			}
			c.cacheStores(k, o.St.ev, f, at)
			var sink *Event
			for _, ev := range o.St.ev {
				for _, n := range op.calls {
					if ev.Kind == "call" && ev.Name == n {
						if sink != nil {
							c.fail("one-operation", k, ev.pos(), "%s is done twice", n)
						}
						sink = ev
					}
				}
			}
			err := o.err(fn)
			if sink == nil {
				c.check("does-it", k, at, err != nil && f.notNil(err), "returns %v without doing it %s", o.Ret, cond(f))
				continue
			}
			sites++
			info, why := c.place(sink.Args[0], p[1], o.St.ev, f)
			if !c.check("place", k, sink.pos(), info != nil, "%s is called on %v, which %s", sink.Name, sink.Args[0], why) {
				continue
			}
			switch op.name {
			case "MkdirAll":
				c.check("permissions", k, sink.pos(), same(f, sink.Args[1], p[2]), "the permissions are %v", sink.Args[1])
				c.check("result", k, at, told(o, sink), "returns %v", o.Ret)
			case "Remove", "RemoveAll":
				c.check("result", k, at, told(o, sink), "returns %v", o.Ret)
			case "Stat":
				if f.notNil(sink.errResult()) {
					c.check("result", k, at, f.notNil(err), "returns %v although the call failed", o.Ret)
				} else {
					src := c.infoSource(o.St, o.Ret[0])
					c.check("result", k, at, src == sink.results()[0].base() && same(f, err, sink.errResult()), "returns %v, not the info of the file", o.Ret[0])
				}
			case "Open", "Create":
				if sink.Name == "os.OpenFile" {
					fl, _ := sink.Args[1].intVal()
					want := int64(0)
					if op.name == "Create" {
						want = 0x242 // O_RDWR|O_CREATE|O_TRUNC
					}
					c.check("mode", k, sink.pos(), fl == want, "opened with flags %#x", fl)
				}
				if f.isNil(err) || !f.notNil(err) {
					c.handle(k, o, sink, info, p, at)
				}
			case "Walk":
				c.walked(k, o, sink, info, p, at)
			}
		}
	}
	c.atLeast("ways to a file system call", sites, 10)
	c.handleMethods()

	// own info and Parse
	if fn := c.method("pkging/stdos", "Pkger", "Info"); fn != nil {
		p := newEng(c.P).Params(fn)
		for _, o := range c.run(fn) {
			f := o.St.facts
			c.cacheStores("stdos.Info", o.St.ev, f, o.where(fn))
			if e := o.err(fn); e != nil && !f.notNil(e) {
				c.check("info", "stdos.Info", o.where(fn), infoFor(o.St.ev, f, o.Ret[0], p[1]), "returns %v, which is not the info of the package asked for", o.Ret[0])
			}
		}
	}
	if fn := c.method("pkging/stdos", "Pkger", "Parse"); fn != nil {
		c.parseMethod("stdos.Parse", fn)
	}
	if fn := c.method("pkging/stdos", "Pkger", "Current"); fn != nil {
		c.currentMethod("stdos.Current", fn)
	}
	if fn := c.fn("pkging/stdos", "New"); fn != nil {
		p := newEng(c.P).Params(fn)
		for _, o := range c.run(fn) {
			c.cacheStores("stdos.New", o.St.ev, o.St.facts, o.where(fn))
			s := c.structOf(o.St, o.Ret[0])
			if !c.check("new", "stdos.New", o.where(fn), s != nil, "returns %v", o.Ret) {
				continue
			}
			found := false
			for _, x := range s.A {
				found = found || x == p[0]
			}
			c.check("new", "stdos.New", o.where(fn), found, "the implementation does not keep the info it is for")
		}
	}
}

func (c *Ctx) parseMethod(k string, fn *ssa.Function) {
	p := newEng(c.P).Params(fn)
	for _, o := range c.run(fn) {
		f := o.St.facts
		e := o.err(fn)
		if f.notNil(e) {
			continue
		}
		v := o.Ret[0]
		pkg, name := tField(v, v.T, 0), tField(v, v.T, 1)
		c.check("parse", k, o.where(fn), pathPkg(pkg, p[1]) && pathName(name, p[1]), "returns %v for the name %v", v, p[1])
	}
}

func (c *Ctx) currentMethod(k string, fn *ssa.Function) {
	p := newEng(c.P).Params(fn)
	for _, o := range c.run(fn) {
		ok := isHere(o.Ret[0]) && rootParam(o.Ret[0]) == p[0] && o.Ret[1] == tNil
		c.check("current", k, o.where(fn), ok, "returns %v", o.Ret)
	}
}

func rootParam(t *Term) *Term {
	for len(t.A) > 0 && (t.Op == "field" || t.Op == "deref" || t.Op == "faddr" || t.Op == "index" || t.Op == "iface") {
		t = t.A[0]
	}
	return t
}

// cacheStores: an info is remembered under the package it is for
func (c *Ctx) cacheStores(k string, evs []*Event, f *Facts, at token.Pos) {
	every(evs, func(ev *Event, tr *Trace) {
		if ev.Kind != "prim" || ev.Name != "Infos.Store" {
			return
		}
		ff, e2 := f, evs
		if tr != nil {
			ff, e2 = tr.St.facts, append(append([]*Event(nil), evs...), tr.Ev...)
		}
		key, v := ev.Args[1], ev.Args[2]
		ok := infoFor(e2, ff, v, key) || key.Op == "field" && key.S == "ImportPath" && key.A[0] == v
		c.check("cache", k, ev.pos(), ok, "%v is remembered under %v", v, key)
	})
}

// handle: the file that Open and Create return
func (c *Ctx) handle(k string, o *Outcome, sink *Event, info *Term, p []*Term, at token.Pos) {
	f := o.St.facts
	c.check("opened", k, at, f.isNil(sink.errResult()), "success is reported although the call may have failed")
	s := c.structOf(o.St, o.Ret[0])
	if !c.check("handle", k, at, s != nil, "returns %v", o.Ret[0]) {
		return
	}
	res := sink.results()[0]
	st := s.T.Underlying().(*types.Struct)
	seen := map[string]bool{}
	for i, x := range s.A {
		T := st.Field(i).Type()
		switch {
		case short(T.String()) == "*os.File":
			seen["file"] = true
			c.check("handle-file", k, at, same(f, x, res), "the handle is for %v", x)
		case isInfo(T):
			seen["info"] = true
			c.check("handle-info", k, at, same(f, x, info), "the package info of the handle is %v", x)
		case isPath(T):
			seen["path"] = true
			pkg, name := tField(x, T, 0), tField(x, T, 1)
			c.check("handle-path", k, at, pathPkg(pkg, p[1]) && pathName(name, p[1]), "the path of the handle is %v", x)
		case isPkger(T):
			seen["pkger"] = true
			c.check("handle-owner", k, at, x.base() == p[0], "the handle opens with %v", x)
		case isNamed(deref(T), pkgingPath, "FileInfo"):
			if x == tNil {
				continue
			}
			src := c.infoSource(o.St, x)
			ok := false
			for _, ev := range o.St.ev {
				if ev.Name == "(*os.File).Stat" && ev.Args[0] == res && ev.results()[0].base() == src {
					ok = f.isNil(ev.errResult())
				}
				if (ev.Name == "os.Stat") && ev.Args[0] == sink.Args[0] && ev.results()[0].base() == src {
					ok = f.isNil(ev.errResult())
				}
			}
			c.check("handle-stat", k, at, ok, "the file info of the handle is %v", x)
		}
	}
	for _, w := range []string{"file", "info", "path", "pkger"} {
		c.check("handle-has-"+w, k, at, seen[w], "the handle has no field for %s", w)
	}
}

// walked: what the walk function is told
func (c *Ctx) walked(k string, o *Outcome, sink *Event, info *Term, p []*Term, at token.Pos) {
	c.check("result", k, at, told(o, sink), "returns %v", o.Ret)
	var cb *Event
	for _, ev := range o.St.ev {
		if ev.Kind == "callback" && ev.Instr == sink.Instr {
			cb = ev
		}
	}
	if cb == nil {
		// the caller's function itself
		c.check("walk-names", k, at, false, "the walk function gets paths on disk, not names")
		return
	}
	path, fi, werr := cb.Sub.Args[0], cb.Sub.Args[1], cb.Sub.Args[2]
	calls := 0
	for _, tr := range cb.Sub.Traces {
		tf := tr.St.facts
		var wf *Event
		for _, ev := range tr.Ev {
			if ev.Kind == "dyn" && ev.Args[0] == p[2] {
				wf = ev
			}
		}
		ret := tr.Ret[0]
		if wf == nil {
			// only what keeps its name from being told ends the walk
			own := ret.any(func(x *Term) bool { return x == werr || x.Op == "global" })
			c.check("walk-all", k, at, tf.notNil(ret) && !own, "an entry is left out %s: the walk function is not asked, and the result is %v", cond(tf), ret)
			continue
		}
		calls++
		c.check("walk-result", k, wf.pos(), same(tf, ret, wf.results()[0]), "the result of the walk function is replaced by %v", ret)
		a := wf.args()
		// name
		nm := a[0]
		if !c.check("walk-name", k, wf.pos(), nm.isApp("Path.String"), "the entry is named %v, not by its path", nm) {
			continue
		}
		pt := nm.A[0]
		pkg, name := tField(pt, pt.T, 0), tField(pt, pt.T, 1)
		okPkg := pathPkg(pkg, p[1])
		if !okPkg && pkg.Op == "field" && pkg.S == "Pkg" {
			if call, ok := parsedFrom(pkg); ok && call.A[1].Op == "concat" {
				x := call.A[1].A
				sep, _ := x[1].strVal()
				okPkg = len(x) == 3 && sep == ":" && pathPkg(x[0], p[1]) && x[2] == path
			}
		}
		c.check("walk-package", k, wf.pos(), okPkg, "the entry's package is %v", pkg)
		// the name below the directory
		var dir *Term
		name.walk(func(t *Term) bool {
			if isDirOf(t) {
				dir = t
			}
			return true
		})
		if c.check("walk-below", k, wf.pos(), dir != nil, "the entry's name is %v", name) {
			all := append(append([]*Event(nil), o.St.ev...), tr.Ev...)
			okInfo := dir.A[0] == info || infoFor(all, tf, dir.A[0], pkg)
			c.check("walk-directory", k, wf.pos(), okInfo, "the entry's name is taken below %v", dir)
			for _, s := range [][2]string{{"/m/dir/sub/f.txt", "/sub/f.txt"}, {"/m/dir/m/dir/x", "/m/dir/x"}, {"/m/dir", "/"}, {"/m/dir/a..b", "/a..b"}, {"/m/dir/x/y/dir", "/x/y/dir"}} {
				v := env{path: s[0], dir: "/m/dir"}
				if x, ok := v.eval(name); ok {
					got, _ := x.(string)
					if got == "" {
						got = "/"
					}
					c.check("walk-below", k, wf.pos(), got == s[1], "the entry %s of /m/dir is named %q", s[0], got)
				}
			}
		}
		// info and error
		okFi := c.infoGiven(wf, tr.St, a[1]) == fi || same(tf, a[1], fi)
		if tf.isNil(fi) {
			okFi = a[1] == tNil || same(tf, a[1], fi)
		}
		c.check("walk-info", k, wf.pos(), okFi, "the entry's info is %v %s", a[1], cond(tf))
		c.check("walk-error", k, wf.pos(), same(tf, a[2], werr), "the walk function is told the error %v %s", a[2], cond(tf))
	}
	c.check("walk-calls", k, at, calls > 0, "the walk function is never called")
}

func (c *Ctx) fieldOf(T types.Type, match func(types.Type) bool) string {
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if match(st.Field(i).Type()) {
			return st.Field(i).Name()
		}
	}
	return ""
}

// handleMethods: the accessors of disk files
func (c *Ctx) handleMethods() {
	T := c.P.typ("pkging/stdos", "File")
	if T == nil {
		c.fail("anchor", "stdos.File", token.NoPos, "type not found")
		return
	}
	isField := func(t *Term, name string, p *Term) bool {
		return t.Op == "field" && t.S == name && rootParam(t) == p
	}
	osf := c.fieldOf(T, func(t types.Type) bool { return short(t.String()) == "*os.File" })
	if fn := c.method("pkging/stdos", "File", "Path"); fn != nil {
		p := newEng(c.P).Params(fn)
		for _, o := range c.run(fn) {
			c.check("accessor", "stdos.File.Path", o.where(fn), isPath(o.Ret[0].T) && rootParam(o.Ret[0]) == p[0], "returns %v", o.Ret)
		}
	}
	if fn := c.method("pkging/stdos", "File", "Info"); fn != nil {
		p := newEng(c.P).Params(fn)
		for _, o := range c.run(fn) {
			c.check("accessor", "stdos.File.Info", o.where(fn), isInfo(o.Ret[0].T) && rootParam(o.Ret[0]) == p[0], "returns %v", o.Ret)
		}
	}
	if fn := c.method("pkging/stdos", "File", "Name"); fn != nil {
		p := newEng(c.P).Params(fn)
		for _, o := range c.run(fn) {
			c.check("accessor", "stdos.File.Name", o.where(fn), o.Ret[0].isApp("Path.String") && isPath(o.Ret[0].A[0].T) && rootParam(o.Ret[0].A[0]) == p[0], "returns %v", o.Ret)
		}
	}
	if fn := c.method("pkging/stdos", "File", "Stat"); fn != nil {
		p := newEng(c.P).Params(fn)
		for _, o := range c.run(fn) {
			f := o.St.facts
			if f.notNil(o.Ret[1]) {
				continue
			}
			b := o.Ret[0].base()
			ok := b.Op == "field" && rootParam(b) == p[0] && isNamed(deref(b.T), pkgingPath, "FileInfo")
			if !ok {
				src := c.infoSource(o.St, o.Ret[0])
				for _, ev := range o.St.ev {
					if ev.Name == "(*os.File).Stat" && isField(ev.Args[0], osf, p[0]) && ev.results()[0].base() == src && same(f, o.Ret[1], ev.errResult()) {
						ok = true
					}
				}
			}
			c.check("accessor", "stdos.File.Stat", o.where(fn), ok, "returns %v", o.Ret)
		}
	}
	for _, m := range []string{"Readdir", "Close", "Read", "Seek", "Write"} {
		fn := c.P.method("pkging/stdos", "File", m)
		if fn == nil || len(fn.Blocks) == 0 {
			c.fail("anchor", "stdos.File."+m, token.NoPos, "method not found")
			continue
		}
		p := newEng(c.P).Params(fn)
		for _, o := range c.run(fn) {
			var call *Event
			for _, ev := range o.St.ev {
				if ev.Name == "(*os.File)."+m {
					call = ev
				}
			}
			if !c.check("passes-on", "stdos.File."+m, o.where(fn), call != nil, "does not use the file on disk") {
				continue
			}
			ok := isField(call.Args[0], osf, p[0]) && sameList(o.St.facts, call.Args[1:], p[1:]) && forwarded(o, call)
			c.check("passes-on", "stdos.File."+m, o.where(fn), ok, "calls %v and returns %v", call.Args, o.Ret)
		}
	}
}

func init() {
	register("C04", "provenance analysis of the path argument of every file system call on every path of the disk implementation: it must be the directory of a package joined with a name that is cleaned as an absolute one", c04,
		"symbolic links are not followed by the analysis, as the property says")
	register("C05", "path-sensitive provenance analysis of the disk implementation: each operation's file system call, its place, mode and result, the fields of returned handles, the names and infos a walk reports, and the package info cache", c05)
}

// told: the results of the step are returned; an error may say more
func told(o *Outcome, ev *Event) bool {
	if forwarded(o, ev) {
		return true
	}
	f, e := o.St.facts, ev.errResult()
	if e == nil || !f.notNil(e) || len(o.Ret) == 0 {
		return false
	}
	last := o.Ret[len(o.Ret)-1]
	for _, r := range o.Ret[:len(o.Ret)-1] {
		if !r.isZero() {
			return false
		}
	}
	return isErr(last.T) && f.notNil(last) && !isSkip(last) && last.contains(e)
}
