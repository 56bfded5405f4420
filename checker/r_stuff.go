package main

import (
	"go/token"
	"go/types"
	"path"
	"strings"
)

// ---- C30: every listed file is embedded whole, under its name ----

func c30(c *Ctx) {
	c.stuffed()
	c.added()
}

// noneFailed: every step of the path succeeded, except closing
func (c *Ctx) noneFailed(k string, evs []*Event, f *Facts) {
	for _, ev := range evs {
		e := ev.errResult()
		if e == nil || ev.Defer || harmlessClose(ev) || ev.Sub != nil || strings.HasSuffix(ev.Name, ").Close") {
			continue
		}
		c.check("error", k, ev.pos(), f.isNil(e), "%s: it goes on though %s may have failed", cond(f), ev.Name)
	}
}

// stuffed: all listed files are added before the data is written
func (c *Ctx) stuffed() {
	fn := c.fn("pkging/pkgutil", "Stuff")
	if fn == nil {
		return
	}
	k := fnName(fn)
	info, decls := c.P.paramTerm(fn, 1), c.P.paramTerm(fn, 2)
	good := 0
	for _, o := range c.run(fn) {
		f := o.St.facts
		if o.Panic != nil || len(o.Ret) != 1 {
			c.fail("returns", k, o.where(fn), "a path does not return")
			continue
		}
		if f.notNil(o.Ret[0]) {
			continue
		}
		good++
		var list, pkg *Term
		made := -1
		for i, ev := range o.St.ev {
			switch {
			case ev.Name == "(parser.Decls).Files" && ev.Args[0] == decls:
				list = ev.results()[0]
			case ev.Name == "pkging/mem.New" && same(f, ev.Args[0], info):
				pkg = ev.results()[0]
			case strings.HasSuffix(ev.Name, ".Pkger).MarshalJSON") && pkg != nil && ev.Args[0] == pkg:
				made = i
			}
		}
		if !c.check("listed", k, o.where(fn), list != nil && pkg != nil && made >= 0, "%s: nothing is listed, or nothing encoded", cond(f)) {
			continue
		}
		var over *span
		for i, ev := range o.St.ev {
			if s := spanOf(ev); s != nil && s.list == list && i < made {
				over = s
			}
		}
		if !c.check("every file", k, o.where(fn), over != nil && over.finished(f), "%s: not all the files are looked at before the data is made", cond(f)) {
			continue
		}
		steps := o.St.ev
		c.noneFailed(k, steps[:made+1], f)
		listed := constantsOf(nil, over.ev.Sub.Traces...).paths("/m", "/f/v", "/m/.git")
		for _, p := range append(listed, []string{"/m/a.txt", "/m/.tmp", "/m/x.tmp", "/m/tmp", "/m/a.tmp.txt", "/m/.hidden", "/m/A.TMP", "/m/a.tmpl", "/m/tmp/x", "/m/x.tmp/y", "/m/a.go", "/m/x_test.go",
			"/m/vendor/x", "/m/node_modules", "/m/.git/x", "/m/go.mod", "/m", "/m/a.tmp~", "/m/_x", "/m/testdata/x.tmp", "/m/pkged.go", "/f/x", "/m/A b%20c.TXT", "/m/é", "/m/#x#", "/m/x~", "/m/x.Tmp", "/m/xtmp", "/m/.x.tmp", "/m/x.tmp.tmp", "/m/x.bak", "/m/x.swp", "/m/Thumbs.db", "/m/.DS_Store"}...) {
			hits := 0
			for _, tr := range over.ev.Sub.Traces {
				tf := tr.St.facts
				v := env{tHook: hookFn(func(v env, t *Term) (interface{}, bool) {
					if t.Op == "deref" || t.Op == "field" {
						if attrOf(t) == "Abs" && t.any(func(x *Term) bool { return x == over.elem }) {
							return p, true
						}
					}
					return nil, false
				})}
				ok, _ := v.holds(tf, len(over.ev.Sub.At.facts.ord))
				if !ok {
					continue
				}
				hits++
				var in *Event
				for _, ev := range tr.Ev {
					if strings.HasSuffix(ev.Name, ".Pkger).Add") && ev.Args[0] == pkg {
						in = ev
					}
				}
				if strings.HasSuffix(p, ".tmp") {
					c.check("left out", k, over.ev.pos(), in == nil, "%s is added, not left out", p)
					continue
				}
				if !c.check("every file", k, over.ev.pos(), in != nil, "%s: %s is passed over", cond(tf), p) {
					continue
				}
				c.noneFailed(k, tr.Ev, tf)
				what := ""
				for _, a := range addedFiles(tr.St, in) {
					if op := eventOf(tr.Ev, a); op != nil && (op.Name == "os.Open" || op.Name == "os.OpenFile") {
						x, ok := v.eval(op.Args[0])
						if ok && x == interface{}(p) {
							what = ""
							break
						}
						what = op.Args[0].String()
					} else {
						what = a.String()
					}
				}
				n := len(addedFiles(tr.St, in))
				c.check("that file", k, in.pos(), n > 0 && what == "", "for %s it is %s that is added", p, what)
			}
			c.check("decided", k, over.ev.pos(), hits > 0, "it is not known what is done with %s", p)
		}
	}
	c.atLeast("paths that pack", good, 1)
}

// addedFiles: what is given to Add
func addedFiles(st *State, ev *Event) []*Term {
	var out []*Term
	for _, a := range ev.Args[1:] {
		if a.Op == "list" {
			out = append(out, a.A...)
			continue
		}
		out = append(out, a)
	}
	return out
}

// A place is a file of the world that Add is checked on.
type place struct {
	p        string
	dir      bool
	mod, at  string // its module, and the directory of that
	cur, cat string // the current module
	kind     kind
}

func (p *place) want() (pkg, name string) {
	in := func(d string) bool { return d != "" && (p.p == d || strings.HasPrefix(p.p, d+"/")) }
	pkg, at := p.mod, p.at
	if in(p.cat) {
		pkg, at = p.cur, p.cat
	}
	return pkg, path.Join("/", strings.TrimPrefix(p.p, at))
}

var places = func() (out []*place) {
	for _, cur := range [][2]string{{"ex.com/m", "/d/m"}, {"", ""}, {"ex.com/x", "/x"}} {
		for _, x := range [][3]string{
			{"/d/m", "ex.com/m", "/d/m"}, {"/d/m/a", "ex.com/m", "/d/m"}, {"/d/m/a/b", "ex.com/m", "/d/m"}, {"/d/m/d/m/a", "ex.com/m", "/d/m"},
			{"/d/m/n", "ex.com/n", "/d/m/n"}, {"/d/m/n/y", "ex.com/n", "/d/m/n"},
			{"/d/mm", "ex.com/mm", "/d/mm"}, {"/d/mm/a", "ex.com/mm", "/d/mm"}, {"/d/m.x/a", "ex.com/mx", "/d/m.x"},
			{"/d/m/A b%20c.TXT", "ex.com/m", "/d/m"}, {"/d/m/é/ü.Tar.gz", "ex.com/m", "/d/m"}, {"/d/m/.h/.i", "ex.com/m", "/d/m"}, {"/d/m/x~/#y#", "ex.com/m", "/d/m"}, {"/d/m/a+b@2x,c=d;e(f)[g]{h}", "ex.com/m", "/d/m"},
			{"/D/M/a", "ex.com/M", "/D/M"}, {"/d/M/a", "ex.com/dM", "/d/M"},
			{"/f/a/b", "ex.com/f", "/f"}, {"/f", "ex.com/f", "/f"}, {"/f/d/m/z", "ex.com/f", "/f"},
		} {
			for _, dir := range []bool{true, false} {
				if !dir && x[0] == x[2] {
					continue
				}
				out = append(out, &place{x[0], dir, x[1], x[2], cur[0], cur[1], kind{size: 3}})
			}
		}
	}
	return
}()

// placeHook: what the steps of a path give for the place
func (c *Ctx) placeHook(evs []*Event, fx *Term, p *place, file func(*Term) bool) hookFn {
	return func(v env, t *Term) (interface{}, bool) {
		switch t.Op {
		case "res", "ext", "sym":
			ev := eventOf(evs, t)
			if ev == nil {
				return nil, false
			}
			if t == ev.errResult() {
				return vNil{}, true
			}
			if ev.Name == "(*os.File).Name" && file(ev.Args[0]) {
				return p.p, true
			}
			if isFileInfo(t.T) && len(ev.Args) > 0 && (file(ev.Args[0]) || evalsTo(v, ev.Args[0], p.p)) {
				return vInfo{name: path.Base(p.p), dir: p.dir, kind: p.kind}, true
			}
			return nil, false
		case "field", "deref":
		default:
			return nil, false
		}
		mod, at := p.mod, p.at
		if t.contains(fx) {
			mod, at = p.cur, p.cat
		} else {
			x := t
			for len(x.A) > 0 && (x.Op == "field" || x.Op == "deref" || x.Op == "faddr") {
				x = x.A[0]
			}
			ev := eventOf(evs, x)
			if ev == nil || ev.Name != "here.Dir" {
				return nil, false
			}
			y, ok := v.eval(ev.Args[0])
			s, isS := y.(string)
			in := s == p.p && p.dir || s == path.Dir(p.p) && !p.dir
			if !ok || !isS || !in {
				return nil, false
			}
		}
		switch attrOf(t) {
		case "Dir":
			if strings.Contains(t.String(), "Module") {
				return at, true
			}
		case "Path":
			if isString(t.T) {
				return mod, true
			}
		}
		return nil, false
	}
}

func evalsTo(v env, t *Term, s string) bool {
	x, ok := v.eval(t)
	y, isS := x.(string)
	return ok && isS && y == s
}

// added: what Add stores for a file, and for all that is below a directory
func (c *Ctx) added() {
	fn := c.method("pkging/mem", "Pkger", "Add")
	if fn == nil {
		return
	}
	k := fnName(fn)
	fx, files := c.P.paramTerm(fn, 0), c.P.paramTerm(fn, 1)
	e := newEng(c.P)
	e.Opaque = c.opaqueAlso("pkging/mem", "pkging.NewFileInfo")
	good := 0
	outs := c.runEng(e, fn)
	places := append([]*place{}, places...)
	consts := constantsOf(outs)
	for _, n := range consts.names() {
		for _, cur := range [][2]string{{"ex.com/m", "/d/m"}, {"", ""}} {
			for _, x := range [][3]string{{"/d/m/", "ex.com/m", "/d/m"}, {"/d/m/n/", "ex.com/n", "/d/m/n"}, {"/f/b/", "ex.com/f", "/f"}} {
				places = append(places, &place{x[0] + n, false, x[1], x[2], cur[0], cur[1], kind{size: 3}}, &place{x[0] + n, true, x[1], x[2], cur[0], cur[1], kind{size: 3}})
			}
		}
	}
	for _, s := range consts.kinds()[1:] {
		places = append(places, &place{"/d/m/a", false, "ex.com/m", "/d/m", "ex.com/m", "/d/m", s}, &place{"/d/m/a", true, "ex.com/m", "/d/m", "ex.com/m", "/d/m", s})
	}
	for _, o := range outs {
		f := o.St.facts
		if o.Panic != nil || len(o.Ret) != 1 {
			c.fail("returns", k, o.where(fn), "a path does not return")
			continue
		}
		if f.notNil(o.Ret[0]) {
			continue
		}
		good++
		c.noneFailed(k, o.St.ev, f)
		var over *span
		for _, ev := range o.St.ev {
			if s := spanOf(ev); s != nil && s.list == files {
				over = s
			}
		}
		if !c.check("every file", k, o.where(fn), over != nil && over.finished(f), "%s: not all the files that are given are added", cond(f)) {
			continue
		}
		file := func(x *Term) bool { return x == over.elem }
		for _, tr := range over.ev.Sub.Traces {
			c.noneFailed(k, tr.Ev, tr.St.facts)
		}
		for _, p := range places {
			hits := 0
			for _, tr := range over.ev.Sub.Traces {
				v := env{tHook: c.placeHook(tr.Ev, fx, p, file)}
				ok, _ := v.holds(tr.St.facts, len(over.ev.Sub.At.facts.ord))
				if !ok {
					continue
				}
				hits++
				var walk *Event
				for _, cb := range walkCallback(tr.Ev) {
					if cb.Fn != nil && evalsTo(v, cb.Args[0], p.p) {
						walk = cb
					}
				}
				if walk != nil {
					if p.cur == "" && !p.dir {
						continue
					}
					c.tree(k, walk, tr, fx, p)
					continue
				}
				if !c.check("tree", k, over.ev.pos(), !p.dir, "what is below the directory %s is not added", p.p) {
					continue
				}
				c.storedAs(k, e, over.ev, tr, tr.Ev, []string{p.p}, v, p, file, func(x *Term) bool {
					ev := eventOf(tr.Ev, x)
					return ev != nil && isFileInfo(x.T) && len(ev.Args) > 0 && (file(ev.Args[0]) || evalsTo(v, ev.Args[0], p.p))
				})
			}
			c.check("decided", k, over.ev.pos(), hits > 0, "it is not known what is done with %s", p.p)
		}
	}
	c.atLeast("paths that add", good, 1)
}

// tree: everything that a walk of a directory meets is stored
func (c *Ctx) tree(k string, cb *Event, outer *Trace, fx *Term, root *place) {
	W, info, er := cb.Sub.Args[0], cb.Sub.Args[1], cb.Sub.Args[2]
	for _, tr := range cb.Sub.Traces {
		if tr.St.facts.notNil(er) {
			c.check("error", k, cb.pos(), len(tr.Ret) == 1 && tr.St.facts.notNil(tr.Ret[0]) && !isSkip(tr.Ret[0]), "an error of the walk is dropped: %v is returned", tr.Ret)
		} else if len(tr.Ret) == 1 && !tr.St.facts.notNil(tr.Ret[0]) {
			c.noneFailed(k, tr.Ev, tr.St.facts)
		}
	}
	subs := []*place{root}
	if root.dir {
		consts := constantsOf(nil, cb.Sub.Traces...)
		for i, x := range append([]string{"q", "q/r", ".h", "x.tmp", "vendor/q"}, consts.paths("", "q")...) {
			for _, dir := range []bool{true, false} {
				for j, size := range consts.kinds() {
					if i > 0 && j > 0 {
						continue
					}
					s := *root
					s.p, s.dir, s.kind = path.Join(root.p, x), dir, size
					subs = append(subs, &s)
				}
			}
		}
	}
	for _, p := range subs {
		// the module is the one of the directory that is walked
		all := append(append([]*Event{}, outer.Ev...), nil)
		all = all[:len(all)-1]
		hits := 0
		for _, tr := range cb.Sub.Traces {
			evs := append(append([]*Event{}, all...), tr.Ev...)
			opened := func(x *Term) bool {
				ev := eventOf(tr.Ev, x)
				return ev != nil && (ev.Name == "os.Open" || ev.Name == "os.OpenFile") && ev.Args[0] == W
			}
			in := c.placeHook(evs, fx, p, opened)
			out := c.placeHook(outer.Ev, fx, root, func(x *Term) bool {
				return len(outer.Ev) > 0 && !opened(x)
			})
			v := env{W: p.p, info: vInfo{name: path.Base(p.p), dir: p.dir, kind: p.kind}, er: vNil{}, tHook: hookFn(func(v env, t *Term) (interface{}, bool) {
				if x, ok := in(v, t); ok {
					return x, ok
				}
				return out(v, t)
			})}
			ok, _ := v.holds(tr.St.facts, len(cb.Sub.At.facts.ord))
			if !ok {
				continue
			}
			hits++
			if !c.check("tree", k, cb.pos(), len(tr.Ret) == 1 && (tr.St.facts.isNil(tr.Ret[0])), "%s: the walk does not go on: %v is returned", p.p, tr.Ret) {
				continue
			}
			c.storedAs(k, newEng(c.P), cb, tr, evs, []string{p.p, root.p}, v, p, opened, func(x *Term) bool {
				if x == info {
					return true
				}
				ev := eventOf(tr.Ev, x)
				return ev != nil && isFileInfo(x.T) && len(ev.Args) > 0 && (opened(ev.Args[0]) || ev.Args[0] == W)
			})
		}
		c.check("decided", k, cb.pos(), hits > 0, "it is not known what is done with %s below %s", p.p, root.p)
	}
}

// storedAs: the path stores the file under its path, whole and with its info
func (c *Ctx) storedAs(k string, e *Eng, loop *Event, tr *Trace, evs []*Event, dirs []string, v env, p *place, file, info func(*Term) bool) {
	f, pos := tr.St.facts, loop.pos()
	fresh := func(x *Term) bool {
		n, ok := x.X.(int)
		return x.Op == "alloc" && ok && n > loop.Sub.At.cnt["alloc"]
	}
	var st []*Event
	for _, ev := range tr.Ev {
		if ev.Kind == "prim" && ev.Name == "Files.Store" {
			st = append(st, ev)
		}
	}
	kind := "file"
	if p.dir {
		kind = "directory"
	}
	if !c.check("stored", k+": "+kind, pos, len(st) == 1, "%s: the %s %s is stored %d times", cond(f), kind, p.p, len(st)) {
		return
	}
	key, mf := stripIface(st[0].Args[1]), stripIface(st[0].Args[2])
	pkg, name := p.want()
	part1 := func(t *Term, n string) string {
		x := part(t, t.T, n)
		if x == nil {
			return "nothing"
		}
		y, ok := v.eval(x)
		if s, isS := y.(string); ok && isS {
			return s
		}
		return "unknown: " + x.String()
	}
	F := c.P.typ("pkging/mem", "File")
	if !fresh(mf) || F == nil {
		c.fail("stored", k+": "+kind, st[0].pos(), "%s is stored", mf)
		return
	}
	val := e.load(tr.St, mf, F)
	own := part(val, F, "path")
	for i, t := range []*Term{key, own} {
		if t == nil {
			c.fail("anchor", "mem.File.path", token.NoPos, "not found")
			return
		}
		gp, gn := part1(t, "Pkg"), part1(t, "Name")
		what := []string{"is stored under", "says it is"}[i]
		c.check("path", k+": "+kind, st[0].pos(), gp == pkg && gn == name, "%s of the module %s, while %q in %q is the current one, %s %s:%s, not %s:%s", p.p, p.mod, p.cur, p.cat, what, gp, gn, pkg, name)
	}
	in := part(val, F, "info")
	ev := eventOf(tr.Ev, in)
	c.check("info", k+": "+kind, st[0].pos(), ev != nil && ev.Name == "pkging.NewFileInfo" && info(stripIface(ev.Args[0])), "the info of %s is %v, not its own", p.p, in)
	every(tr.Ev, func(ev *Event, _ *Trace) {
		if ev.Kind == "store" && in != nil && ev.Args[0].base2() == in {
			c.fail("info", k+": "+kind, ev.pos(), "the info of %s is changed: %s", p.p, ev.Args[0])
		}
	})
	if her := part(val, F, "Here"); her != nil {
		from := func(x *Term) bool {
			ev := eventOf(evs, rootOfLoad(stripIface(x)))
			if ev == nil || ev.Name != "here.Dir" {
				return false
			}
			y, ok := v.eval(ev.Args[0])
			s, isS := y.(string)
			hit := false
			for _, d := range append(dirs, path.Dir(p.p)) {
				hit = hit || s == d || s == path.Dir(d)
			}
			return ok && isS && hit
		}
		ok := from(her)
		if her.Op == "struct" {
			ok = true
			for _, x := range her.A {
				ok = ok && from(x)
			}
		}
		c.check("package info", k+": "+kind, st[0].pos(), ok, "the package info of %s is %v, not that of its directory", p.p, her)
	}
	if !p.dir {
		data := part(val, F, "data")
		why := wholeOf(tr, data, file, fresh, func(x *Term) bool { return evalsTo(v, x, p.p) })
		c.check("data", k+": "+kind, st[0].pos(), why == "", "%s: %s", p.p, why)
	}
}

// wholeOf: the data is all there is in the file
func wholeOf(tr *Trace, data *Term, file, fresh, name func(*Term) bool) string {
	f := tr.St.facts
	reads := 0
	at := -1
	for i, ev := range tr.Ev {
		if ev.Sub != nil {
			continue
		}
		for j, a := range ev.args() {
			if file(stripIface(a)) {
				switch {
				case strings.HasSuffix(ev.Name, ").Close"), strings.HasSuffix(ev.Name, ").Name"), strings.HasSuffix(ev.Name, ").Stat"), ev.Kind == "store":
				default:
					reads++
					_ = j
				}
			}
		}
		for _, r := range ev.results() {
			if r == data {
				at = i
			}
		}
	}
	if at < 0 {
		return "its data is " + data.String()
	}
	ev := tr.Ev[at]
	switch ev.Name {
	case "io.ReadAll", "io/ioutil.ReadAll":
		if !file(stripIface(ev.Args[0])) || !f.isNil(ev.errResult()) || reads != 1 {
			return "its data is not all that is read from it"
		}
		return ""
	case "os.ReadFile", "io/ioutil.ReadFile":
		if !name(ev.Args[0]) || !f.isNil(ev.errResult()) {
			return "its data is that of another file"
		}
		return ""
	case "(*bytes.Buffer).Bytes":
		B := ev.Args[0]
		n := 0
		for i, x := range tr.Ev {
			if x.Sub != nil || x.Kind == "store" {
				continue
			}
			hit := false
			for _, a := range x.args() {
				hit = hit || stripIface(a) == B
			}
			if !hit || x == ev {
				continue
			}
			full := (x.Name == "io.Copy" || x.Name == "(*bytes.Buffer).ReadFrom") && stripIface(x.Args[0]) == B && file(stripIface(x.Args[1]))
			switch {
			case full && i < at && f.isNil(x.errResult()):
				n++
			case strings.HasSuffix(x.Name, ").Len"), strings.HasSuffix(x.Name, ").Grow") && n == 0:
			default:
				return x.Name + " changes what is read of it"
			}
		}
		if !fresh(B) {
			return "it is read into " + B.String()
		}
		if n != 1 || reads != 1 {
			return "it is not read exactly once"
		}
		return ""
	}
	return "its data is what " + ev.Name + " gives"
}

func init() {
	register("C30", "on every successful path of packing, each listed file but those ending in .tmp is opened and added; and on every path of Add, for files and directories in the current, a nested, a similarly named and a foreign module, one file with this path, the data of the whole and its own info is stored, for a directory at each step of a walk of all of it", c30,
		"filepath.Walk visits everything below a directory whose visits return nil; io.Copy and ReadAll read to the end of the file or fail",
		"paths are spelled as on Unix")
}

func isFileInfo(T types.Type) bool {
	return isNamed(T, "os", "FileInfo") || isNamed(T, "io/fs", "FileInfo")
}
