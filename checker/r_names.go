package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// storedOf: the entry of the store a term is taken from, and the fields that
// lead to it
func storedOf(t *Term) (st *Term, fields []string) {
	for {
		switch t.Op {
		case "field":
			fields = append([]string{t.S}, fields...)
			t = t.A[0]
		case "deref", "iface", "conv", "assert":
			t = t.A[0]
		case "faddr":
			t = t.A[0]
		case "stored":
			return t, fields
		default:
			return nil, nil
		}
	}
}

// fromEntry: the term is that field of the entry of that key
func fromEntry(v env, t *Term, key vp, field string) bool {
	st, fs := storedOf(t)
	if st == nil || !strings.HasPrefix(st.S, "Files") || len(fs) == 0 || fs[0] != field {
		return false
	}
	x, ok := v.eval(st.A[1])
	k, ok2 := toVP(x)
	return ok && ok2 && k == key && len(fs) == 1
}

var lookups = append([]string{"/az", "/a/b-z/q", "o:/a/b/c", "m/x:/a/b/c", "mm:/a/b/c/d", "/zzz", "o:/az", "/a/bc/y", "/a/b/c/d", "m:/a/b/../b/x", "\\a\\b\\x", "a/b/x", "", "o:/zzz/x", "/a/b\\.\\x", "/a\\\\b/x", "/a\\..\\az", "/a/b\\", "o:/a\\.\\b"}, spelled...)

type lookupCase struct {
	name   string
	kind   kind
	others bool // any other name is taken
}

func lookupCases(outs []*Outcome, names []string) (map[vp]entry, []lookupCase) {
	k := constantsOf(outs)
	tree := k.with(classTree)
	var l []lookupCase
	for i, size := range k.kinds() {
		for j, x := range append(append([]string(nil), names...), k.lookups()...) {
			if i == 0 || j < 12 {
				l = append(l, lookupCase{x, size, false})
			}
			if _, has := tree[keyOf(x)]; !has && i == 0 {
				l = append(l, lookupCase{x, size, true})
			}
		}
	}
	return tree, l
}

// opensContent: on every path, whatever the file has in it, all of it
func (c *Ctx) opensContent(k, op string, fn *ssa.Function, outs []*Outcome, m *memFile) {
	if op != "Open" {
		return
	}
	for _, o := range outs {
		if o.Panic != nil || !o.St.facts.isNil(o.err(fn)) {
			continue
		}
		s := c.structOf(o.St, o.Ret[0])
		if s == nil {
			continue
		}
		t := s.A[m.data]
		if t.Op == "append" && len(t.A) == 2 && t.A[1].Op == "spread" && (t.A[0] == tNil || t.A[0].isZero() || t.A[0].Op == "list" && len(t.A[0].A) == 0 || t.A[0].Op == "mkslice") {
			t = t.A[1].A[0]
		}
		if t.Op == "mkslice" || t == tNil || t.Op == "alloc" {
			continue // copied, or decided by the classes
		}
		st, fs := storedOf(t)
		c.check("open-whole", k, o.where(fn), st != nil && len(fs) == 1 && fs[0] == m.name(m.data), "%s returns a handle with the content %v %s", op, t, cond(o.St.facts))
	}
}

func c12(c *Ctx) {
	c.mapsSpec()
	m := c.memFile()
	if m == nil {
		return
	}
	n := 0
	c.memAccessors(m)
	// names
	if fn, p, outs := c.memOp("Parse"); fn != nil {
		for _, name := range append(append([]string(nil), lookups...), constantsOf(outs).lookups()...) {
			n++
			t := newTable(c, classTree)
			o, t, v := t.one(outs, t.env().with(p[1], name))
			if !c.check("decided", "mem.Parse", fn.Pos(), o != nil && len(t.why) == 0, "cannot tell what is returned for %q: %s", name, strings.Join(t.why, "; ")) {
				continue
			}
			x, _ := v.eval(o.Ret[0])
			k, ok := toVP(x)
			c.check("parse", "mem.Parse", o.where(fn), ok && k == keyOf(name), "%q is taken for %v instead of %s", name, k, keyOf(name))
		}
	}
	if fn := c.method("pkging/mem", "Pkger", "Current"); fn != nil {
		p := newEng(c.P).Params(fn)
		for _, o := range c.run(fn) {
			c.check("current", "mem.Current", o.where(fn), o.Panic == nil && isHere(o.Ret[0]) && rootParam(o.Ret[0]) == p[0] && o.Ret[1] == tNil, "returns %v", o.Ret)
		}
	}
	if fn := c.method("pkging/mem", "Pkger", "Info"); fn != nil {
		p := newEng(c.P).Params(fn)
		found := 0
		for _, o := range c.run(fn) {
			f := o.St.facts
			var has *Term
			for _, a := range f.ord {
				if a.Op == "has" {
					has = a
				}
			}
			if !c.check("info", "mem.Info", o.where(fn), o.Panic == nil && has != nil && has.A[1] == p[1], "does not look up the given name (%s)", cond(f)) {
				continue
			}
			if f.m[has] {
				found++
				r := o.Ret[0]
				ok := r.Op == "stored" && r.A[1] == p[1] && strings.HasPrefix(r.S, "Infos")
				c.check("info-known", "mem.Info", o.where(fn), ok && f.isNil(o.err(fn)), "of a known package returns %v", o.Ret)
			} else {
				c.check("info-unknown", "mem.Info", o.where(fn), f.notNil(o.err(fn)), "of an unknown package returns %v", o.Ret)
			}
		}
		c.atLeast("known packages", found, 1)
	}
	if fn := c.fn("pkging/mem", "New"); fn != nil {
		p := newEng(c.P).Params(fn)
		for _, o := range c.run(fn) {
			if o.Panic != nil || !o.St.facts.isNil(o.err(fn)) {
				continue
			}
			s := c.structOf(o.St, o.Ret[0])
			if !c.check("new", "mem.New", o.where(fn), s != nil, "returns %v", o.Ret) {
				continue
			}
			su := s.T.Underlying().(*types.Struct)
			here, reg, files := false, false, false
			for i, x := range s.A {
				if isInfo(su.Field(i).Type()) {
					here = x == p[0]
				}
				if isNamed(deref(su.Field(i).Type()), modPath+"/internal/maps", "Infos") {
					for _, ev := range o.St.ev {
						if ev.Name == "Infos.Store" && ev.Args[0] == x && ev.Args[2] == p[0] {
							k := ev.Args[1]
							reg = k.Op == "field" && k.S == "ImportPath" && k.A[0] == p[0]
						}
					}
				}
				if isNamed(deref(su.Field(i).Type()), modPath+"/internal/maps", "Files") {
					files = x.Op == "alloc"
				}
			}
			c.check("new-current", "mem.New", o.where(fn), here, "the current package is not the given one")
			c.check("new-known", "mem.New", o.where(fn), reg, "the given package is not known under its import path")
			c.check("new-files", "mem.New", o.where(fn), files, "there is no store of its own")
		}
	}
	// Open and Stat
	for _, op := range []string{"Open", "Stat"} {
		fn, p, outs := c.memOp(op)
		if fn == nil {
			continue
		}
		k := "mem." + op
		c.opensContent(k, op, fn, outs, m)
		tree, cases := lookupCases(outs, lookups)
		for _, cs := range cases {
			name := cs.name
			n++
			key := keyOf(name)
			t := newTable(c, tree)
			t.kind = cs.kind
			if cs.others {
				t.others = &key
			}
			o, t, v := t.one(outs, t.env().with(p[1], name))
			what := fmt.Sprintf("%s(%q)", op, name)
			if !c.check("decided", k, fn.Pos(), o != nil && len(t.why) == 0, "%s: cannot tell what is done: %s", what, strings.Join(t.why, "; ")) {
				continue
			}
			pos := o.where(fn)
			for _, e := range t.eff {
				c.check("lookup-changes", k, e.ev.pos(), false, "%s changes the store", what)
			}
			e, ok := v.eval(o.err(fn))
			if !c.check("decided-result", k, pos, ok, "%s returns %v", what, o.Ret) {
				continue
			}
			if _, has := tree[key]; !has {
				c.check("missing", k, pos, !isNilVal(e), "%s succeeds although there is no %s", what, key)
				c.check("missing-result", k, pos, o.Ret[0] == tNil || o.Ret[0].isZero(), "%s returns %v although there is no %s", what, o.Ret[0], key)
				continue
			}
			if !c.check("found", k, pos, isNilVal(e), "%s fails with %v although there is %s", what, e, key) {
				continue
			}
			if op == "Stat" {
				c.check("stat-info", k, pos, c.infoIs(o.St, v, o.Ret[0], key, m), "%s returns %v, which is not the info of %s", what, o.Ret[0], key)
				continue
			}
			s := c.structOf(o.St, o.Ret[0])
			if s == nil {
				// the stored file itself would do for this property
				st, fs := storedOf(o.Ret[0])
				x, _ := v.eval(o.Ret[0])
				_ = x
				c.check("open-handle", k, pos, st != nil && len(fs) == 0, "%s returns %v", what, o.Ret[0])
				continue
			}
			get := func(i int) *Term { return s.A[i] }
			pv, _ := v.eval(get(m.path))
			pk, ok := toVP(pv)
			c.check("open-path", k, pos, ok && pk == key && (fromEntry(v, get(m.path), key, m.name(m.path)) || !strings.Contains(get(m.path).String(), "stored")), "%s returns a handle with the path %v", what, get(m.path))
			c.check("open-content", k, pos, c.sameContent(o, v, get(m.data), key, m), "%s returns a handle with the content %v", what, get(m.data))
			c.check("open-package", k, pos, fromEntry(v, get(m.here), key, m.name(m.here)), "%s returns a handle with the package info %v", what, get(m.here))
			c.check("open-info", k, pos, c.infoIs(o.St, v, get(m.info), key, m), "%s returns a handle with the file info %v", what, get(m.info))
			c.check("open-owner", k, pos, stripIface(get(m.owner)) == p[0], "%s returns a handle that belongs to %v", what, get(m.owner))
		}
	}
	// Remove of files and empty directories
	if fn, p, outs := c.memOp("Remove"); fn != nil {
		tree, cases := lookupCases(outs, lookups)
		for _, cs := range cases {
			name := cs.name
			n++
			key := keyOf(name)
			t := newTable(c, tree)
			t.kind = cs.kind
			if cs.others {
				t.others = &key
			}
			o, t, v := t.one(outs, t.env().with(p[1], name))
			if !c.check("decided", "mem.Remove", fn.Pos(), o != nil && len(t.why) == 0, "cannot tell what is done for %q: %s", name, strings.Join(t.why, "; ")) {
				continue
			}
			e, ok := v.eval(o.err(fn))
			x, has := tree[key]
			ch := t.changes(tree)
			switch {
			case !has:
				c.check("remove-missing", "mem.Remove", o.where(fn), ok && !isNilVal(e) && len(ch) == 0, "Remove(%q) of a missing file returns %v and changes %s", name, e, keyList(ch))
			case !x.dir:
				c.check("remove-file", "mem.Remove", o.where(fn), ok && isNilVal(e) && len(ch) == 1 && ch[key], "Remove(%q) returns %v and changes %s", name, e, keyList(ch))
			}
		}
	}
	// Create
	if fn, p, outs := c.memOp("Create"); fn != nil {
		k := "mem.Create"
		bodies := c.memBodies("MkdirAll")
		consts := constantsOf(outs)
		names := []string{"/x", "o:/x", "/a/b/new", "o:/a/new", "/a/../a/b/n", "\\a\\b\\n3", "/a/b/x", "o:/b/a", "/a/b\\.\\n4"}
		for _, x := range consts.names() {
			names = append(names, "/a/b/new"+x, "o:/a/"+x)
		}
		for _, name := range names {
			n++
			key := keyOf(name)
			t := newTable(c, createTree)
			t.bodies = bodies
			o, t, _ := t.one(outs, t.env().with(p[1], name))
			if !c.check("decided", k, fn.Pos(), o != nil && len(t.why) == 0, "cannot tell what is done for %q: %s", name, strings.Join(t.why, "; ")) {
				continue
			}
			x := t.objs[key]
			if !c.check("create-key", k, o.where(fn), x != nil, "Create(%q) does not store %s", name, key) {
				continue
			}
			pn := m.name(m.path)
			y, _ := toVP(x.fields[pn])
			c.check("create-path", k, x.ev.pos(), y == key, "Create(%q) stores a file with the path %v", name, x.terms[pn])
			h := x.terms[m.name(m.here)]
			okh := x.pkgOf[m.name(m.here)] == key.pkg
			c.check("create-package", k, x.ev.pos(), okh, "Create(%q) stores a file with the package info %v", name, h)
			c.check("create-handle", k, o.where(fn), stripIface(o.Ret[0]) == x.alloc, "Create(%q) returns %v, not what it stored", name, o.Ret[0])
		}
		// an unknown package
		t := newTable(c, createTree)
		t.bodies = bodies
		o, t, v := t.one(outs, t.env().with(p[1], "unknown/pkg:/x"))
		if c.check("decided", k, fn.Pos(), o != nil && len(t.why) == 0, "cannot tell what is done for an unknown package: %s", strings.Join(t.why, "; ")) {
			e, ok := v.eval(o.err(fn))
			c.check("create-unknown-package", k, o.where(fn), ok && !isNilVal(e), "Create in an unknown package returns %v", o.Ret)
		}
	}
	// MkdirAll: every directory made carries the info of its own package
	if fn, p, outs := c.memOp("MkdirAll"); fn != nil {
		k := "mem.MkdirAll"
		bodies := c.memBodies("MkdirAll")
		consts := constantsOf(outs)
		names := []string{"/x", "/", "o:/x", "o:/", "/new/x", "o:/new/x", "m:/new", "/a/b/new", "o:/a/new", "unknown/pkg:/x"}
		for _, x := range consts.names() {
			names = append(names, "/a/b/new"+x, "o:/a/"+x)
		}
		for i, tree := range []map[vp]entry{createTree, {}} {
			for _, name := range names {
				n++
				key := keyOf(name)
				what := fmt.Sprintf("MkdirAll(%q)", name)
				if i > 0 {
					what += " in an empty store"
				}
				t := newTable(c, tree)
				t.bodies = bodies
				o, t, _ := t.one(outs, t.env().with(p[1], name, p[2], int64(0755)))
				if !c.check("decided", k, fn.Pos(), o != nil && len(t.why) == 0, "%s: cannot tell what is done: %s", what, strings.Join(t.why, "; ")) {
					continue
				}
				for w, x := range t.objs {
					h := x.terms[m.name(m.here)]
					okh := x.pkgOf[m.name(m.here)] == w.pkg
					if w.pkg != mMod && w.pkg != "o" {
						// no info is known of this package
						okh = okh || h != nil && isHere(h)
					}
					c.check("mkdir-package", k, x.ev.pos(), okh, "%s stores %s with the package info %v", what, w, h)
					y, _ := toVP(x.fields[m.name(m.path)])
					c.check("mkdir-path", k, x.ev.pos(), y == w && w.pkg == key.pkg, "%s stores %s with the path %v", what, w, x.terms[m.name(m.path)])
				}
			}
		}
	}
	// what is stored
	stores := 0
	c.memFuncs(func(fn *ssa.Function, o *Outcome) {
		every(o.St.ev, func(ev *Event, tr *Trace) {
			if ev.Name != "Files.Store" {
				return
			}
			stores++
			v := stripIface(ev.Args[2])
			c.check("stored-kind", fnName(fn), ev.pos(), isNamed(deref(v.T), modPath+"/pkging/mem", "File") && v.Op == "alloc", "stores %v, which is not a new in-memory file", ev.Args[2])
		})
	})
	c.atLeast("stores of files", stores, 4)
	c.atLeast("names decided", n, 100)
}

// infoIs: the info is that of the entry, or a copy
func (c *Ctx) infoIs(st *State, v env, t *Term, key vp, m *memFile) bool {
	if fromEntry(v, t, key, m.name(m.info)) {
		return true
	}
	src := c.infoSource(st, t)
	return src != nil && fromEntry(v, src, key, m.name(m.info))
}

func (c *Ctx) sameContent(o *Outcome, v env, t *Term, key vp, m *memFile) bool {
	return fromEntry(v, copyOf(o.St.ev, t), key, m.name(m.data))
}

// memAccessors: what a handle tells of itself
func (c *Ctx) memAccessors(m *memFile) {
	each := func(name string, f func(fn *ssa.Function, o *Outcome) (bool, string)) {
		fn := c.method("pkging/mem", "File", name)
		if fn == nil {
			return
		}
		for _, o := range c.run(fn) {
			if o.Panic != nil {
				c.check("accessor", "mem.File."+name, o.where(fn), false, "may panic")
				continue
			}
			ok, why := f(fn, o)
			c.check("accessor", "mem.File."+name, o.where(fn), ok, "%s", why)
		}
	}
	each("Path", func(fn *ssa.Function, o *Outcome) (bool, string) {
		return o.Ret[0] == m.before(c, fn, m.path), fmt.Sprintf("returns %v", o.Ret)
	})
	each("Name", func(fn *ssa.Function, o *Outcome) (bool, string) {
		r := o.Ret[0]
		return r.isApp("Path.String") && r.A[0] == m.before(c, fn, m.path), fmt.Sprintf("returns %v", o.Ret)
	})
	each("Info", func(fn *ssa.Function, o *Outcome) (bool, string) {
		return o.Ret[0] == m.before(c, fn, m.here), fmt.Sprintf("returns %v", o.Ret)
	})
	each("Stat", func(fn *ssa.Function, o *Outcome) (bool, string) {
		i0 := m.before(c, fn, m.info)
		if o.St.facts.isNil(i0) {
			return o.St.facts.notNil(o.err(fn)), fmt.Sprintf("without info returns %v", o.Ret)
		}
		src := c.infoSource(o.St, o.Ret[0])
		return o.St.facts.isNil(o.err(fn)) && (stripIface(o.Ret[0]) == i0 || src != nil && stripIface(src) == i0), fmt.Sprintf("returns %v", o.Ret)
	})
}

func init() {
	register("C12", "keys, entries and results of every in-memory operation, over spellings of names (own and foreign package, parent elements, back slashes, missing separators, root) and classes of entries", c12,
		"here.Info.Parse of the dependency resolves a name as its source does (modelled)")
}
