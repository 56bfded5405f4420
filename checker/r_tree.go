package main

import (
	"fmt"
	"path"
	"sort"
	"strings"
)

// parents of a key, the root excluded
func parents(k vp) []vp {
	var out []vp
	for n := path.Dir(k.name); n != "/"; n = path.Dir(n) {
		out = append(out, vp{k.pkg, n})
	}
	return out
}

// memBodies: the summaries of the operations that may call each other
func (c *Ctx) memBodies(names ...string) map[string]body {
	out := map[string]body{}
	for _, n := range names {
		fn, p, outs := c.memOp(n)
		if fn != nil {
			out[fnName(fn)] = body{p, outs}
		}
	}
	return out
}

var createTree = map[vp]entry{
	{"m", "/"}:        {true},
	{"m", "/a"}:       {true},
	{"m", "/a/b"}:     {true},
	{"m", "/a/b/x"}:   {},
	{"m", "/a/b.txt"}: {},
	{"m", "/e"}:       {true},
	{"m", "/f"}:       {},
	{"o", "/a"}:       {true},
	{"o", "/b"}:       {true},
	{"o", "/b/a"}:     {},
	{"o", "/only"}:    {true},
}

// spellings of names
var spelled = []string{
	"/", "/a", "/a/b", "/a/b/x", "/a/b/new", "/a/b.txt", "/f", "/f/x", "/f/x/y", "/new", "/new/x", "/new/x/y/z",
	"m:/a/b", "m:/new/x", "o:/a", "o:/a/x", "o:/a/b", "o:/b/a", "o:/b/a/x", "o:/new", "o:/new/x", "o:/", "/only/x", "/only", "o:/e/x", "/b/x", "o:/f/x",
	"/a/b/", "/a/../a/b/n", "a/b/n2", "/q/s", "/q/r/s", "/q", "\\a\\b\\n3", "m:\\a\\n4", "/a/b/x/../n5", "/e/.hidden", "/e/ x", "o:/a/b.txt",
}

func (c *Ctx) storedFresh(k, what string, x *object, o *Outcome) {
	pos := x.ev.pos()
	if !c.check("stores-new-object", k, pos, x.alloc != nil, "%s: what is stored is not a new object but %v", what, x.ev.Args[2]) {
		return
	}
	c.check("stored-path", k, pos, len(x.paths) > 0, "%s: the entry is stored under %s, but its path is another (%v)", what, x.key, x.terms["path"])
	for n, t := range x.terms {
		T := t.T
		if T == nil {
			continue
		}
		s := short(T.String())
		if s == "[]byte" || s == "*bytes.Buffer" || s == "io.Reader" || s == "io.ReadSeeker" || s == "*bytes.Reader" {
			empty := t == tNil || t.isZero() || t.Op == "list" && len(t.A) == 0
			c.check("stored-empty", k, pos, empty, "%s: the new entry has %s = %v", what, n, t)
		}
	}
	base := path.Base(x.key.name)
	if x.key.name != "/" {
		c.check("stored-name", k, pos, x.name == base, "%s: the file info of %s has the name %v", what, x.key, x.name)
	}
	c.check("stored-size", k, pos, x.size == int64(0), "%s: the file info of the new entry has the size %v", what, x.size)
}

// makeCases: names to be made
func makeCases(k *constants) (l []lookupCase) {
	names := append([]string(nil), spelled...)
	for _, x := range k.names() {
		names = append(names, "/a/"+x, "o:/a/b/"+x, "/"+x+"/x", "/new/"+x, "/f/"+x)
	}
	for i, size := range k.kinds() {
		for _, x := range names {
			if i < 2 {
				l = append(l, lookupCase{x, size, false})
			}
		}
	}
	for i, size := range k.kinds() {
		for _, x := range spelled {
			if i >= 2 {
				l = append(l, lookupCase{x, size, false})
			}
		}
	}
	return
}

// keepsEntries: an operation that puts entries into the store or takes them
// out changes nothing of those that are in it
func (c *Ctx) keepsEntries(op string) {
	fn, _, outs := c.memOp(op)
	if fn == nil {
		return
	}
	k := "mem." + op
	for _, o := range outs {
		every(o.St.ev, func(ev *Event, tr *Trace) {
			if ev.Kind == "store" {
				old := ev.Args[0].any(func(t *Term) bool { return t.Op == "stored" })
				c.check("entries-kept", k, ev.pos(), !old, "%s assigns %v, part of an entry that is there already", k, ev.Args[0])
			}
		})
	}
}

func c14(c *Ctx) {
	c.mapsSpec()
	c.keepsEntries("MkdirAll")
	c.keepsEntries("Create")
	bodies := c.memBodies("MkdirAll")
	n := 0
	if fn, p, outs := c.memOp("MkdirAll"); fn != nil {
		k := "mem.MkdirAll"
		consts := constantsOf(outs)
		for i, cs := range makeCases(consts) {
			name := cs.name
			for _, perm := range consts.near(0755, 0700, 0) {
				if perm < 0 || perm > 0777 || i > 12 && perm != 0755 && perm != 0700 && perm != 0 {
					continue
				}
				n++
				key := keyOf(name)
				what := fmt.Sprintf("MkdirAll(%q, %#o)", name, perm)
				t := newTable(c, createTree)
				t.kind = cs.kind
				t.bodies = bodies
				o, t, v := t.one(outs, t.env().with(p[1], name, p[2], perm))
				if !c.check("decided", k, fn.Pos(), o != nil && len(t.why) == 0, "%s: cannot tell what is done: %s", what, strings.Join(t.why, "; ")) {
					continue
				}
				pos := o.where(fn)
				e, ok := v.eval(o.err(fn))
				if !c.check("decided-result", k, pos, ok, "%s returns %v", what, o.Ret) {
					continue
				}
				bad := false
				for _, a := range append(parents(key), key) {
					if x, has := createTree[a]; has && !x.dir {
						bad = true
					}
				}
				changed := t.changes(createTree)
				x, has := createTree[key]
				switch {
				case bad:
					c.check("file-in-the-way", k, pos, !isNilVal(e), "%s succeeds although the name or a parent is a file", what)
					c.check("failure-changes-nothing", k, pos, len(changed) == 0, "%s fails and changes %s", what, keyList(changed))
				case has && x.dir:
					c.check("existing-directory", k, pos, isNilVal(e) && len(changed) == 0, "%s on an existing directory returns %v and changes %s", what, e, keyList(changed))
				default:
					c.check("creates", k, pos, isNilVal(e), "%s fails: %v", what, e)
					want := map[vp]bool{key: true}
					for _, a := range parents(key) {
						if _, has := createTree[a]; !has {
							want[a] = true
						}
					}
					for w := range want {
						c.check("creates-parents", k, pos, changed[w], "%s does not create %s", what, w)
					}
					for w := range changed {
						if w.name == "/" && w.pkg == key.pkg {
							continue
						}
						c.check("creates-only", k, pos, want[w], "%s also changes %s", what, w)
					}
					for w, x := range t.objs {
						c.storedFresh(k, what, x, o)
						c.check("creates-directories", k, x.ev.pos(), x.dir == true, "%s: %s is not a directory (IsDir is %v)", what, w, x.dir)
						c.check("permissions", k, x.ev.pos(), x.mode == int64(0x80000000)|perm, "%s: the mode of %s is %v", what, w, x.mode)
					}
				}
			}
		}
		c.errorsChangeNothing(k, fn, outs)
	}
	if fn, p, outs := c.memOp("Create"); fn != nil {
		k := "mem.Create"
		noRoot := map[vp]entry{}
		for x, e := range createTree {
			if x.name != "/" {
				noRoot[x] = e
			}
		}
		for _, cs := range makeCases(constantsOf(outs)) {
			name := cs.name
			for i, tree := range []map[vp]entry{createTree, noRoot, {}} {
				n++
				key := keyOf(name)
				what := fmt.Sprintf("Create(%q)", name)
				if i > 0 {
					what += [...]string{"", " in a store without its root", " in an empty store"}[i]
				}
				t := newTable(c, tree)
				t.kind = cs.kind
				t.bodies = bodies
				o, t, v := t.one(outs, t.env().with(p[1], name))
				if !c.check("decided", k, fn.Pos(), o != nil && len(t.why) == 0, "%s: cannot tell what is done: %s", what, strings.Join(t.why, "; ")) {
					continue
				}
				pos := o.where(fn)
				e, ok := v.eval(o.err(fn))
				if !c.check("decided-result", k, pos, ok, "%s returns %v", what, o.Ret) {
					continue
				}
				changed := t.changes(tree)
				// the root of the current package may come into being
				if r := (vp{mMod, "/"}); changed[r] && key != r {
					if _, had := tree[r]; !had && t.store[r].dir {
						delete(changed, r)
					}
				}
				parent := vp{key.pkg, path.Dir(key.name)}
				px, phas := tree[parent]
				x, has := tree[key]
				switch {
				case key.name == "/":
					// a directory, made on the way in the current package
					if key.pkg == mMod {
						c.check("root", k, pos, !isNilVal(e), "%s succeeds on the root directory", what)
					}
				case parent.name != "/" && !phas:
					c.check("missing-parent", k, pos, !isNilVal(e), "%s succeeds although the parent does not exist in the package", what)
					c.check("failure-changes-nothing", k, pos, len(changed) == 0, "%s fails and changes %s", what, keyList(changed))
				case parent.name != "/" && !px.dir:
					c.check("parent-is-file", k, pos, !isNilVal(e), "%s succeeds although the parent is a file", what)
					c.check("failure-changes-nothing", k, pos, len(changed) == 0, "%s fails and changes %s", what, keyList(changed))
				case has && x.dir:
					c.check("is-directory", k, pos, !isNilVal(e), "%s succeeds although the name is a directory", what)
					c.check("failure-changes-nothing", k, pos, len(changed) == 0, "%s fails and changes %s", what, keyList(changed))
				default:
					if !c.check("creates", k, pos, isNilVal(e), "%s fails: %v", what, e) {
						continue
					}
					c.check("creates-only", k, pos, len(changed) == 1 && changed[key], "%s changes %s", what, keyList(changed))
					x := t.objs[key]
					if !c.check("creates", k, pos, x != nil, "%s stores nothing", what) {
						continue
					}
					c.storedFresh(k, what, x, o)
					c.check("creates-file", k, x.ev.pos(), x.dir == false, "%s: what is stored is a directory", what)
					m, _ := x.mode.(int64)
					c.check("file-mode", k, x.ev.pos(), m&0x80000000 == 0 && m != 0, "%s: the mode is %v", what, x.mode)
					c.check("returns-stored", k, pos, stripIface(o.Ret[0]) == x.alloc, "%s returns %v, which is not what is stored", what, o.Ret[0])
				}
			}
		}
	}
	c.atLeast("names and stores decided", n, 150)
}

// changes of the store: entries that were added, replaced or removed
func (s *table) changes(before map[vp]entry) map[vp]bool {
	m := map[vp]bool{}
	for k := range before {
		if _, has := s.store[k]; !has {
			m[k] = true
		}
	}
	for _, e := range s.eff {
		if e.kind == "Store" {
			m[e.key] = true
		} else if e.kind == "Delete" {
			if _, had := before[e.key]; had {
				m[e.key] = true
			}
		}
	}
	return m
}

func sortedVP(m map[vp]entry) []vp {
	var l []vp
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

func init() {
	register("C14", "path summaries of Create and MkdirAll (their recursion resolved by the summary itself) over the classes of a name: root, missing, file, directory; of its parents: root, missing, file, directory, present in another package only", c14)
}
