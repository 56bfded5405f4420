package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// keyOf: the entry that a name denotes, by the specification
func keyOf(name string) vp {
	l := parseModel(name).(vList)
	k, _ := toVP(l[0])
	k.name = path.Clean("/" + k.name)
	return k
}

func withinKey(k, root vp) bool {
	if k.pkg != root.pkg {
		return false
	}
	return k.name == root.name || root.name == "/" || strings.HasPrefix(k.name, root.name+"/")
}

// classes of entries, relative to /a/b of the packages m and o
var classTree = map[vp]entry{
	{"m", "/"}:         {true},
	{"m", "/a"}:        {true},
	{"m", "/a/b"}:      {true},
	{"m", "/a/b/c"}:    {true},
	{"m", "/a/b/c/d"}:  {},
	{"m", "/a/b/x"}:    {},
	{"m", "/a/b/z"}:    {},
	{"m", "/a/bc"}:     {true},
	{"m", "/a/bc/y"}:   {},
	{"m", "/a/b.txt"}:  {},
	{"m", "/a/b-z"}:    {true},
	{"m", "/a/b-z/q"}:  {},
	{"m", "/a/b k"}:    {},
	{"m", "/a/e"}:      {true},
	{"m", "/b"}:        {true},
	{"m", "/b/a"}:      {},
	{"m", "/z"}:        {true},
	{"m", "/z/a"}:      {true},
	{"m", "/z/a/b"}:    {},
	{"m", "/az"}:       {},
	{"o", "/"}:         {true},
	{"o", "/a"}:        {true},
	{"o", "/a/b"}:      {true},
	{"o", "/a/b/c"}:    {},
	{"m/x", "/a/b"}:    {true},
	{"m/x", "/a/b/c"}:  {},
	{"mm", "/a/b/c/d"}: {},
}

// order of a disk walk
func diskOrder(ks []vp) {
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].pkg != ks[j].pkg {
			return ks[i].pkg < ks[j].pkg
		}
		a, b := strings.Split(strings.Trim(ks[i].name, "/"), "/"), strings.Split(strings.Trim(ks[j].name, "/"), "/")
		if ks[i].name == "/" || ks[j].name == "/" {
			return ks[i].name == "/" && ks[j].name != "/"
		}
		for n := 0; n < len(a) && n < len(b); n++ {
			if a[n] != b[n] {
				return a[n] < b[n]
			}
		}
		return len(a) < len(b)
	})
}

func keyList(m map[vp]bool) string {
	var l []string
	for k := range m {
		l = append(l, k.String())
	}
	sort.Strings(l)
	if len(l) > 6 {
		l = append(l[:6], "...")
	}
	return "{" + strings.Join(l, " ") + "}"
}

// memOp: the summaries of an operation of the in-memory implementation
func (c *Ctx) memOp(name string) (*ssa.Function, []*Term, []*Outcome) {
	fn := c.method("pkging/mem", "Pkger", name)
	if fn == nil {
		return nil, nil, nil
	}
	return fn, newEng(c.P).Params(fn), c.run(fn)
}

// treeCases: names of trees, for files of several sizes
func treeCases(outs []*Outcome, names []string) (map[vp]entry, []lookupCase) {
	k := constantsOf(outs)
	tree := k.with(classTree)
	if _, has := tree[vp{"m", "/e"}]; has {
		names = append(append([]string(nil), names...), "m:/e")
		for _, n := range k.names() {
			names = append(names, "/e/d"+n, "/a/b/"+n)
			if len(names) > 60 {
				break
			}
		}
	}
	var l []lookupCase
	for i, size := range k.kinds() {
		for j, x := range names {
			if i == 0 || j < 4 {
				l = append(l, lookupCase{x, size, false})
			}
		}
	}
	return tree, l
}

func c13(c *Ctx) {
	c.mapsSpec()
	c.keepsEntries("Remove")
	c.keepsEntries("RemoveAll")
	n := 0
	if fn, p, outs := c.memOp("RemoveAll"); fn != nil {
		tree, cases := treeCases(outs, []string{"m:/a/b", "/a/b", "o:/a/b", "/", "o:/", "m:/a/b/", "/zzz", "/a/b/x", "m/x:/a/b", "/b", "/a/b/../b", "/z/a/b", "/a/b/c", "o:/zzz", "/a/q"})
		for _, cs := range cases {
			name := cs.name
			for _, rev := range []bool{false, true} {
				n++
				root := keyOf(name)
				t := newTable(c, tree)
				t.reverse = rev
				t.kind = cs.kind
				v := t.env().with(p[1], name)
				o, t, v := t.one(outs, v)
				if !c.check("decided", "mem.RemoveAll", fn.Pos(), o != nil && len(t.why) == 0, "cannot tell what is done for %s: %s", name, strings.Join(t.why, "; ")) {
					continue
				}
				e, ok := v.eval(o.err(fn))
				c.check("result", "mem.RemoveAll", o.where(fn), ok && isNilVal(e), "RemoveAll(%q) returns %v", name, o.Ret)
				lost, kept := map[vp]bool{}, map[vp]bool{}
				for k := range tree {
					_, has := t.store[k]
					if has && withinKey(k, root) {
						kept[k] = true
					}
					if !has && !withinKey(k, root) {
						lost[k] = true
					}
				}
				c.check("removes-subtree", "mem.RemoveAll", o.where(fn), len(kept) == 0, "RemoveAll(%q) leaves %s", name, keyList(kept))
				c.check("keeps-rest", "mem.RemoveAll", o.where(fn), len(lost) == 0, "RemoveAll(%q) also removes %s", name, keyList(lost))
				c.onlyDeletes("mem.RemoveAll", fn, o, t)
			}
		}
		c.errorsChangeNothing("mem.RemoveAll", fn, outs)
	}
	if fn, p, outs := c.memOp("Remove"); fn != nil {
		tree, cases := treeCases(outs, []string{"m:/a/b", "/a/b/x", "/a/e", "o:/a/b", "o:/a/b/c", "/", "/az", "/b", "/a/b.txt", "/z/a", "/zzz", "m/x:/a/b/c", "o:/az", "/a/b/c/d"})
		for _, cs := range cases {
			name := cs.name
			for _, rev := range []bool{false, true} {
				n++
				root := keyOf(name)
				t := newTable(c, tree)
				t.reverse = rev
				t.kind = cs.kind
				o, t, v := t.one(outs, t.env().with(p[1], name))
				if !c.check("decided", "mem.Remove", fn.Pos(), o != nil && len(t.why) == 0, "cannot tell what is done for %s: %s", name, strings.Join(t.why, "; ")) {
					continue
				}
				content, has := false, false
				for k := range tree {
					if k == root {
						has = true
					} else if withinKey(k, root) {
						content = true
					}
				}
				e, ok := v.eval(o.err(fn))
				fails := ok && !isNilVal(e)
				changed := map[vp]bool{}
				for k := range tree {
					if _, still := t.store[k]; !still {
						changed[k] = true
					}
				}
				switch {
				case !has:
					c.check("missing", "mem.Remove", o.where(fn), fails && len(changed) == 0, "Remove of %s, which is missing, returns %v and removes %s", name, o.Ret, keyList(changed))
				case content:
					c.check("refuses-content", "mem.Remove", o.where(fn), fails && len(changed) == 0, "Remove of %s, which has content, returns %v and removes %s", name, o.Ret, keyList(changed))
				default:
					c.check("removes-one", "mem.Remove", o.where(fn), !fails && ok && len(changed) == 1 && changed[root], "Remove of %s returns %v and removes %s", name, o.Ret, keyList(changed))
				}
				c.onlyDeletes("mem.Remove", fn, o, t)
			}
		}
		c.errorsChangeNothing("mem.Remove", fn, outs)
	}
	n += c.memWalk()
	c.atLeast("relations between entries and names decided", n, 100)
}

func (c *Ctx) onlyDeletes(k string, fn *ssa.Function, o *Outcome, t *table) {
	for _, e := range t.eff {
		c.check("only-removes", k, e.ev.pos(), e.kind == "Delete", "does %s on the store", e.ev.Name)
	}
}

// errorsChangeNothing: a name that cannot be parsed changes nothing
func (c *Ctx) errorsChangeNothing(k string, fn *ssa.Function, outs []*Outcome) {
	for _, o := range outs {
		e := o.err(fn)
		if e == nil || !o.St.facts.notNil(e) {
			continue
		}
		if _, ok := parsedErr(e); !ok {
			continue
		}
		every(o.St.ev, func(ev *Event, _ *Trace) {
			if ev.Kind == "prim" && (strings.HasSuffix(ev.Name, ".Delete") || strings.HasSuffix(ev.Name, ".Store")) {
				c.check("failed-parse", k, ev.pos(), false, "%s although the name could not be parsed", ev.Name)
			}
		})
	}
}

func parsedErr(t *Term) (*Term, bool) {
	if t.Op == "ext" && t.S == "1" && t.A[0].isApp("(gohere.Info).Parse") {
		return t.A[0], true
	}
	return nil, false
}

type visit struct {
	key  string
	info vp
}

// memWalk: which entries Walk reports
func (c *Ctx) memWalk() int {
	fn, p, outs := c.memOp("Walk")
	if fn == nil {
		return 0
	}
	n := 0
	k := "mem.Walk"
	calls := 0
	tree, cases := treeCases(outs, []string{"/a/b", "m:/a", "o:/a/b", "/", "o:/", "/b/a", "/zzz", "m/x:/a/b", "/a/b/", "/az"})
	for _, cs := range cases {
		name := cs.name
		root := keyOf(name)
		var all []vp
		for x := range tree {
			if withinKey(x, root) {
				all = append(all, x)
			}
		}
		diskOrder(all)
		step := 1 + len(all)/25
		// no signal, and a signal at each entry
		for stop := -1; stop < len(all); stop += step {
			for _, sig := range []string{"path/filepath.SkipDir", "failed"} {
				if stop < 0 && sig == "failed" {
					continue
				}
				n++
				var got []visit
				t := newTable(c, tree)
				t.kind = cs.kind
				t.call = func(s *table, ev *Event, v env) ([]interface{}, bool) {
					if ev.Kind != "dyn" || ev.Args[0] != p[2] {
						return nil, false
					}
					a := ev.args()
					x, ok := v.eval(a[0])
					nm, ok2 := x.(string)
					if !ok || !ok2 {
						s.undecided("the name %v", a[0])
						return nil, false
					}
					s.eff = append(s.eff, effect{kind: "visit", ev: ev, args: []interface{}{nm}, v: v.with()})
					if stop >= 0 && nm == all[stop].String() {
						return []interface{}{vErr(sig)}, true
					}
					return []interface{}{vNil{}}, true
				}
				o, t, v := t.one(outs, t.env().with(p[1], name))
				if !c.check("decided", k, fn.Pos(), o != nil && len(t.why) == 0, "cannot tell what is done for %s: %s", name, strings.Join(t.why, "; ")) {
					continue
				}
				for _, e := range t.eff {
					if e.kind != "visit" {
						c.check("only-reads", k, e.ev.pos(), false, "%s changes the store", e.ev.Name)
						continue
					}
					calls++
					vi := visit{key: e.args[0].(string)}
					a := e.ev.args()
					src := c.infoGiven(e.ev, o.St, a[1])
					if src != nil {
						src.walk(func(t *Term) bool {
							if t.Op == "stored" {
								x, _ := e.v.eval(t.A[1])
								vi.info, _ = toVP(x)
								return false
							}
							return true
						})
					}
					c.check("entry-info", k, e.ev.pos(), vi.info.String() == vi.key, "%s is reported with the file info %v (%v)", vi.key, src, vi.info)
					c.check("entry-error", k, e.ev.pos(), a[2] == tNil, "%s is reported with the error %v", vi.key, a[2])
					got = append(got, vi)
				}
				// expected
				var want []string
				skip := vp{}
				for i, x := range all {
					if skip.name != "" && withinKey(x, skip) {
						continue
					}
					want = append(want, x.String())
					if i == stop {
						if sig == "failed" {
							break
						}
						skip = x
						if !tree[x].dir {
							skip.name = path.Dir(x.name)
						}
					}
				}
				var gotS []string
				for _, g := range got {
					gotS = append(gotS, g.key)
				}
				what := "walk of " + name
				rule := "visits"
				if stop >= 0 {
					what += fmt.Sprintf(" where %s answers %s", all[stop], strings.TrimPrefix(sig, "path/filepath."))
					rule = "visits-after-signal"
				}
				c.check(rule, k, o.where(fn), strings.Join(gotS, " ") == strings.Join(want, " "), "%s: visits %s instead of %s", what, brief(gotS, want), brief(want, gotS))
				e, ok := v.eval(o.err(fn))
				if len(all) == 0 {
					continue
				}
				if stop >= 0 && sig == "failed" {
					c.check("walk-result", k, o.where(fn), ok && e == vErr(sig), "%s: returns %v", what, o.Ret)
				} else {
					c.check("walk-result", k, o.where(fn), ok && isNilVal(e), "%s: returns %v", what, o.Ret)
				}
			}
		}
	}
	c.atLeast("visits decided", calls, 100)
	return n
}

// brief shows where two lists begin to differ
func brief(a, b []string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	l := a[i:]
	if len(l) > 4 {
		l = append(append([]string(nil), l[:4]...), "...")
	}
	pre := ""
	if i > 0 {
		pre = "... "
	}
	return "[" + pre + strings.Join(l, " ") + "]"
}

func init() {
	register("C13", "the subtree tests of RemoveAll, Remove and Walk evaluated over all classes of relations between an entry and the root (same, child, deeper, same letters, other package, ancestor, unrelated), with the loop's generic iteration as transfer function", c13)
}
