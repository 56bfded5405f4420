package main

import (
	"fmt"
	"go/types"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Summaries of functions that work on the store of files (their paths, with
// loops and callbacks as one generic iteration) are decided over classes of
// entries. A class is a relation between an entry and the name an operation
// is about: the same, a child, deeper, a sibling that starts with the same
// letters, another package, an ancestor, unrelated. table evaluates the
// transfer function of the generic iteration for a sequence of class
// representatives, and tells which path summary applies afterwards.

const (
	mMod = "m"
	mDir = "/src/m"
)

type vp struct{ pkg, name string }

func (p vp) String() string { return p.pkg + ":" + p.name }

type entry struct{ dir bool }

type vInfo struct {
	name string
	dir  bool
	kind kind
}

type effect struct {
	kind string // Store, Delete, call
	key  vp
	ev   *Event
	args []interface{}
	v    env
}

type table struct {
	c       *Ctx
	initial map[vp]entry
	store   map[vp]entry
	infos   map[string]bool
	reverse bool
	walk    []vInfo // what a walk of another implementation reports
	call    func(s *table, ev *Event, v env) ([]interface{}, bool)
	eff     []effect
	why     []string
	hist    map[int]map[vp]entry // earlier states of the store
	ver     int
	snaps   map[*Term]*Term // what a variable held when it was handed over
	cur     *State          // of the path that is evaluated
	objs    map[vp]*object  // what was stored
	bodies  map[string]body // functions that are called recursively
	depth   int
	strKeys bool
	kind    kind   // of every file
	others  *vp    // every name is taken but this one
	walkOf  string // what is to be walked
	walks   string // what the last walk was of
}

// body: the summaries of a function
type body struct {
	params []*Term
	outs   []*Outcome
}

// object: what an operation has stored
type object struct {
	ev     *Event
	alloc  *Term // a new object
	fields map[string]interface{}
	terms  map[string]*Term
	pkgOf  map[string]interface{} // the package of a package info
	paths  []string               // fields that hold the key
	key    vp
	name   interface{}
	dir    interface{}
	mode   interface{}
	size   interface{}
}

var debugSim = os.Getenv("SIM") != ""

var tHook = mk("hook", "", nil, nil)

type hookFn func(v env, t *Term) (interface{}, bool)

func newTable(c *Ctx, store map[vp]entry) *table {
	s := &table{c: c, initial: store, store: map[vp]entry{}, infos: map[string]bool{"m": true, "o": true}}
	s.kind = kind{size: 3}
	s.snaps = map[*Term]*Term{}
	s.objs = map[vp]*object{}
	s.bodies = map[string]body{}
	s.hist = map[int]map[vp]entry{0: store}
	for k, e := range store {
		s.store[k] = e
	}
	return s
}

func (s *table) clone() *table {
	n := *s
	n.store = map[vp]entry{}
	for k, e := range s.store {
		n.store[k] = e
	}
	n.eff = append([]effect(nil), s.eff...)
	n.why = append([]string(nil), s.why...)
	n.hist = map[int]map[vp]entry{}
	for k, x := range s.hist {
		n.hist[k] = x
	}
	n.snaps = map[*Term]*Term{}
	for k, x := range s.snaps {
		n.snaps[k] = x
	}
	n.objs = map[vp]*object{}
	for k, x := range s.objs {
		n.objs[k] = x
	}
	return &n
}

// object evaluates what a Store event stores
func (s *table) object(ev *Event, key vp, v env) *object {
	x := &object{ev: ev, key: key, fields: map[string]interface{}{}, terms: map[string]*Term{}, pkgOf: map[string]interface{}{}}
	val := stripIface(ev.Args[2])
	if val.Op == "alloc" {
		x.alloc = val
	}
	st := s.c.structOf(s.cur, val)
	if st == nil {
		return x
	}
	su := st.T.Underlying().(*types.Struct)
	for i, f := range st.A {
		fv := su.Field(i)
		n := fv.Name()
		x.terms[n] = f
		switch {
		case f.Op == "stored" && strings.HasPrefix(f.S, "Infos"):
			x.pkgOf[n], _ = v.eval(f.A[1])
		case isHere(f):
			x.pkgOf[n] = mMod
		}
		if y, ok := v.eval(f); ok {
			x.fields[n] = y
			if k, ok := toVP(y); ok && k == key && isPath(fv.Type()) {
				x.paths = append(x.paths, n)
			}
		}
		if isNamed(deref(fv.Type()), pkgingPath, "FileInfo") {
			if in := s.c.structOf(s.cur, f); in != nil {
				get := func(name string) interface{} {
					t := detail(in, name)
					if t == nil {
						return nil
					}
					y, _ := v.eval(t)
					return y
				}
				x.name, x.dir, x.mode, x.size = get("Name"), get("IsDir"), get("Mode"), get("Size")
			}
		}
	}
	return x
}

// detail finds the field of that name in a struct or the ones it contains
func detail(s *Term, name string) *Term {
	if s.T == nil {
		return nil
	}
	su, ok := s.T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < su.NumFields(); i++ {
		x := tField(s, s.T, i)
		if su.Field(i).Name() == name {
			return x
		}
	}
	for i := 0; i < su.NumFields(); i++ {
		if _, ok := su.Field(i).Type().Underlying().(*types.Struct); ok && isNamed(su.Field(i).Type(), pkgingPath, "Details") {
			if y := detail(tField(s, s.T, i), name); y != nil {
				return y
			}
		}
	}
	return nil
}

// within a call of a function that has summaries of its own
func (s *table) enter(b body, args []interface{}) (res []interface{}, ok bool) {
	if s.depth > 12 {
		s.undecided("the recursion does not end")
		return nil, false
	}
	t := s.clone()
	t.depth++
	t.ver = 0
	t.eff = nil
	t.hist = map[int]map[vp]entry{0: copyStore(s.store)}
	v := t.env()
	for i, p := range b.params {
		if i < len(args) && args[i] != nil {
			v[p] = args[i]
		}
	}
	o, t2, w := t.one(b.outs, v)
	if o == nil || len(t2.why) > 0 {
		s.why = append(s.why, t2.why...)
		return nil, false
	}
	for _, r := range o.Ret {
		x, ok := w.eval(r)
		if !ok {
			x = unk{}
		}
		res = append(res, x)
	}
	s.store, s.objs = t2.store, t2.objs
	s.eff = append(s.eff, t2.eff...)
	return res, true
}

func copyStore(m map[vp]entry) map[vp]entry {
	n := map[vp]entry{}
	for k, e := range m {
		n[k] = e
	}
	return n
}

func (s *table) undecided(format string, a ...interface{}) {
	s.why = append(s.why, fmt.Sprintf(format, a...))
}

func toVP(x interface{}) (vp, bool) {
	st, ok := x.(vStruct)
	if !ok || len(st.F) != 2 {
		return vp{}, false
	}
	a, ok1 := st.F[0].(string)
	b, ok2 := st.F[1].(string)
	return vp{a, b}, ok1 && ok2
}

func (p vp) val() interface{} { return vStruct{nil, []interface{}{p.pkg, p.name}} }

// hook gives the values that depend on the store
func (s *table) hook(v env, t *Term) (interface{}, bool) {
	switch t.Op {
	case "has":
		x, ok := v.eval(t.A[1])
		if !ok {
			return nil, false
		}
		if k, ok := x.(string); ok {
			return s.infos[k], true
		}
		k, ok := toVP(x)
		if !ok {
			return nil, false
		}
		m := s.store
		if n, err := strconv.Atoi(t.S); err == nil && s.hist[n] != nil {
			m = s.hist[n]
		}
		_, has := m[k]
		if s.others != nil && k != *s.others {
			has = true
		}
		return has, true
	case "istype":
		if x, ok := v[t.A[0]]; ok && !isNilVal(x) {
			return true, true
		}
		return nil, false
	case "len":
		if x, fs := storedOf(t.A[0]); x != nil && strings.HasPrefix(x.S, "Files") && len(fs) > 0 {
			if b, ok := under(t.A[0].T).(*types.Slice); ok && types.Identical(b.Elem(), types.Typ[types.Byte]) {
				return s.kind.size, true
			}
		}
		return nil, false
	case "field", "deref", "iface", "stored":
	default:
		return nil, false
	}
	x := t
	for x.Op == "field" || x.Op == "deref" || x.Op == "faddr" || x.Op == "iface" {
		x = x.A[0]
	}
	if x.Op == "stored" && strings.HasPrefix(x.S, "Files") {
		y, ok := v.eval(x.A[1])
		if !ok {
			return nil, false
		}
		k, ok := toVP(y)
		if !ok {
			return nil, false
		}
		e, has := s.store[k]
		if !has {
			if e, has = s.initial[k]; !has && s.others == nil {
				return nil, false
			}
		}
		if t.Op == "field" {
			if isPath(t.A[0].T) {
				return nil, false // from the struct
			}
			switch t.S {
			case "IsDir":
				return e.dir, true
			case "Mode":
				return s.kind.bits(e.dir), true
			case "Size":
				return s.kind.size, true
			case "data":
				return "abc", true
			}
			if isPath(t.T) {
				return k.val(), true
			}
			if t.S == "Name" {
				return path.Base(k.name), true
			}
			if t.S == "info" || t.S == "pkging" {
				return vErr("ptr"), true
			}
			return nil, false
		}
		if t.Op == "stored" || t.Op == "iface" {
			return vErr("ptr"), true
		}
		return nil, false
	}
	if y := s.snaps[x]; y != nil && t.Op == "field" {
		if z := project(t, y); z != nil {
			return v.eval(z)
		}
		return nil, false
	}
	if x.Op == "param" && t.Op == "field" {
		switch {
		case t.S == "Dir" && isInfo(t.A[0].T), t.S == "Dir" && isNamed(t.A[0].T, herePkg, "Module"):
			return mDir, true
		case t.S == "ImportPath" && isInfo(t.A[0].T), t.S == "Path" && isNamed(t.A[0].T, herePkg, "Module"):
			return mMod, true
		case t.S == "Name" && isInfo(t.A[0].T):
			return "m", true
		}
	}
	return nil, false
}

func (s *table) env() env {
	return env{tHook: hookFn(s.hook)}
}

// one tells which summary of the function applies.
func (s *table) one(outs []*Outcome, v env) (*Outcome, *table, env) {
	var o *Outcome
	var st *table
	var ve env
	n, maybe := 0, 0
	var why []string
	for _, x := range outs {
		t := s.clone()
		w := v.with(tHook, hookFn(t.hook))
		t.cur = x.St
		if !t.steps(x.St.ev, x.St.facts, 0, w) {
			continue
		}
		ok, unk := w.holds(x.St.facts, 0)
		if !ok {
			if debugSim {
				for _, f := range x.St.facts.ord {
					if y, known := w.eval(f); known && y != x.St.facts.m[f] {
						fmt.Println("REJECT", o == nil, "fact", f, "wanted", x.St.facts.m[f], "have", y, t.why)
						break
					}
				}
			}
			continue
		}
		if unk > 0 || len(t.why) > 0 {
			maybe++
			why = append(why, t.why...)
			for _, f := range x.St.facts.ord {
				if _, known := w.eval(f); !known {
					why = append(why, "cannot tell "+f.String())
					break
				}
			}
		}
		n++
		o, st, ve = x, t, w
	}
	switch {
	case n == 0:
		s.undecided("no path applies")
		return nil, s, v
	case n > 1:
		s.undecided("%d paths may apply: %s", n, strings.Join(why, "; "))
		return nil, s, v
	case maybe > 0:
		// the only path there is
		st.why = nil
	}
	return o, st, ve
}

// steps follows a path as far as its conditions agree with the class
func (s *table) steps(evs []*Event, f *Facts, from int, v env) bool {
	for _, ev := range evs {
		switch ev.Kind {
		case "rec", "loop", "callback", "prim":
			if ev.Facts > from && ev.Facts <= len(f.ord) {
				if ok, _ := v.holdsUpTo(f, from, ev.Facts); !ok {
					return false
				}
				from = ev.Facts
			}
		}
		s.step(ev, v)
	}
	return true
}

func (s *table) step(ev *Event, v env) {
	switch {
	case ev.Kind == "prim":
		switch ev.Name {
		case "Files.Delete", "Files.Store":
			x, ok := v.eval(ev.Args[1])
			k, ok2 := toVP(x)
			if !ok || !ok2 {
				s.undecided("%s of %v", ev.Name, ev.Args[1])
				return
			}
			s.eff = append(s.eff, effect{kind: strings.TrimPrefix(ev.Name, "Files."), key: k, ev: ev, v: v.with()})
			if ev.Name == "Files.Delete" {
				delete(s.store, k)
			} else {
				x := s.object(ev, k, v)
				s.objs[k] = x
				s.store[k] = entry{x.dir == true}
			}
			s.remember(1)
		case "Infos.Store", "Infos.Delete":
			s.eff = append(s.eff, effect{kind: ev.Name, ev: ev, v: v.with()})
		case "Files.Keys":
			var l vList
			for _, k := range s.keys() {
				l = append(l, k.val())
			}
			v[ev.Res] = l
		}
	case ev.Kind == "loop":
		s.iterate(ev, v, 0, nil, nil)
	case ev.Kind == "callback":
		s.callback(ev, v)
	case ev.Kind == "rec" && s.bodies[ev.Name].outs != nil:
		var args []interface{}
		for _, a := range ev.args() {
			x, ok := v.eval(a)
			if !ok {
				x = nil
			}
			args = append(args, x)
		}
		r, ok := s.enter(s.bodies[ev.Name], args)
		s.remember(10000)
		for i, t := range ev.results() {
			if ok && i < len(r) {
				v[t] = r[i]
			}
		}
	case ev.Kind == "call" || ev.Kind == "invoke" || ev.Kind == "dyn" || ev.Kind == "rec":
		if strings.HasSuffix(ev.Name, ".Walk") && ev.Kind == "invoke" && len(ev.Args) > 1 {
			x, _ := v.eval(ev.Args[1])
			s.walks, _ = x.(string)
		}
		if ev.Name == "sort.Strings" {
			l := stripIface(ev.Args[0])
			x, _ := v.eval(l)
			list, ok := x.(vList)
			out := append(vList(nil), list...)
			for _, y := range out {
				_, isStr := y.(string)
				ok = ok && isStr
			}
			if !ok {
				s.undecided("sort.Strings sorts %v", l)
				return
			}
			sort.Slice(out, func(i, j int) bool { return out[i].(string) < out[j].(string) })
			v[l] = out
			return
		}
		if ev.Pure || s.call == nil {
			return
		}
		for a, x := range ev.Snap {
			s.snaps[a] = x
		}
		if r, ok := s.call(s, ev, v); ok {
			for i, t := range ev.results() {
				if i < len(r) {
					v[t] = r[i]
				}
			}
		}
	}
}

func (s *table) remember(by int) {
	s.ver += by
	m := map[vp]entry{}
	for k, e := range s.store {
		m[k] = e
	}
	s.hist[s.ver] = m
}

// header: what lookups at the start of a round, and after the last, see
func (s *table) header(sub *Sub) {
	ver := -1
	for m, n := range sub.At.mapver {
		if isNamed(deref(m.T), modPath+"/internal/maps", "Files") && n > ver {
			ver = n
		}
	}
	if ver < 0 {
		ver = s.ver % 10000
	}
	ver += 10000 * sub.At.cnt["epoch"]
	if ver <= s.ver && s.hist[ver] == nil {
		return
	}
	s.ver = ver
	s.hist[ver] = copyStore(s.store)
}

// keys in the order Keys has them
func (s *table) keys() []vp {
	var out []vp
	for k := range s.store {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// iterate the generic iteration. Without next it ends when no trace applies.
func (s *table) iterate(ev *Event, v env, args int, next func(i int, v env) bool, after func(tr *Trace, v env) bool) {
	sub := ev.Sub
	init := map[*Term]interface{}{}
	for sym, t := range sub.Init {
		if x, ok := v.eval(t); ok {
			init[sym] = x
		} else {
			init[sym] = unk{}
		}
	}
	for k, x := range init {
		v[k] = x
	}
	for i := 0; i < 300; i++ {
		s.header(sub)
		if next != nil && !next(i, v) {
			return
		}
		var got *Trace
		var gs *table
		var gv env
		n, maybe := 0, 0
		var what *Term
		for _, tr := range sub.Traces {
			from := len(sub.At.facts.ord)
			first := len(tr.St.facts.ord)
			for _, e := range tr.Ev {
				if e.Kind != "store" {
					if e.Sub != nil {
						first = from
					} else if e.Facts < first {
						first = e.Facts
					}
					break
				}
			}
			if first > from {
				// what comes before anything else
				if ok, _ := v.holdsUpTo(tr.St.facts, from, first); !ok {
					continue
				}
			}
			t := s.clone()
			w := v.with(tHook, hookFn(t.hook))
			t.cur = tr.St
			if !t.steps(tr.Ev, tr.St.facts, from, w) {
				continue
			}
			t.cur = s.cur
			ok, unk := w.holds(tr.St.facts, from)
			if !ok {
				continue
			}
			if unk > 0 {
				for _, f := range tr.St.facts.ord[from:] {
					if _, known := w.eval(f); !known {
						what = f
					}
				}
				maybe++
			}
			n++
			got, gs, gv = tr, t, w
		}
		if n == 0 {
			if next != nil {
				s.undecided("no path of %s applies", ev.Name)
			}
			return
		}
		if n > 1 {
			if maybe > 0 {
				s.undecided("%s depends on %v", ev.Name, what)
				return
			}
		} else if maybe > 0 && next == nil {
			s.undecided("%s depends on %v", ev.Name, what)
			return
		}
		stop := after != nil && !after(got, gv)
		back := map[*Term]interface{}{}
		for sym, t := range got.Back {
			if x, ok := gv.eval(t); ok {
				back[sym] = x
			} else {
				back[sym] = unk{}
			}
		}
		*s = *gs
		for k, x := range gv {
			v[k] = x
		}
		v[tHook] = hookFn(s.hook)
		for k, x := range back {
			v[k] = x
		}
		if stop {
			return
		}
	}
	s.undecided("%s does not end", ev.Name)
}

func under(T types.Type) types.Type {
	if T == nil {
		return nil
	}
	return T.Underlying()
}

// project takes the fields that t takes of a variable from its value
func project(t, val *Term) *Term {
	switch t.Op {
	case "deref":
		if t.A[0].Op == "alloc" {
			return val
		}
	case "field":
		x := project(t.A[0], val)
		i, ok := t.X.(int)
		if x == nil || !ok || x.T == nil {
			return nil
		}
		return tField(x, x.T, i)
	}
	return nil
}

func stripIface(t *Term) *Term {
	for t.Op == "iface" {
		t = t.A[0]
	}
	return t
}

func (s *table) callback(ev *Event, v env) {
	sub := ev.Sub
	switch {
	case ev.Name == "Files.Range" || ev.Name == "(*sync.Map).Range":
		ks := s.keys()
		if s.reverse {
			for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
		s.iterate(ev, v, 2, func(i int, v env) bool {
			if i >= len(ks) {
				return false
			}
			v[sub.Args[0]] = ks[i].val()
			if s.strKeys {
				v[sub.Args[0]] = ks[i].String()
			}
			if ev.Name != "Files.Range" {
				v[sub.Args[1]] = vErr("ptr")
			}
			return true
		}, func(tr *Trace, v env) bool {
			x, ok := v.eval(tr.Ret[0])
			b, ok2 := x.(bool)
			if !ok || !ok2 {
				s.undecided("the callback of Range returns %v", tr.Ret[0])
			}
			return b
		})
	case strings.HasPrefix(ev.Name, "sort.Slice"):
		l := stripIface(ev.Args[0])
		x, ok := v.eval(l)
		list, ok2 := x.(vList)
		if !ok || !ok2 {
			s.undecided("%s sorts %v", ev.Name, l)
			return
		}
		perm := make([]int, len(list))
		for i := range perm {
			perm[i] = i
		}
		bad := false
		less := func(a, b int) bool {
			w := v.with(sub.Args[0], int64(a), sub.Args[1], int64(b))
			for _, tr := range sub.Traces {
				if ok, unk := w.holds(tr.St.facts, len(sub.At.facts.ord)); ok && unk == 0 {
					if r, ok := w.eval(tr.Ret[0]); ok {
						if b, ok := r.(bool); ok {
							return b
						}
					}
				}
			}
			bad = true
			return false
		}
		sort.SliceStable(perm, func(i, j int) bool { return less(perm[i], perm[j]) })
		if bad {
			s.undecided("the order of %s", ev.Name)
			return
		}
		out := make(vList, len(list))
		for i, p := range perm {
			out[i] = list[p]
		}
		v[l] = out
	case strings.HasSuffix(ev.Name, ".Walk"):
		var res interface{} = vNil{}
		skip := ""
		if s.walkOf != "" && s.walks != s.walkOf {
			s.undecided("walks %q", s.walks)
			return
		}
		i := 0
		s.iterate(ev, v, 3, func(_ int, v env) bool {
			for i < len(s.walk) && skip != "" && strings.HasPrefix(s.walk[i].name, skip) {
				i++
			}
			skip = ""
			if i >= len(s.walk) {
				return false
			}
			v[sub.Args[0]] = s.walk[i].name
			v[sub.Args[1]] = s.walk[i]
			v[sub.Args[2]] = vNil{}
			return true
		}, func(tr *Trace, v env) bool {
			e := s.walk[i]
			i++
			x, ok := v.eval(tr.Ret[0])
			if !ok {
				s.undecided("the callback of Walk returns %v", tr.Ret[0])
				return false
			}
			if isNilVal(x) {
				return true
			}
			if isSkipDir(x) {
				skip = e.name + "/"
				if !e.dir {
					skip = path.Dir(e.name) + "/"
				}
				return true
			}
			res = x
			return false
		})
		if ev.Res != nil {
			v[ev.Res] = res
		}
	}
}

func isSkipDir(x interface{}) bool {
	e, ok := x.(vErr)
	return ok && (string(e) == "path/filepath.SkipDir" || string(e) == "io/fs.SkipDir")
}

// parseModel is what (here.Info).Parse of gobuffalo/here v0.6.0 does, for the
// module m in /src/m and names without a colon of their own.
func parseModel(p string) interface{} {
	p = strings.TrimSpace(p)
	p = filepath.Clean(p)
	p = strings.TrimPrefix(p, mDir)
	p = strings.Replace(p, "\\", "/", -1)
	p = strings.TrimSpace(p)
	build := func(pkg, name string) interface{} {
		if strings.HasPrefix(pkg, "/") || pkg == "" {
			name, pkg = pkg, mMod
		}
		if name == "" {
			name = "/"
		}
		if pkg == name {
			pkg, name = mMod, "/"
		}
		if !strings.HasPrefix(name, "/") {
			name = "/" + name
		}
		name = strings.TrimPrefix(name, mDir)
		return vList{vp{pkg, name}.val(), vNil{}}
	}
	if p == "" || p == ":" || p == "." {
		return build("", "")
	}
	pkg, rest, ok := strings.Cut(p, ":")
	if pkg == "" {
		return vList{vp{}.val(), vErr("parse")}
	}
	if !ok || len(rest) < 2 || rest[0] != '/' {
		rest = ""
	}
	return build(pkg, rest)
}
