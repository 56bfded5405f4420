package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- loops over all the elements of something ----

// A span is a loop that visits the elements of a list or of a map.
type span struct {
	list *Term // the list, or the map
	elem *Term // the element, or the key
	more *Term // holds while there are more
	ev   *Event
}

// spanOf: what the loop or callback goes over, from the first element on,
// one by one; nil if it is not such a loop.
func spanOf(ev *Event) *span {
	if l := spansOf(ev); len(l) > 0 {
		return l[0]
	}
	return nil
}

// spansOf: a loop may end with the first of several lists
func spansOf(ev *Event) (l []*span) {
	if ev.Sub == nil {
		return
	}
	if ev.Kind == "callback" {
		if mapLoop(ev) && len(ev.Args) > 0 {
			return []*span{{list: ev.Args[0], elem: ev.Sub.Args[0], ev: ev}}
		}
		return
	}
	if len(ev.Sub.Traces) == 0 {
		return
	}
	facts := ev.Sub.Traces[0].St.facts.ord
	if ev.Sub.At != nil {
		facts = facts[len(ev.Sub.At.facts.ord):] // those of this loop
	}
	for _, f := range facts {
		v, ok := ev.Sub.Traces[0].St.facts.decide(f)
		if !ok || !v {
			continue
		}
		if f.Op == "sym" && strings.HasPrefix(f.S, "next#") && strings.HasSuffix(f.S, ".more") {
			if !mapLoop(ev) {
				continue
			}
			n := strings.TrimSuffix(f.S, ".more")
			var key *Term
			look := func(t *Term) {
				if t != nil {
					t.any(func(x *Term) bool {
						if (x.Op == "rangekey" || x.Op == "rangeval") && x.S == n && len(x.A) == 1 {
							key = mk("rangekey", n, x.A[0].T, nil, x.A[0])
							return true
						}
						return false
					})
				}
			}
			for _, tr := range ev.Sub.Traces {
				every(tr.Ev, func(e *Event, _ *Trace) {
					for _, a := range e.Args {
						look(a)
					}
				})
				for _, b := range tr.Back {
					look(b)
				}
				for _, g := range tr.St.facts.ord {
					look(g)
				}
			}
			if key != nil {
				l = append(l, &span{list: key.A[0], elem: key, more: f, ev: ev})
			}
			continue
		}
		if f.Op != "lt" || len(f.A) != 2 || f.A[1].Op != "len" {
			continue
		}
		i, s := f.A[0], f.A[0]
		off := int64(0)
		if i.Op == "add" && len(i.A) == 2 {
			if k, ok := i.A[1].intVal(); ok {
				off, s = k, i.A[0]
			}
		}
		init, ok := ev.Sub.Init[s]
		if !ok {
			continue
		}
		k, ok := init.intVal()
		if !ok || k+off != 0 {
			continue
		}
		step := true
		for _, tr := range ev.Sub.Traces {
			if tr.Back[s] != tAdd(s, tInt(1)) {
				step = false
			}
		}
		if step {
			list := f.A[1].A[0]
			l = append(l, &span{list: list, elem: tIndex(list, i, elemType(list.T)), more: f, ev: ev})
		}
	}
	return l
}

func elemType(T types.Type) types.Type {
	if T == nil {
		return nil
	}
	if s, ok := T.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// finished: the path went on after the last element
func (s *span) finished(f *Facts) bool {
	if s.more == nil {
		return true // checked at the callback's results
	}
	v, ok := f.decide(s.more)
	return ok && !v
}

// ---- C24 ----

// unchangedCopies: nothing changes a copy that was made of an info
func (c *Ctx) unchangedCopies(copier string) {
	lib := map[string]bool{}
	for _, x := range libPkgs {
		lib[pkgPath(x)] = true
	}
	n, made := 0, 0
	for _, fn := range c.P.funcs(func(x string) bool { return lib[x] }) {
		if fn.Parent() != nil || len(fn.Blocks) == 0 || fn.Synthetic != "" || !token.IsExported(fn.Name()) || fnName(fn) == copier || !c.comesTo(fn, copier) {
			continue
		}
		n++
		e := newEng(c.P)
		e.Opaque = func(f *ssa.Function) bool { return f != fn && (c.P.isContract(f) || fnName(f) == copier) }
		for _, o := range c.runEng(e, fn) {
			copies := map[*Term]bool{}
			every(o.St.ev, func(ev *Event, _ *Trace) {
				if ev.Name == copier && ev.Res != nil {
					copies[ev.Res] = true
					made++
				}
			})
			every(o.St.ev, func(ev *Event, _ *Trace) {
				if ev.Kind == "store" && copies[ev.Args[0].base2()] {
					c.fail("copy", fnName(fn), ev.pos(), "%s of a copied info is changed", ev.Args[0])
				}
			})
		}
	}
	c.atLeast("functions that copy an info", n, 5)
	c.atLeast("copies", made, 5)
}

// comesTo: is the function called, directly or by what is inlined
func (c *Ctx) comesTo(fn *ssa.Function, name string) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if seen[f] || !c.P.inModule(fnPkg(f)) {
			return false
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			if visit(a) {
				return true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && (fnName(g) == name || visit(g)) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(fn)
}

var infoAttrs = []string{"Name", "Size", "Mode", "ModTime", "IsDir", "Sys"}

func c24(c *Ctx) {
	fn := c.fn("pkging", "NewFileInfo")
	FI := c.P.typ("pkging", "FileInfo")
	if fn == nil || FI == nil {
		return
	}
	acc := map[string]*ssa.Function{}
	for _, a := range infoAttrs {
		acc[a] = c.method("pkging", "FileInfo", a)
		if acc[a] == nil {
			return
		}
		// each reports its own attribute
		for _, o := range c.run(acc[a]) {
			ok := o.Panic == nil && len(o.Ret) == 1
			if ok {
				t := o.Ret[0]
				ok = (t.Op == "deref" || t.Op == "field") && attrOf(t) == a && t.any(func(x *Term) bool { return x == c.P.paramTerm(acc[a], 0) })
			}
			c.check("accessor", fnName(acc[a]), o.where(acc[a]), ok, "it does not return the attribute of its name but %s", ret(o))
		}
	}
	e := newEng(c.P)
	info := c.P.paramTerm(fn, 0)
	n := 0
	for _, o := range c.runEng(e, fn) {
		k := fnName(fn)
		if o.Panic != nil || len(o.Ret) != 1 {
			c.fail("copy", k, o.where(fn), "a path does not return")
			continue
		}
		r := o.Ret[0]
		if o.St.facts.isNil(info) && r == tNil {
			continue
		}
		n++
		if !c.check("independent", k, o.where(fn), r.Op == "alloc", "%s is returned, not a copy", r) {
			continue
		}
		for _, a := range infoAttrs {
			for _, x := range newEng(c.P).RunWith(acc[a], []*Term{r}, o.St.clone()) {
				ok := x.Panic == nil && len(x.Ret) == 1
				if ok {
					t := x.Ret[0]
					ok = t.Op == "app" && t.S == "(os.FileInfo)."+a && len(t.A) == 1 && t.A[0] == info
					if !ok {
						// a copy of a file info of the library itself
						ok = attrOf(t) == a && (t.Op == "deref" || t.Op == "field") && t.any(func(y *Term) bool { return y.Op == "assert" && y.A[0] == info }) && isNamed(deref(rootOfLoad(t).T), modPath+"/pkging", "FileInfo")
					}
				}
				c.check("copy", k+": "+a, o.where(fn), ok, "the %s of the new info is %s", a, ret(x))
			}
		}
	}
	c.atLeast("paths that copy an info", n, 1)
	c.unchangedCopies(fnName(fn))
	// the copy shares nothing: attributes are values
	c.infoEncoding()
}

// infoEncoding: the encoded form of a file info has all its attributes
func (c *Ctx) infoEncoding() {
	c.tags("pkging", "Details", 6)
	c.tags("pkging", "FileInfo", 1)
	for _, t := range []string{"FileInfo", "Details"} {
		for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
			if T := c.P.typ("pkging", t); T != nil {
				if f := c.P.method("pkging", t, m); f != nil && f.Synthetic == "" {
					c.fail("encoding", t+"."+m, f.Pos(), "the encoding of %s is not that of its fields", t)
				}
			}
		}
	}
	c.modTime()
}

func ret(o *Outcome) string {
	if o.Panic != nil || len(o.Ret) == 0 {
		return "a panic"
	}
	return o.Ret[0].String()
}

func rootOfLoad(t *Term) *Term {
	for t != nil && len(t.A) > 0 && (t.Op == "deref" || t.Op == "field" || t.Op == "faddr") {
		t = t.A[0]
	}
	return t
}

// attrOf: the last field of a load
func attrOf(t *Term) string {
	if t.Op == "deref" && len(t.A) == 1 && t.A[0].Op == "faddr" {
		return fieldLabel(t.A[0])
	}
	if t.Op == "field" {
		return t.S
	}
	return ""
}

// tags: every field of the struct has a name of its own in JSON
func (c *Ctx) tags(pkg, typ string, atLeast int) {
	T := c.P.typ(pkg, typ)
	if T == nil {
		c.fail("anchor", pkg+"."+typ, token.NoPos, "type not found")
		return
	}
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		c.fail("anchor", pkg+"."+typ, token.NoPos, "not a struct")
		return
	}
	seen := map[string]string{}
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		name, opt, _ := strings.Cut(tag, ",")
		k := typ + "." + f.Name()
		if !f.Exported() && !f.Embedded() && tag == "" && !carries(f.Type()) {
			continue // not an attribute: the accessors decide that
		}
		if tag == "-" || !f.Exported() && !f.Embedded() {
			c.check("encoded name", k, f.Pos(), false, "the field is not part of the encoded form")
			continue
		}
		if name == "" {
			name = f.Name()
		}
		n++
		l := strings.ToLower(name)
		c.check("encoded name", k, f.Pos(), seen[l] == "", "the fields %s and %s share the name %q in the encoded form", seen[l], f.Name(), name)
		c.check("encoded name", k, f.Pos(), !strings.Contains(opt, "omitzero") || true, "")
		seen[l] = f.Name()
	}
	c.atLeast("encoded fields of "+typ, n, atLeast)
}

func (c *Ctx) modTime() {
	mar := c.method("pkging", "ModTime", "MarshalJSON")
	unm := c.method("pkging", "ModTime", "UnmarshalJSON")
	if mar == nil || unm == nil {
		return
	}
	if F := c.P.typ("pkging", "Details"); F != nil {
		st := F.Underlying().(*types.Struct)
		ok := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "ModTime" {
				T := st.Field(i).Type()
				ok = isNamed(T, modPath+"/pkging", "ModTime") || isNamed(T, "time", "Time")
			}
		}
		c.check("time", "Details.ModTime", F.(*types.Named).Obj().Pos(), ok, "the modification time is not kept as a time")
	}
	m := c.P.paramTerm(mar, 0)
	n := 0
	for _, o := range c.run(mar) {
		k := fnName(mar)
		if o.Panic != nil {
			c.fail("time", k, o.where(mar), "a path panics")
			continue
		}
		if o.St.facts.notNil(o.Ret[1]) {
			continue
		}
		n++
		ok := false
		why := o.Ret[0].String()
		if ev := eventOf(o.St.ev, o.Ret[0]); ev != nil && ev.Name == "encoding/json.Marshal" {
			t := ev.Args[0].base()
			why = t.String()
			switch {
			case t == m, t.Op == "deref" && t.A[0] == m:
				// a time encodes itself with all its digits; the type of the
				// argument must be that of the standard library
				ok = argType(ev) == "time.Time"
			case t.isApp("(time.Time).Format") && len(t.A) == 2 && t.A[0].base() == m:
				layout, lok := t.A[1].strVal()
				ok = lok && keepsTime(layout)
			}
		} else if t := o.Ret[0]; strings.Contains(t.String(), "(time.Time).MarshalJSON") && t.contains(m) {
			ok = true
		}
		c.check("time", k, o.where(mar), ok, "the modification time is encoded as %s, which does not keep its nanoseconds and zone", why)
	}
	c.atLeast("paths that encode a time", n, 1)
	p := c.P.paramTerm(unm, 0)
	b := c.P.paramTerm(unm, 1)
	n = 0
	for _, o := range c.run(unm) {
		k := fnName(unm)
		if o.Panic != nil || o.St.facts.notNil(o.Ret[0]) {
			continue
		}
		n++
		ok := false
		T := deref(p.T)
		v := newEng(c.P).load(o.St, p, T)
		for _, ev := range o.St.ev {
			var in, x *Term
			switch ev.Name {
			case "encoding/json.Unmarshal":
				if len(ev.Args) == 2 && argType(ev) == "*time.Time" {
					in, x = ev.Args[0], ev.Args[1].base()
				}
			case "(*time.Time).UnmarshalJSON":
				in, x = ev.Args[1], ev.Args[0].base()
			}
			if in != b || x == nil {
				continue
			}
			if E := ev.errResult(); E != nil && (o.St.facts.isNil(E) || E == o.Ret[0]) && (x == p || v.Op == "deref" && v.A[0] == x || v.any(func(y *Term) bool { return y == x })) && v.Op != "app" {
				ok = true
			}
		}
		c.check("time", k, o.where(unm), ok, "the time that is kept (%s) is not the one decoded from the input", v)
	}
	c.atLeast("paths that decode a time", n, 1)
}

// argType: static type of the last argument of a call, before it became an
// interface
func argType(ev *Event) string {
	cc, ok := ev.Instr.(ssa.CallInstruction)
	if !ok || len(cc.Common().Args) == 0 {
		return ""
	}
	a := cc.Common().Args[len(cc.Common().Args)-1]
	if m, ok := a.(*ssa.MakeInterface); ok {
		return short(m.X.Type().String())
	}
	return short(a.Type().String())
}

// keepsTime: what the layout writes is read back as the same time
func keepsTime(layout string) bool {
	for _, z := range []*time.Location{time.UTC, time.FixedZone("", 5*3600+1800), time.FixedZone("", -7*3600)} {
		for _, t := range []time.Time{
			time.Date(2020, 2, 29, 23, 59, 58, 123456789, z), time.Date(1970, 1, 1, 0, 0, 0, 1, z), time.Date(2006, 1, 2, 15, 4, 5, 100, z), time.Date(2106, 12, 31, 1, 2, 3, 0, z),
		} {
			u, err := time.Parse(time.RFC3339, t.Format(layout))
			if err != nil || !u.Equal(t) {
				return false
			}
			_, a := u.Zone()
			_, b := t.Zone()
			if a != b {
				return false
			}
		}
	}
	return true
}

// ---- C18 ----

type pair struct {
	c   *Ctx
	m   *memFile
	eng *Eng
	E   *types.Struct // embed.File
	// content of the encoded form, by name of its field: the field of the
	// stored file it is taken from
	from map[string]int
	// field of the decoded file -> field of the encoded form
	to map[int]string
}

// bytesOf: the content that a copy has
func bytesOf(t *Term) *Term {
	for t != nil && t.Op == "append" && len(t.A) == 2 && (t.A[0] == tNil || t.A[0].Op == "list" && len(t.A[0].A) == 0 || t.A[0].isZero()) && t.A[1].Op == "spread" {
		t = t.A[1].A[0]
	}
	return t
}

// copyOf: the content, also where it was copied into a slice that was made
// for it, and is not used otherwise
func copyOf(evs []*Event, t *Term) *Term {
	t = bytesOf(t)
	if t == nil || t.Op != "mkslice" || len(t.A) == 0 {
		return t
	}
	var src *Term
	for _, ev := range evs {
		for i, a := range ev.Args {
			switch {
			case a != t:
			case i == 1 && ev.Kind == "store": // kept, not written into
			case i == 0 && ev.Kind == "builtin" && ev.Name == "copy" && src == nil && t.A[0] == tLen(ev.Args[1]):
				src = ev.Args[1]
			default:
				return t
			}
		}
	}
	if src == nil {
		return t
	}
	return src
}

// carries: the struct fields that are data, not machinery
func carries(T types.Type) bool {
	s := short(T.String())
	return s == "[]byte" || s == "*pkging.FileInfo" || isInfo(T) || isPath(T) || s == "pkging.FileInfo"
}

func c18(c *Ctx) {
	c.mapsSpec()
	m := c.memFile()
	mar := c.method("pkging/mem", "Pkger", "MarshalJSON")
	unm := c.method("pkging/mem", "Pkger", "UnmarshalJSON")
	ET := c.P.typ("pkging/embed", "File")
	DT := c.P.typ("pkging/embed", "Data")
	if m == nil || mar == nil || unm == nil || ET == nil || DT == nil {
		return
	}
	c.infoEncoding()
	c.tags("pkging/embed", "File", 5)
	c.tags("pkging/embed", "Data", 3)
	for _, t := range []string{"File", "Data"} {
		for _, x := range []string{"MarshalJSON", "UnmarshalJSON"} {
			if f := c.P.method("pkging/embed", t, x); f != nil {
				c.fail("encoding", "embed."+t+"."+x, f.Pos(), "the encoding of %s is not that of its fields", t)
			}
		}
	}
	r := &pair{c: c, m: m, eng: newEng(c.P), E: ET.Underlying().(*types.Struct), from: map[string]int{}, to: map[int]string{}}
	dataF := map[string]string{} // which part of the encoding is what
	r.encode(mar, DT, dataF)
	r.decode(unm, DT, dataF)
	// inverse
	for i := 0; i < m.st.NumFields(); i++ {
		f := m.st.Field(i)
		if !carries(f.Type()) {
			continue
		}
		k := "mem.File." + f.Name()
		e, ok := r.to[i]
		if !c.check("kept", k, f.Pos(), ok, "decoding does not restore the field %s", f.Name()) {
			continue
		}
		j, ok := r.from[e]
		if !c.check("kept", k, f.Pos(), ok, "encoding does not cover the field %s that decoding restores from %s", f.Name(), e) {
			continue
		}
		c.check("kept", k, f.Pos(), j == i, "encoding puts the field %s into %s, decoding puts that into the field %s", m.st.Field(j).Name(), e, f.Name())
	}
	c.embedded()
}

// loads a field of a struct behind a pointer
func (r *pair) field(st *State, p *Term, S types.Type, i int) *Term {
	ft := S.Underlying().(*types.Struct).Field(i).Type()
	return r.eng.load(st, tFaddr(p, types.NewPointer(S), i), ft)
}

// sameInfo: the two file infos have the same attributes
func (r *pair) infoOf(st *State, t *Term, is func(*Term) bool) bool {
	if is(t) {
		return true
	}
	if t.Op != "alloc" {
		return false
	}
	FI := r.c.P.typ("pkging", "FileInfo")
	d := r.field(st, t, FI, 0)
	if d.Op == "field" || d.Op == "deref" {
		return attrOf(d) == "Details" && d.any(is)
	}
	if d.Op != "struct" {
		return false
	}
	DS := r.c.P.typ("pkging", "Details").Underlying().(*types.Struct)
	for i, a := range d.A {
		if attrOf(a) != DS.Field(i).Name() || !a.any(is) {
			return false
		}
	}
	return true
}

func (r *pair) encode(fn *ssa.Function, DT types.Type, dataF map[string]string) {
	c, k := r.c, fnName(fn)
	D := DT.Underlying().(*types.Struct)
	p := c.P.paramTerm(fn, 0)
	n := 0
	for _, o := range c.run(fn) {
		if o.Panic != nil || o.St.facts.notNil(o.err(fn)) {
			continue
		}
		n++
		ev := eventOf(o.St.ev, o.Ret[0])
		if !c.check("encoded", k, o.where(fn), ev != nil && ev.Name == "encoding/json.Marshal" && o.Ret[0] == ev.results()[0], "the result is not the encoded data") {
			continue
		}
		d := ev.Args[0].base()
		S := d
		if d.Op == "alloc" {
			var fs []*Term
			for i := 0; i < D.NumFields(); i++ {
				fs = append(fs, r.field(o.St, d, DT, i))
			}
			S = tStruct(DT, fs)
		}
		T := argType(ev)
		if !c.check("encoded", k, ev.pos(), S.Op == "struct" && len(S.A) == D.NumFields() && (T == "pkging/embed.Data" || T == "*pkging/embed.Data"), "%s is encoded, not the data of the store", d) {
			continue
		}
		for i := 0; i < D.NumFields(); i++ {
			f, v := D.Field(i), S.A[i]
			if isInfo(f.Type()) {
				ok := attrOf(v) == "Here" && v.contains(p) || fieldOfStruct(v, p)
				c.check("current package", k, ev.pos(), ok, "the current package is encoded as %s", v)
				dataF[f.Name()] = "here"
				continue
			}
			mt, ok := f.Type().Underlying().(*types.Map)
			if !ok {
				c.fail("encoded", k, ev.pos(), "the field %s of the encoded data is not understood", f.Name())
				continue
			}
			if isInfo(mt.Elem()) {
				dataF[f.Name()] = "infos"
				r.entries(o, fn, v, "Infos", func(tr *Trace, key, val *Term, pos token.Pos) {
					ok := val.Op == "stored" && len(val.A) == 2 && key == val.A[1] && inStore(val.A[0], p)
					c.check("package infos", k, pos, ok, "%s is encoded under %s", val, key)
				})
			} else {
				dataF[f.Name()] = "files"
				r.entries(o, fn, v, "Files", func(tr *Trace, key, val *Term, pos token.Pos) {
					r.encodedFile(k, tr, key, val, p, pos)
				})
			}
		}
	}
	c.atLeast("paths that encode the store", n, 1)
}

func fieldOfStruct(v, p *Term) bool {
	return v.Op == "struct" && v.any(func(x *Term) bool { return x == p })
}

// inStore: the map is one of the implementation p
func inStore(m, p *Term) bool { return m != nil && m.contains(p) }

// entries finds the loop that fills the map and looks at each entry.
func (r *pair) entries(o *Outcome, fn *ssa.Function, mp *Term, kind string, look func(tr *Trace, key, val *Term, pos token.Pos)) {
	c, k := r.c, fnName(fn)
	found := false
	for _, ev := range o.St.ev {
		if ev.Sub == nil {
			continue
		}
		touches := false
		every([]*Event{ev}, func(x *Event, _ *Trace) {
			if x.Kind == "mapupdate" && x.Args[0] == mp {
				touches = true
			}
		})
		if !touches {
			continue
		}
		found = true
		s := spanOf(ev)
		if !c.check("all of them", k+": "+kind, ev.pos(), s != nil, "the loop does not visit every element") {
			continue
		}
		whole := false
		if ev.Kind == "callback" {
			whole = ev.Name == kind+".Range"
		} else if s.list.Op == "keys" {
			whole = strings.Contains(short(s.list.A[0].T.String()), "maps."+kind)
		}
		c.check("all of them", k+": "+kind, ev.pos(), whole, "the loop visits %s, not everything that is stored", s.list)
		c.check("all of them", k+": "+kind, ev.pos(), s.finished(o.St.facts), "the loop may end before the last one")
		for _, tr := range ev.Sub.Traces {
			skip := false
			for _, f := range tr.St.facts.ord {
				// everything stored is a *mem.File (C12) and under its key
				if v, ok := tr.St.facts.decide(f); ok && !v && (f.Op == "istype" || f.Op == "has") {
					skip = true
				}
			}
			if len(tr.Ret) == 1 {
				v, ok := tr.St.facts.decide(tr.Ret[0])
				c.check("all of them", k+": "+kind, ev.pos(), ok && v || skip, "the iteration ends early %s", cond(tr.St.facts))
			}
			n := 0
			for _, x := range tr.Ev {
				if x.Kind == "mapupdate" && x.Args[0] == mp {
					n++
					look(tr, x.Args[1], x.Args[2], x.pos())
				}
			}
			c.check("all of them", k+": "+kind, ev.pos(), n == 1 || skip && n == 0, "an element that is stored is left out %s", cond(tr.St.facts))
		}
	}
	c.check("all of them", k+": "+kind, fn.Pos(), found, "nothing is put into the encoded %s", kind)
	for _, ev := range o.St.ev {
		if ev.Kind == "mapdelete" && ev.Args[0] == mp {
			c.fail("all of them", k+": "+kind, ev.pos(), "something is taken out again")
		}
	}
}

func (r *pair) encodedFile(k string, tr *Trace, key, val, p *Term, pos token.Pos) {
	c := r.c
	if val.Op == "alloc" {
		var fs []*Term
		for i := 0; i < r.E.NumFields(); i++ {
			fs = append(fs, r.field(tr.St, val, c.P.typ("pkging/embed", "File"), i))
		}
		val = tStruct(c.P.typ("pkging/embed", "File"), fs)
	}
	if !c.check("files", k, pos, val.Op == "struct" && len(val.A) == r.E.NumFields(), "%s is encoded for a file", val) {
		return
	}
	var stored *Term
	val.any(func(x *Term) bool {
		if x.Op == "stored" && len(x.A) == 2 {
			stored = x
			return true
		}
		return false
	})
	if !c.check("files", k, pos, stored != nil && inStore(stored.A[0], p), "what is encoded is not a stored file") {
		return
	}
	c.check("files", k, pos, key.isApp("Path.String") && len(key.A) == 1 && key.A[0] == stored.A[1], "a file stored under %s is encoded under %s", stored.A[1], key)
	for i := 0; i < r.E.NumFields(); i++ {
		f := r.E.Field(i)
		v := bytesOf(val.A[i])
		hit := -1
		for j := 0; j < r.m.st.NumFields(); j++ {
			is := func(x *Term) bool { return fieldIs(x, r.m.T, j) && x.contains(stored) }
			if is(v) || r.m.info == j && r.infoOf(tr.St, v, is) || v.Op == "struct" && allParts(v, is) {
				hit = j
			}
		}
		c.check("files", k+": "+f.Name(), pos, hit >= 0, "the %s of an encoded file is %s", f.Name(), val.A[i])
		if hit < 0 {
			continue
		}
		if old, ok := r.from[f.Name()]; ok && old != hit {
			c.fail("files", k+": "+f.Name(), pos, "it is taken from different fields")
		}
		r.from[f.Name()] = hit
	}
}

// allParts: the struct is put together from the parts of one other
func allParts(v *Term, is func(*Term) bool) bool {
	st, ok := v.T.Underlying().(*types.Struct)
	if !ok || len(v.A) != st.NumFields() || len(v.A) == 0 {
		return false
	}
	for i, a := range v.A {
		if attrOf(a) != st.Field(i).Name() || !a.any(is) {
			return false
		}
	}
	return true
}

func (r *pair) decode(fn *ssa.Function, DT types.Type, dataF map[string]string) {
	c, k := r.c, fnName(fn)
	p, in := c.P.paramTerm(fn, 0), c.P.paramTerm(fn, 1)
	PT := deref(p.T)
	ps := PT.Underlying().(*types.Struct)
	n := 0
	for _, o := range c.run(fn) {
		if o.Panic != nil || o.St.facts.notNil(o.err(fn)) {
			continue
		}
		n++
		var y *Term
		for _, ev := range o.St.ev {
			if ev.Name == "encoding/json.Unmarshal" && len(ev.Args) == 2 && ev.Args[0] == in && o.St.facts.isNil(ev.errResult()) && argType(ev) == "*pkging/embed.Data" {
				y = ev.Args[1].base()
			}
		}
		if !c.check("decoded", k, o.where(fn), y != nil, "the input is not decoded as the data of a store") {
			continue
		}
		for i := 0; i < ps.NumFields(); i++ {
			f := ps.Field(i)
			v := r.field(o.St, p, PT, i)
			switch s := short(f.Type().String()); {
			case isInfo(f.Type()):
				ok := isPart(v, y, dataF, "here")
				c.check("current package", k, o.where(fn), ok, "the current package is restored as %s", v)
			case s == "*internal/maps.Infos":
				r.restored(o, fn, v, y, dataF, "Infos")
			case s == "*internal/maps.Files":
				r.restored(o, fn, v, y, dataF, "Files")
			}
		}
	}
	c.atLeast("paths that decode a store", n, 1)
}

// isPart: the value is the part of the decoded data that has the role
func isPart(v, y *Term, dataF map[string]string, role string) bool {
	if v == nil || !v.contains(y) {
		return false
	}
	if v.Op == "struct" {
		for _, a := range v.A {
			if !a.contains(y) || !a.any(func(x *Term) bool { return dataF[attrOf(x)] == role && x.contains(y) }) {
				return false
			}
		}
		return allParts(v, func(x *Term) bool { return dataF[attrOf(x)] == role })
	}
	return dataF[attrOf(v)] == role
}

func (r *pair) restored(o *Outcome, fn *ssa.Function, store, y *Term, dataF map[string]string, kind string) {
	c, k := r.c, fnName(fn)
	role := strings.ToLower(kind)
	if !c.check("restored", k+": "+kind, o.where(fn), store.Op == "alloc", "the store is not a new one: what was there before is mixed in") {
		return
	}
	found := false
	for _, ev := range o.St.ev {
		if ev.Sub == nil {
			continue
		}
		touches := false
		every([]*Event{ev}, func(x *Event, _ *Trace) {
			if x.Kind == "prim" && x.Name == kind+".Store" && x.Args[0] == store {
				touches = true
			}
		})
		if !touches {
			continue
		}
		found = true
		s := spanOf(ev)
		if !c.check("restored", k+": "+kind, ev.pos(), s != nil && isPart(s.list, y, dataF, role), "the loop does not visit everything that was decoded") {
			continue
		}
		c.check("restored", k+": "+kind, ev.pos(), s.finished(o.St.facts), "the loop may end before the last one")
		for _, tr := range ev.Sub.Traces {
			n := 0
			for _, x := range tr.Ev {
				if x.Kind != "prim" || x.Name != kind+".Store" || x.Args[0] != store {
					continue
				}
				n++
				key, val := x.Args[1], x.Args[2]
				if kind == "Infos" {
					c.check("restored", k+": "+kind, x.pos(), key == s.elem && isElem(val, s), "%s is restored under %s", val, key)
					continue
				}
				r.decodedFile(k, tr, s, key, val, y, dataF, x.pos())
			}
			c.check("restored", k+": "+kind, ev.pos(), n == 1, "an element that was decoded is left out %s", cond(tr.St.facts))
		}
	}
	c.check("restored", k+": "+kind, fn.Pos(), found, "nothing is restored")
	every(o.St.ev, func(ev *Event, _ *Trace) {
		if ev.Kind == "prim" && strings.HasSuffix(ev.Name, ".Delete") {
			c.fail("restored", k+": "+kind, ev.pos(), "something is taken out again")
		}
	})
}

// isElem: the value of the element that the loop is at
func isElem(v *Term, s *span) bool {
	if v.Op == "rangeval" {
		return v.S == s.elem.S && v.A[0] == s.elem.A[0]
	}
	if v.Op == "lookup" && len(v.A) >= 2 {
		return v.A[1] == s.elem
	}
	if v.Op == "struct" {
		return allParts(v, func(x *Term) bool { return isElem(x, s) })
	}
	return false
}

func (r *pair) decodedFile(k string, tr *Trace, s *span, key, val, y *Term, dataF map[string]string, pos token.Pos) {
	c := r.c
	val = stripIface(val)
	if !c.check("restored", k+": Files", pos, val.Op == "alloc", "%s is stored", val) {
		return
	}
	elem := func(x *Term) bool { return isElem(x, s) }
	for i := 0; i < r.m.st.NumFields(); i++ {
		f := r.m.st.Field(i)
		if !carries(f.Type()) {
			continue
		}
		v := bytesOf(r.field(tr.St, val, r.m.T, i))
		hit := ""
		for j := 0; j < r.E.NumFields(); j++ {
			name := r.E.Field(j).Name()
			is := func(x *Term) bool { return x.Op == "field" && x.S == name && len(x.A) == 1 && elem(x.A[0]) }
			if is(v) || i == r.m.info && r.infoOf(tr.St, v, is) || v.Op == "struct" && allParts(v, is) {
				hit = name
			}
		}
		c.check("restored", k+": "+f.Name(), pos, hit != "", "the field %s of a decoded file is %s", f.Name(), v)
		if hit == "" {
			continue
		}
		if old, ok := r.to[i]; ok && old != hit {
			c.fail("restored", k+": "+f.Name(), pos, "it is taken from different fields")
		}
		r.to[i] = hit
	}
	// the key
	parsed := func(x *Term) bool {
		return x.Op == "ext" && x.S == "0" && len(x.A) == 1 && x.A[0].Op == "app" && strings.HasSuffix(x.A[0].S, "Info).Parse") && len(x.A[0].A) == 2 && x.A[0].A[1] == s.elem && isPart(x.A[0].A[0], y, dataF, "here")
	}
	ok := r.keyOf(key, func(x *Term) bool {
		return parsed(x) || x.Op == "field" && r.from[x.S] == r.m.path && len(x.A) == 1 && elem(x.A[0])
	})
	c.check("restored", k+": key", pos, ok, "a file is restored under %s", key)
}

// keyOf: the path is one of those given, its name cleaned at most
func (r *pair) keyOf(key *Term, is func(*Term) bool) bool {
	if is(key) {
		return true
	}
	if key.Op != "struct" || len(key.A) != 2 {
		return false
	}
	part := func(t *Term, name string) bool { return t.Op == "field" && t.S == name && len(t.A) == 1 && is(t.A[0]) }
	if !part(key.A[0], "Pkg") {
		return false
	}
	t := key.A[1]
	for !part(t, "Name") {
		switch {
		case (t.isApp("path.Clean") || t.isApp("filepath.ToSlash") || t.isApp("path/filepath.ToSlash")) && len(t.A) == 1:
			t = t.A[0]
		case (t.Op == "concat" || t.isApp("path.Join")) && len(t.A) == 2:
			if s, ok := t.A[0].strVal(); !ok || s != "/" {
				return false
			}
			t = t.A[1]
		default:
			return false
		}
	}
	return true
}

// embedded: UnmarshalEmbed decodes and restores
func (c *Ctx) embedded() {
	fn := c.fn("pkging/mem", "UnmarshalEmbed")
	if fn == nil {
		return
	}
	k := fnName(fn)
	n := 0
	in := c.P.paramTerm(fn, 0)
	e := newEng(c.P)
	e.Opaque = c.opaqueAlso("pkging/mem", "(*pkging/mem.Pkger).UnmarshalJSON")
	for _, o := range c.runEng(e, fn) {
		if o.Panic != nil || o.St.facts.notNil(o.Ret[1]) {
			continue
		}
		n++
		r := o.Ret[0]
		ok := false
		for _, ev := range o.St.ev {
			if ev.Name != "encoding/json.Unmarshal" && ev.Name != "(*pkging/mem.Pkger).UnmarshalJSON" || len(ev.Args) != 2 {
				continue
			}
			b, x := ev.Args[0], ev.Args[1]
			if ev.Name != "encoding/json.Unmarshal" {
				b, x = x, b
			}
			d := eventOf(o.St.ev, b)
			E := ev.errResult()
			ok = x.base() == r && r.Op == "alloc" && d != nil && d.Name == "pkging/embed.Decode" && d.Args[0] == in && o.St.facts.isNil(d.errResult()) && (o.St.facts.isNil(E) || E == o.Ret[1])
		}
		c.check("embedded", k, o.where(fn), ok, "the result %s is not the store decoded from the whole input", r)
	}
	c.atLeast("paths that decode embedded data", n, 1)
}

var _ = constant.Bool

func init() {
	register("C24", "the accessors are composed with the copy function symbolically: each attribute of the new info is the attribute of the same name of the given one, in a new object; struct tags; layout of the encoded time evaluated on representatives; provenance of the decoded time", c24,
		"encoding/json encodes a struct by the tags of its fields")
	register("C18", "dataflow through the encoder and the decoder on every path: the map from fields of a stored file to fields of the encoded form, and back, compose to the identity; both loops cover every element, under a key made from the key it had; struct tags; contract of the synchronized maps", c18,
		"encoding/json decodes what it encodes", "here.Info.Parse gives back the path whose string it is given")
}
