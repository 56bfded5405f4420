package main

import (
	"fmt"
	"go/types"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fields of the in-memory file, by their meaning
type memFile struct {
	T      types.Type
	st     *types.Struct
	writer int // what was written
	reader int // position of reading
	data   int // content
	info   int
	path   int
	here   int
	owner  int // implementation
}

// memFile finds out which field is which, from the types and, for the path,
// from what Create puts in it.
func (c *Ctx) memFile() *memFile {
	T := c.P.typ("pkging/mem", "File")
	if T == nil {
		c.fail("anchor", "mem.File", 0, "type not found")
		return nil
	}
	m := &memFile{T: T, st: T.Underlying().(*types.Struct), writer: -1, reader: -1, data: -1, info: -1, path: -1, here: -1, owner: -1}
	var paths []int
	for i := 0; i < m.st.NumFields(); i++ {
		ft := m.st.Field(i).Type()
		switch s := short(ft.String()); {
		case s == "*bytes.Buffer" || s == "bytes.Buffer" || s == "io.Writer" || s == "io.ReadWriter":
			m.writer = i
		case s == "io.Reader" || s == "*bytes.Reader" || s == "io.ReadSeeker" || s == "io.Seeker":
			m.reader = i
		case s == "[]byte":
			m.data = i
		case isNamed(deref(ft), pkgingPath, "FileInfo"):
			m.info = i
		case isInfo(ft):
			m.here = i
		case isPkger(ft) || isNamed(deref(ft), modPath+"/pkging/mem", "Pkger"):
			m.owner = i
		case isPath(ft):
			paths = append(paths, i)
		}
	}
	if fn := c.method("pkging/mem", "File", "Path"); fn != nil {
		for _, o := range c.run(fn) {
			for _, i := range paths {
				if len(o.Ret) == 1 && o.Ret[0] == tField(c.self(fn), T, i) {
					m.path = i
				}
			}
		}
	}
	for n, i := range map[string]int{"writer": m.writer, "reader": m.reader, "data": m.data, "info": m.info, "path": m.path, "here": m.here, "owner": m.owner} {
		if !c.check("anchor-field", "mem.File", 0, i >= 0, "no field for the %s", n) {
			return nil
		}
	}
	return m
}

// self: the value of the receiver
func (c *Ctx) self(fn *ssa.Function) *Term {
	e := newEng(c.P)
	p := e.Params(fn)[0]
	T := fn.Signature.Recv().Type()
	if pt, ok := T.(*types.Pointer); ok {
		return e.load(newState(), p, pt.Elem())
	}
	return p
}

// before: the field of the receiver when the method is called
func (m *memFile) before(c *Ctx, fn *ssa.Function, i int) *Term {
	e := newEng(c.P)
	p := e.Params(fn)[0]
	if _, ok := fn.Signature.Recv().Type().(*types.Pointer); ok {
		return e.load(newState(), tFaddr(p, types.NewPointer(m.T), i), m.st.Field(i).Type())
	}
	return tField(p, m.T, i)
}

// after: the field of the receiver when the method returns
func (m *memFile) after(c *Ctx, fn *ssa.Function, o *Outcome, i int) *Term {
	e := newEng(c.P)
	p := e.Params(fn)[0]
	if _, ok := fn.Signature.Recv().Type().(*types.Pointer); !ok {
		return tField(p, m.T, i)
	}
	return e.load(o.St, tFaddr(p, types.NewPointer(m.T), i), m.st.Field(i).Type())
}

func (m *memFile) name(i int) string { return m.st.Field(i).Name() }

// calls of an outcome, pure ones aside
func calls(evs []*Event) (l []*Event) {
	every(evs, func(ev *Event, _ *Trace) {
		switch ev.Kind {
		case "call", "invoke", "dyn", "rec", "go", "prim":
			if !ev.Pure {
				l = append(l, ev)
			}
		}
	})
	return
}

func named(evs []*Event, names ...string) (l []*Event) {
	for _, ev := range evs {
		for _, n := range names {
			if ev.Name == n {
				l = append(l, ev)
			}
		}
	}
	return
}

// ---- C15 ----

func c15(c *Ctx) {
	m := c.memFile()
	if m == nil {
		return
	}
	n := 0
	if fn := c.method("pkging/mem", "File", "Write"); fn != nil {
		k := "mem.File.Write"
		p := newEng(c.P).Params(fn)
		w0 := m.before(c, fn, m.writer)
		for _, o := range c.run(fn) {
			n++
			pos := o.where(fn)
			if o.Panic != nil {
				c.check("write-panic", k, pos, false, "may panic")
				continue
			}
			ev := calls(o.St.ev)
			ws := named(ev, "(*bytes.Buffer).Write", "(io.Writer).Write", "(io.ReadWriter).Write")
			if !c.check("write-once", k, pos, len(ws) == 1, "writes %d times (%s)", len(ws), cond(o.St.facts)) {
				continue
			}
			w := ws[0]
			c.check("write-all", k, w.pos(), w.Args[1] == p[1], "writes %v", w.Args[1])
			c.check("write-result", k, pos, len(o.Ret) == 2 && o.Ret[0] == w.results()[0] && o.Ret[1] == w.results()[1], "returns %v", o.Ret)
			w1 := m.after(c, fn, o, m.writer)
			buf := stripIface(w.Args[0])
			if o.St.facts.isNil(w0) {
				fresh := buf.Op == "alloc"
				for _, e := range ev {
					if e.Name == "bytes.NewBuffer" && e.Res == buf && len(e.Args) == 1 {
						fresh = fresh || emptyList(e.Args[0])
					}
				}
				c.check("write-buffer", k, w.pos(), fresh && stripIface(w1) == buf, "the first write goes to %v, kept is %v", buf, w1)
			} else {
				c.check("write-appends", k, w.pos(), buf == w0 && w1 == w0, "a further write goes to %v, kept is %v", buf, w1)
			}
			for _, e := range ev {
				if e == w {
					continue
				}
				c.check("write-only", k, e.pos(), !touches(e, buf), "does %s on what was written", e.Name)
			}
			for _, i := range []int{m.data, m.info, m.path, m.here, m.reader} {
				c.check("write-keeps", k, pos, m.after(c, fn, o, i) == m.before(c, fn, i), "changes the %s of the file to %v before it is closed", m.name(i), m.after(c, fn, o, i))
			}
			c.keepsInfo(k, fn, o, m)
		}
	}
	if fn := c.method("pkging/mem", "File", "Close"); fn != nil {
		k := "mem.File.Close"
		w0 := m.before(c, fn, m.writer)
		r0 := m.before(c, fn, m.reader)
		published := 0
		for _, o := range c.run(fn) {
			pos := o.where(fn)
			if c.notBytesReader(o, r0) {
				continue
			}
			n++
			if o.Panic != nil {
				c.check("close-panic", k, pos, false, "may panic")
				continue
			}
			c.check("close-succeeds", k, pos, o.St.facts.isNil(o.Ret[0]) || o.Ret[0] == tNil, "returns %v", o.Ret)
			for _, i := range []int{m.reader, m.writer} {
				x := m.after(c, fn, o, i)
				c.check("close-ends-"+map[int]string{m.reader: "reading", m.writer: "writing"}[i], k, pos, x == tNil || o.St.facts.isNil(x), "leaves %s = %v (%s)", m.name(i), x, cond(o.St.facts))
			}
			for _, i := range []int{m.path, m.here, m.owner} {
				c.check("close-keeps", k, pos, m.after(c, fn, o, i) == m.before(c, fn, i), "changes the %s of the file", m.name(i))
			}
			d0, d1 := m.before(c, fn, m.data), m.after(c, fn, o, m.data)
			if o.St.facts.isNil(w0) {
				c.check("close-unwritten-content", k, pos, d1 == d0, "changes the content of a file that was not written to to %v", d1)
				c.check("close-unwritten-info", k, pos, m.after(c, fn, o, m.info) == m.before(c, fn, m.info), "changes the info of a file that was not written to")
				c.keepsInfo(k, fn, o, m)
				continue
			}
			if !c.check("close-decides", k, pos, o.St.facts.notNil(w0), "does not depend on whether the file was written to (%s)", cond(o.St.facts)) {
				continue
			}
			published++
			// all that was written
			got := map[*Term]bool{}
			reads := map[*Event]bool{}
			for _, ev := range o.St.ev {
				if len(ev.Args) == 0 || stripIface(ev.Args[0]) != w0 {
					continue
				}
				switch ev.Name {
				case "(*bytes.Buffer).Bytes":
					got[ev.results()[0]] = true
					reads[ev] = true
				case "(*bytes.Buffer).Len", "(*bytes.Buffer).Cap", "(*bytes.Buffer).String":
					reads[ev] = true
				}
			}
			full := func(t *Term) bool {
				if got[t] {
					return true
				}
				// a copy of it: append(nil, b...)
				if t.Op == "append" && len(t.A) == 2 && (t.A[0] == tNil || t.A[0].isZero() || t.A[0].Op == "list" && len(t.A[0].A) == 0) {
					x := t.A[1]
					return x.Op == "spread" && got[x.A[0]]
				}
				return false
			}
			c.check("close-publishes", k, pos, full(d1), "the content becomes %v", d1)
			for _, ev := range o.St.ev {
				if (ev.Kind == "call" || ev.Kind == "invoke") && !reads[ev] && !ev.Pure && touches(ev, w0) {
					c.check("close-complete", k, ev.pos(), false, "does %s on what was written", ev.Name)
				}
			}
			// size and time
			info := m.after(c, fn, o, m.info)
			size := c.infoField(o.St, info, "Size")
			ok := false
			if size != nil {
				length := func(x *Term) bool {
					for x.Op == "conv" {
						x = x.A[0]
					}
					if x.Op == "len" && (x.A[0] == d1 || full(x.A[0])) || x == tLen(d1) {
						return true
					}
					for ev := range reads {
						if ev.Name == "(*bytes.Buffer).Len" && ev.results()[0] == x {
							return true
						}
					}
					return false
				}
				ok = length(size)
				// or it is known to be that already
				for _, t := range o.St.facts.ord {
					if t.Op == "eq" && o.St.facts.m[t] {
						for i := range t.A {
							ok = ok || o.St.facts.find(t.A[i]) == o.St.facts.find(size) && length(t.A[1-i])
						}
					}
				}
			}
			c.check("close-size", k, pos, ok, "the size becomes %v for the content %v", size, d1)
			mt := c.infoField(o.St, info, "ModTime")
			now := false
			for _, ev := range o.St.ev {
				if ev.Name == "time.Now" && mt != nil {
					x := mt
					for x.Op == "conv" {
						x = x.A[0]
					}
					now = now || x == ev.results()[0]
				}
			}
			c.check("close-time", k, pos, now, "the modification time becomes %v", mt)
			for _, f := range []string{"Name", "Mode", "IsDir", "Sys"} {
				x, y := c.infoField(o.St, info, f), c.infoField(newState(), m.before(c, fn, m.info), f)
				c.check("close-keeps-info", k, pos, x == y && x != nil, "the %s of the info becomes %v", f, x)
			}
		}
		c.atLeast("ways Close publishes what was written", published, 1)
	}
	c.createHandles()
	c.atLeast("paths of Write and Close", n, 4)
}

// infoField: an attribute of the file info that the term points to
func (c *Ctx) infoField(st *State, info *Term, name string) *Term {
	s := c.structOf(st, info)
	if s == nil {
		T := deref(info.T)
		if T == nil {
			return nil
		}
		s = newEng(c.P).load(st, info, T)
	}
	return detail(s, name)
}

// keepsInfo: nothing is written through the file info
func (c *Ctx) keepsInfo(k string, fn *ssa.Function, o *Outcome, m *memFile) {
	i0 := m.before(c, fn, m.info)
	every(o.St.ev, func(ev *Event, _ *Trace) {
		if ev.Kind == "store" && ev.Args[0] != i0 && ev.Args[0].contains(i0) {
			c.check("keeps-info", k, ev.pos(), false, "changes the file info")
		}
	})
}

// touches: the event gets the object
func touches(ev *Event, x *Term) bool {
	for _, a := range ev.Args {
		if a == x || stripIface(a) == x {
			return true
		}
	}
	return false
}

// notBytesReader: a path on which the reader is of a kind it never has
func (c *Ctx) notBytesReader(o *Outcome, r0 *Term) bool {
	for _, f := range o.St.facts.ord {
		if f.Op == "istype" && f.A[0] == r0 {
			is := o.St.facts.m[f]
			have := bytesReaderIs(f.T, f.S)
			if is != have {
				return true
			}
		}
	}
	return false
}

func bytesReaderIs(T types.Type, s string) bool {
	k := s
	if T != nil {
		k = short(T.String())
	}
	switch {
	case strings.Contains(k, "Closer"):
		return false
	case strings.Contains(k, "Seeker"), strings.Contains(k, "bytes.Reader"), strings.Contains(k, "io.Reader"), strings.Contains(k, "ReadSeeker"), strings.Contains(k, "WriterTo"):
		return true
	}
	return false
}

// createHandles: the handle Create returns is the stored file, so that what
// Close publishes is what is opened later.
func (c *Ctx) createHandles() {
	fn, p, outs := c.memOp("Create")
	if fn == nil {
		return
	}
	n := 0
	for _, name := range []string{"/x", "o:/x", "/a/b/new"} {
		t := newTable(c, createTree)
		t.bodies = c.memBodies("MkdirAll")
		o, t, v := t.one(outs, t.env().with(p[1], name))
		if o == nil {
			c.check("decided", "mem.Create", fn.Pos(), false, "cannot tell what is done for %s: %s", name, strings.Join(t.why, "; "))
			continue
		}
		n++
		x := t.objs[keyOf(name)]
		e, _ := v.eval(o.err(fn))
		c.check("returns-stored", "mem.Create", o.where(fn), isNilVal(e) && x != nil && stripIface(o.Ret[0]) == x.alloc, "Create(%q) returns %v, which is not what it stored", name, o.Ret[0])
	}
	c.atLeast("created handles", n, 3)
	// nothing was written to it yet, also if there was such a file before
	m := c.memFile()
	if m == nil {
		return
	}
	n = 0
	for _, o := range outs {
		if o.Panic != nil || len(o.Ret) != 2 || o.Ret[0] == tNil || o.St.facts.notNil(o.Ret[1]) {
			continue
		}
		n++
		h := stripIface(o.Ret[0])
		x := (*Term)(nil)
		if h.Op == "alloc" {
			x = c.structOf(o.St, h)
		}
		if !c.check("starts-empty", "mem.Create", o.where(fn), x != nil && x.Op == "struct" && types.Identical(x.T, m.T), "%s: the handle is %s, to which others may have written", cond(o.St.facts), h) {
			continue
		}
		for _, i := range []int{m.data, m.writer, m.reader} {
			v := x.A[i]
			empty := v.isZero() || v == tNil || o.St.facts.isNil(v) || tLen(v) == tInt(0) || v.Op == "list" && len(v.A) == 0 || v.Op == "alloc" || v.Op == "res" && i != m.data
			c.check("starts-empty", "mem.Create", o.where(fn), empty, "%s: the %s of the new file is %s", cond(o.St.facts), m.name(i), v)
		}
	}
	c.atLeast("ways to create a file", n, 1)
	c.openedContent(m)
}

// openedContent: what is read is what was written when the file was closed
func (c *Ctx) openedContent(m *memFile) {
	fn := c.method("pkging/mem", "Pkger", "Open")
	if fn == nil {
		return
	}
	n := 0
	for _, o := range c.run(fn) {
		if o.Panic != nil || len(o.Ret) != 2 || o.Ret[0] == tNil || o.St.facts.notNil(o.Ret[1]) {
			continue
		}
		x := c.structOf(o.St, stripIface(o.Ret[0]))
		if x == nil || x.Op != "struct" || !types.Identical(x.T, m.T) {
			continue
		}
		n++
		d := copyOf(o.St.ev, x.A[m.data])
		ok := (d.Op == "deref" || d.Op == "field") && attrOf(d) == m.name(m.data)
		if ev := eventOf(o.St.ev, d); ev != nil && len(ev.Args) == 1 && strings.HasSuffix(ev.Name, ".Clone") {
			ok = attrOf(ev.Args[0]) == m.name(m.data)
		}
		c.check("closed-content", "mem.Open", o.where(fn), ok, "%s: the content is %s, not what the file was closed with", cond(o.St.facts), d)
	}
	c.atLeast("ways to open a file", n, 1)
}

// ---- C16 ----

func c16(c *Ctx) {
	m := c.memFile()
	if m == nil {
		return
	}
	n := c.readerStores(m)
	for _, name := range []string{"Read", "Seek"} {
		fn := c.method("pkging/mem", "File", name)
		if fn == nil {
			continue
		}
		k := "mem.File." + name
		p := newEng(c.P).Params(fn)
		r0, d0, i0 := m.before(c, fn, m.reader), m.before(c, fn, m.data), m.before(c, fn, m.info)
		fresh, old, dirs := 0, 0, 0
		isDir := c.infoField(newState(), i0, "IsDir")
		for _, o := range c.run(fn) {
			pos := o.where(fn)
			if c.notBytesReader(o, r0) {
				continue
			}
			n++
			f := o.St.facts
			if o.Panic != nil {
				c.check("read-panic", k, pos, false, "may panic")
				continue
			}
			for _, i := range []int{m.data, m.info, m.path, m.here, m.writer} {
				c.check("read-keeps", k, pos, m.after(c, fn, o, i) == m.before(c, fn, i), "changes the %s of the file to %v", m.name(i), m.after(c, fn, o, i))
			}
			c.keepsInfo(k, fn, o, m)
			ops := named(calls(o.St.ev), "(io.Reader)."+name, "(io.Seeker)."+name, "(io.ReadSeeker)."+name, "(*bytes.Reader)."+name)
			dir, known := f.decide(isDir)
			if name == "Read" && known && dir && !f.isNil(i0) {
				dirs++
				c.check("read-directory", k, pos, len(ops) == 0 && f.notNil(o.err(fn)), "reading a directory returns %v", o.Ret)
				continue
			}
			if name == "Read" && !f.isNil(i0) {
				c.check("read-directory", k, pos, known && !dir, "reads without looking whether it is a directory (%s)", cond(f))
			}
			if !c.check("read-once", k, pos, len(ops) == 1, "does %d %s operations (%s)", len(ops), name, cond(f)) {
				continue
			}
			op := ops[0]
			same := len(op.Args) == len(p)
			for i := 1; i < len(p) && same; i++ {
				same = op.Args[i] == p[i]
			}
			c.check("read-args", k, op.pos(), same, "does %s with %v", op.Name, op.Args[1:])
			ok := len(o.Ret) == 2 && o.Ret[0] == op.results()[0] && o.Ret[1] == op.results()[1]
			c.check("read-result", k, pos, ok, "returns %v instead of the results of %s", o.Ret, op.Name)
			r := stripIface(op.Args[0])
			r1 := m.after(c, fn, o, m.reader)
			if f.isNil(r0) {
				fresh++
				c.check("read-start", k, op.pos(), isReaderOf(o.St.ev, r, d0) && stripIface(r1) == r, "starts with %v, kept is %v", r, r1)
			} else {
				old++
				c.check("read-position", k, op.pos(), r == r0 && r1 == r0, "goes on with %v, kept is %v (%s)", r, r1, cond(f))
			}
			for _, e := range calls(o.St.ev) {
				if e != op {
					c.check("read-only", k, e.pos(), !touches(e, r) && !touches(e, r1), "does %s on the reader", e.Name)
				}
			}
		}
		c.atLeast(name+" from the start", fresh, 1)
		c.atLeast(name+" from the position", old, 1)
		if name == "Read" {
			c.atLeast("Read of a directory", dirs, 1)
		}
	}
	c.atLeast("paths of Read and Seek", n, 6)
}

// isReaderOf: bytes.NewReader of the content
func isReaderOf(evs []*Event, r, data *Term) bool {
	ok := false
	every(evs, func(ev *Event, _ *Trace) {
		if ev.Name == "bytes.NewReader" && len(ev.results()) == 1 && ev.results()[0] == r && ev.Args[0] == data {
			ok = true
		}
	})
	return ok
}

// readerStores: the reader of a file is never anything but a byte reader of
// the file's own content
func (c *Ctx) readerStores(m *memFile) int {
	n := 0
	c.memFuncs(func(fn *ssa.Function, o *Outcome) {
		every(o.St.ev, func(ev *Event, tr *Trace) {
			if ev.Kind != "store" {
				return
			}
			a := ev.Args[0]
			if a.Op != "faddr" || a.X != m.reader || !isNamed(deref(a.A[0].T), modPath+"/pkging/mem", "File") {
				return
			}
			n++
			v := stripIface(ev.Args[1])
			ok := v == tNil || v.isZero()
			if !ok {
				every(o.St.ev, func(e *Event, _ *Trace) {
					if e.Name == "bytes.NewReader" && e.results()[0] == v {
						d := e.Args[0]
						// data of the same file
						ok = ok || d.Op == "field" && d.S == m.name(m.data)
						if mv, has := o.St.mem[tFaddr(a.A[0], a.A[0].T, m.data)]; has && mv == d {
							ok = true
						}
					}
				})
			}
			c.check("reader-kind", fnName(fn), ev.pos(), ok, "the reader of a file becomes %v", ev.Args[1])
		})
	})
	return n
}

// memFuncs: all paths of all functions of the in-memory implementation
func (c *Ctx) memFuncs(f func(fn *ssa.Function, o *Outcome)) {
	for _, fn := range c.P.funcs(func(p string) bool { return p == modPath+"/pkging/mem" }) {
		if fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		for _, o := range c.run(fn) {
			f(fn, o)
		}
	}
}

// ---- C17 ----

func c17(c *Ctx) {
	c.mapsSpec()
	n := c.memReaddir()
	if fn := c.method("pkging/stdos", "File", "Readdir"); fn != nil {
		k := "stdos.File.Readdir"
		p := newEng(c.P).Params(fn)
		for _, o := range c.run(fn) {
			n++
			ops := calls(o.St.ev)
			pos := o.where(fn)
			if !c.check("forwards", k, pos, o.Panic == nil && len(ops) == 1 && ops[0].Name == "(*os.File).Readdir", "does %d operations", len(ops)) {
				continue
			}
			op := ops[0]
			own := op.Args[0].Op == "field" && rootParam(op.Args[0]) == p[0]
			c.check("forwards", k, op.pos(), own && op.Args[1] == p[1], "does %s(%v)", op.Name, op.Args)
			r := op.results()
			ok := o.Ret[0] == r[0] && o.Ret[1] == r[1]
			if !ok && o.Ret[0] == r[0] {
				ok = same(o.St.facts, o.Ret[1], r[1])
			}
			c.check("forwards-result", k, pos, ok, "returns %v", o.Ret)
		}
	}
	c.atLeast("listings decided", n, 50)
}

func (c *Ctx) memReaddir() int {
	fn := c.method("pkging/mem", "File", "Readdir")
	m := c.memFile()
	if fn == nil || m == nil {
		return 0
	}
	k := "mem.File.Readdir"
	p := newEng(c.P).Params(fn)
	outs := c.run(fn)
	n := 0
	i0 := m.before(c, fn, m.info)
	isDir := c.infoField(newState(), i0, "IsDir")
	var seqs [][]int64
	vals := []int64{-1, 0, 1, 2, 3, 100}
	for _, a := range vals {
		for _, b := range vals {
			for _, d := range vals {
				seqs = append(seqs, []int64{a, b, d})
			}
		}
	}
	seqs = append(seqs, []int64{1, 1, 1, 1, 1, 1, 1, 1, 1}, []int64{2, 2, 2, 2, 2}, []int64{3, 1, 3, 1, 1})
	consts := constantsOf(outs)
	for _, x := range consts.near(vals...)[len(vals):] {
		seqs = append(seqs, []int64{x, x, x}, []int64{1, x, 0})
	}
	tree := consts.with(classTree)
	type listing struct {
		root string
		kind kind
	}
	var roots []listing
	for i, size := range consts.kinds() {
		for _, root := range []string{"m:/a/b", "m:/a", "m:/", "o:/a", "m:/a/e", "m/x:/a/b", "m:/e"} {
			if _, has := tree[keyOf(root)]; has && (i == 0 || root == "m:/a/b" || root == "m:/a/e") {
				roots = append(roots, listing{root, size})
			}
		}
	}
	for _, r := range roots {
		root, size := r.root, r.kind
		key := keyOf(root)
		var all []vp
		for x := range tree {
			if withinKey(x, key) {
				all = append(all, x)
			}
		}
		diskOrder(all)
		var walk []vInfo
		var kids []string
		for _, x := range all {
			walk = append(walk, vInfo{x.String(), tree[x].dir, size})
			if x != key && path.Dir(x.name) == key.name {
				kids = append(kids, x.String())
			}
		}
		for i, seq := range seqs {
			if size != (kind{3, 0}) && i%17 > 0 || len(all) > 30 && i%5 > 0 && i < 216 {
				continue
			}
			// the state of the handle between the calls
			state := map[int]interface{}{}
			left := kids
			failed := false
			for _, count := range seq {
				if failed {
					break
				}
				n++
				what := fmt.Sprintf("Readdir(%d) in %v of %s", count, seq, root)
				t := newTable(c, tree)
				t.kind = size
				t.walk = walk
				t.walkOf = key.String()
				v := t.env().with(p[1], count, isDir, true, i0, vErr("ptr"))
				for i := 0; i < m.st.NumFields(); i++ {
					f := m.before(c, fn, i)
					switch {
					case i == m.path:
						v[f] = key.val()
					case i == m.info || i == m.here || i == m.owner:
					default:
						if x, ok := state[i]; ok {
							v[f] = x
						} else if z := tZero(m.st.Field(i).Type()); z != nil {
							if x, ok := v.eval(z); ok {
								v[f] = x
							}
						}
					}
				}
				v0 := v
				o, t, v := t.one(outs, v)
				if !c.check("decided", k, fn.Pos(), o != nil && len(t.why) == 0, "%s: cannot tell what is returned: %s", what, strings.Join(t.why, "; ")) {
					failed = true
					continue
				}
				_ = v0
				pos := o.where(fn)
				e, ok1 := v.eval(o.err(fn))
				x, ok2 := v.eval(o.Ret[0])
				if isNilVal(x) {
					x = vList(nil)
				}
				l, ok3 := x.(vList)
				if !c.check("decided-result", k, pos, ok1 && ok2 && ok3, "%s returns %v", what, o.Ret) {
					failed = true
					continue
				}
				want := left
				if count > 0 && int64(len(want)) > count {
					want = want[:count]
				}
				left = left[len(want):]
				var got []string
				for _, y := range l {
					if vi, ok := y.(vInfo); ok {
						got = append(got, vi.name)
					} else {
						got = append(got, fmt.Sprint(y))
					}
				}
				c.check("lists", k, pos, strings.Join(got, " ") == strings.Join(want, " "), "%s returns %v instead of %v", what, got, want)
				if count > 0 && len(want) == 0 {
					c.check("lists-end", k, pos, e == vErr("io.EOF"), "%s returns the error %v at the end", what, e)
				} else {
					c.check("lists-error", k, pos, isNilVal(e), "%s returns the error %v", what, e)
				}
				for i := 0; i < m.st.NumFields(); i++ {
					if i == m.path || i == m.info || i == m.here || i == m.owner {
						continue
					}
					f := m.after(c, fn, o, i)
					if y, ok := v.eval(f); ok {
						state[i] = y
					} else if f == m.before(c, fn, i) {
						state[i] = unk{}
					} else {
						c.check("decided-state", k, pos, false, "%s: cannot tell the %s of the handle afterwards (%v)", what, m.name(i), f)
						failed = true
					}
				}
			}
		}
	}
	// of a file, and after a failed walk
	for _, o := range outs {
		if o.Panic != nil {
			c.check("readdir-panic", k, o.where(fn), false, "may panic (%s)", cond(o.St.facts))
			continue
		}
		f := o.St.facts
		if dir, known := f.decide(isDir); known && !dir && !f.isNil(i0) {
			c.check("not-a-directory", k, o.where(fn), f.notNil(o.err(fn)), "of a file returns %v", o.Ret)
		}
	}
	t := newTable(c, classTree)
	t.walkOf = "m:/az"
	t.walk = []vInfo{{"m:/az", false, kind{size: 3}}}
	v := t.env().with(p[1], int64(-1), isDir, false, i0, vErr("ptr"), m.before(c, fn, m.path), vp{"m", "/az"}.val())
	for i := 0; i < m.st.NumFields(); i++ {
		if i == m.path || i == m.info || i == m.here || i == m.owner {
			continue
		}
		if x, ok := v.eval(tZero(m.st.Field(i).Type())); ok {
			v[m.before(c, fn, i)] = x
		}
	}
	o, t, w := t.one(outs, v)
	if c.check("decided", k, fn.Pos(), o != nil, "cannot tell what is returned for a file: %s", strings.Join(t.why, "; ")) {
		e, ok := w.eval(o.err(fn))
		c.check("not-a-directory", k, o.where(fn), ok && !isNilVal(e), "of a file returns %v", o.Ret)
	}
	return n
}

func init() {
	register("C15", "provenance of the buffer, content, size and time of a file over all paths of Write and Close", c15,
		"bytes.Buffer appends what is written to it, and Bytes returns all of it")
	register("C16", "provenance of the reader and of the results over all paths of Read and Seek; all stores of a reader in the package", c16,
		"bytes.Reader reads and seeks as documented")
	register("C17", "path summaries of Readdir over classes of entries (the directory, child, deeper, file, directory) through the contract of Walk, and over sequences of counts below, at and above what is left", c17,
		"Walk visits as C13 says", "os.File.Readdir works as documented")
}
