package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lookups of an implementation
var readOps = []string{"Open", "Stat", "Walk", "Info", "Current", "Parse"}

// writeOps of an implementation
var writeOps = map[string]bool{"Create": true, "MkdirAll": true, "Remove": true, "RemoveAll": true, "Add": true}

// holds reports whether the term, or a part of it, satisfies f.
func (t *Term) any(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.A {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// fieldIs: is t a read of field i of the type
func fieldIs(t *Term, T types.Type, i int) bool {
	switch t.Op {
	case "field":
		return t.X == i && types.Identical(t.A[0].T, T)
	case "deref":
		a := t.A[0]
		return a.Op == "faddr" && a.X == i && types.Identical(deref(a.A[0].T), T)
	}
	return false
}

// aliasing: is it a slice of the bytes of field i of T
func sliceOf(t *Term, T types.Type, i int) bool {
	for {
		switch t.Op {
		case "slice", "append", "iface", "conv", "spread", "iaddr":
			if t.Op == "conv" {
				if b, ok := t.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					return false
				}
			}
			if len(t.A) == 0 {
				return false
			}
			t = t.A[0]
			continue
		}
		return fieldIs(t, T, i)
	}
}

// keepsBytes: functions that do not change, nor keep, the bytes they are
// given, or keep them for reading only
func keepsBytes(ev *Event) bool {
	n := ev.Name
	switch {
	case n == "bytes.NewBuffer", n == "bytes.ToValidUTF8", n == "bytes.Trim":
		return false
	case strings.HasPrefix(n, "bytes."), strings.HasPrefix(n, "encoding/json."), strings.HasPrefix(n, "fmt."), strings.HasPrefix(n, "strings."),
		strings.HasPrefix(n, "(*bytes.Reader)."), strings.HasPrefix(n, "crypto/"), strings.HasPrefix(n, "hash/"):
		return true
	case strings.HasSuffix(n, ").Write"), strings.HasSuffix(n, ".Encode"), strings.HasSuffix(n, "EncodeToString"):
		return true
	}
	return false
}

// sharedWrites reports what a function changes that others can see. allow
// tells which targets are the caller's own.
func (c *Ctx) sharedWrites(k string, fn *ssa.Function, m *memFile, allow func(o *Outcome, ev *Event) bool) (looked int) {
	for _, o := range c.run(fn) {
		looked++
		every(o.St.ev, func(ev *Event, tr *Trace) {
			switch ev.Kind {
			case "prim":
				c.check("no-store", k, ev.pos(), !strings.HasSuffix(ev.Name, ".Store") && !strings.HasSuffix(ev.Name, ".Delete"), "%s changes the store (%s)", k, ev.Name)
			case "store":
				r := rootOf(ev.Args[0])
				ok := r.Op == "alloc" || allow != nil && allow(o, ev)
				c.check("no-write", k, ev.pos(), ok, "%s assigns %v, which is not its own", k, ev.Args[0])
			case "mapupdate", "mapdelete":
				c.check("no-map-write", k, ev.pos(), ev.Args[0].Op == "mkmap", "%s changes the map %v", k, ev.Args[0])
			case "go":
				c.check("no-goroutine", k, ev.pos(), false, "%s starts a goroutine", k)
			case "builtin":
				if ev.Name == "copy" && len(ev.Args) > 0 {
					d := ev.Args[0]
					for d.Op == "slice" {
						d = d.A[0]
					}
					ok := d.Op == "alloc" || d.Op == "list" || d.Op == "app" || d.Op == "mkslice" || d.Op == "append"
					c.check("no-overwrite", k, ev.pos(), ok && !sliceOf(ev.Args[0], m.T, m.data), "%s copies into %v", k, ev.Args[0])
				}
			case "invoke", "call", "rec", "dyn":
				name := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
				if ev.Kind == "invoke" && len(ev.Args) > 0 && isPkger(ev.Args[0].T) || strings.HasPrefix(ev.Name, "(*pkging/mem.Pkger).") {
					c.check("reads-only", k, ev.pos(), !writeOps[name], "%s calls %s", k, ev.Name)
				}
				for _, a := range ev.args() {
					if sliceOf(stripIface(a), m.T, m.data) {
						c.check("content-kept", k, ev.pos(), keepsBytes(ev), "%s hands the stored content to %s, which may change it", k, ev.Name)
					}
				}
			}
			for _, a := range append(append([]*Term{}, ev.Args...), ev.Res) {
				if a != nil && a.any(func(t *Term) bool { return t.Op == "append" && sliceOf(t.A[0], m.T, m.data) }) {
					c.check("content-append", k, ev.pos(), false, "%s appends to the stored content, which others share", k)
				}
			}
		})
		for _, r := range o.Ret {
			c.check("content-append", k, o.where(fn), !r.any(func(t *Term) bool { return t.Op == "append" && sliceOf(t.A[0], m.T, m.data) }), "%s appends to the stored content", k)
		}
	}
	return
}

func c11(c *Ctx) {
	m := c.memFile()
	if m == nil {
		return
	}
	n := 0
	for _, op := range append([]string{"MarshalJSON"}, readOps...) {
		if fn := c.method("pkging/mem", "Pkger", op); fn != nil {
			n += c.sharedWrites("mem."+op, fn, m, nil)
		}
	}
	for _, fn := range c.exportedMethods("pkging/mem", "Pkger") {
		if name := fn.Name(); !writeOps[name] && name != "UnmarshalJSON" {
			n += c.sharedWrites("mem."+name, fn, m, nil)
		}
	}
	n += c.infoReads(m)
	files := 0
	for _, fn := range c.exportedMethods("pkging/mem", "File") {
		fn := fn
		files++
		recv := newEng(c.P).Params(fn)[0]
		if strings.HasPrefix(fn.Name(), "Unmarshal") {
			continue
		}
		n += c.sharedWrites("mem.File."+fn.Name(), fn, m, func(o *Outcome, ev *Event) bool {
			r := rootOf(ev.Args[0])
			if r == recv {
				return true // a field of the handle
			}
			// the info of the handle is its own copy
			return fieldIs(r, m.T, m.info) && rootParam(r) == recv
		})
		// the position of a directory must not be shared either
	}
	c.atLeast("methods of the in-memory file", files, 10)
	c.atLeast("paths of reading functions", n, 25)

	// fields that using a handle changes
	moves := map[int]bool{}
	for _, fn := range c.exportedMethods("pkging/mem", "File") {
		if _, ok := fn.Signature.Recv().Type().(*types.Pointer); !ok || strings.HasPrefix(fn.Name(), "Unmarshal") {
			continue
		}
		for _, o := range c.run(fn) {
			for i := 0; i < m.st.NumFields(); i++ {
				if o.Panic == nil && m.after(c, fn, o, i) != m.before(c, fn, i) {
					moves[i] = true
				}
			}
		}
	}
	fn := c.method("pkging/mem", "Pkger", "Open")
	if fn == nil {
		return
	}
	k := "mem.Open"
	opened := 0
	for _, o := range c.run(fn) {
		if len(o.Ret) != 2 || o.Ret[0] == tNil || o.St.facts.notNil(o.Ret[1]) {
			continue
		}
		h := stripIface(o.Ret[0])
		at := o.where(fn)
		if !c.check("own-handle", k, at, h.Op == "alloc", "returns %v, which is not a handle of its own", h) {
			continue
		}
		opened++
		x := c.structOf(o.St, h)
		if !c.check("own-handle", k, at, x != nil && x.Op == "struct" && types.Identical(x.T, m.T), "returns %v", h) {
			continue
		}
		for i, v := range x.A {
			name := m.name(i)
			switch m.st.Field(i).Type().Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Map, *types.Slice, *types.Chan, *types.Signature:
				v = stripIface(v)
				switch i {
				case m.data:
					continue
				case m.owner:
					continue
				case m.info:
					c.check("own-info", k, at, v.Op == "alloc" || v.isZero() || o.St.facts.isNil(v), "the info of the handle is %v, which is that of the stored file", v)
				default:
					c.check("own-"+name, k, at, v.Op == "alloc" || v.isZero() || o.St.facts.isNil(v) || v.Op == "res", "the %s of the handle is %v: handles share it", name, v)
				}
			default:
				if moves[i] {
					c.check("starts-"+name, k, at, v.isZero(), "the handle starts with %s = %v, left by others", name, v)
				}
			}
		}
	}
	c.atLeast("ways to open a file", opened, 1)
	c.mapsSpec()
}

// ---- C25 ----

// hasLock: a value of the type must not be copied
func hasLock(T types.Type, depth int) bool {
	if depth > 6 {
		return false
	}
	if n, ok := types.Unalias(T).(*types.Named); ok && n.Obj().Pkg() != nil {
		p := n.Obj().Pkg().Path()
		if p == "sync" && n.Obj().Name() != "Locker" || p == "sync/atomic" {
			return true
		}
	}
	switch u := T.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasLock(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Array:
		return hasLock(u.Elem(), depth+1)
	}
	return false
}

func isLibrary(path string) bool {
	rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
	return !strings.HasPrefix(rel, "cmd/") && !strings.HasPrefix(rel, "pkging/pkgtest") && !strings.HasPrefix(rel, "examples")
}

// infoReads: an info that lookups return may be the one that is stored, which
// others have too; looking at it changes nothing
func (c *Ctx) infoReads(m *memFile) (n int) {
	for _, fn := range c.exportedMethods("pkging", "FileInfo") {
		if !strings.HasPrefix(fn.Name(), "Unmarshal") {
			n += c.sharedWrites("pkging.FileInfo."+fn.Name(), fn, m, nil)
		}
	}
	return
}

func c25(c *Ctx) {
	m := c.memFile()
	if m == nil {
		return
	}
	// lookups of both implementations write nothing that is shared
	n := c.infoReads(m)
	for _, pkg := range []string{"pkging/mem", "pkging/stdos"} {
		for _, op := range readOps {
			fn := c.method(pkg, "Pkger", op)
			if fn == nil {
				continue
			}
			k := pkg + "." + op
			for _, o := range c.run(fn) {
				n++
				var locks lockset
				every(o.St.ev, func(ev *Event, tr *Trace) {
					if locks.step(ev) {
						return
					}
					switch ev.Kind {
					case "store":
						r := rootOf(ev.Args[0])
						c.check("lookup-writes", k, ev.pos(), r.Op == "alloc" || locks.exclusive() || ev.Sub != nil, "%s assigns %v, which other goroutines use", k, ev.Args[0])
					case "mapupdate", "mapdelete":
						c.check("lookup-map", k, ev.pos(), ev.Args[0].Op == "mkmap" || locks.exclusive(), "%s changes the map %v", k, ev.Args[0])
					case "builtin":
						if ev.Name == "copy" || ev.Name == "delete" || ev.Name == "clear" {
							r := rootParam(rootOf(ev.Args[0]))
							c.check("lookup-copy", k, ev.pos(), r.Op != "param" && r.Op != "global" && r.Op != "stored", "%s writes into %v", k, ev.Args[0])
						}
					case "prim":
						c.check("lookup-delete", k, ev.pos(), !strings.HasSuffix(ev.Name, ".Delete"), "%s removes entries", k)
					}
				})
			}
		}
	}
	c.atLeast("paths of lookups", n, 30)

	c.guardedGlobals()
	c.noLockCopies()
	c.lazyFields()
	c.fieldKinds()
}

type lockset struct{ held map[*Term]string }

// step follows the operations of locks; true if the event is one
func (l *lockset) step(ev *Event) bool {
	op, ok := lockOp(ev.Name)
	if !ok || len(ev.Args) == 0 {
		return false
	}
	if l.held == nil {
		l.held = map[*Term]string{}
	}
	t := ev.Args[0].base()
	switch op {
	case "Lock":
		l.held[t] = "w"
	case "RLock":
		l.held[t] = "r"
	case "Unlock", "RUnlock":
		delete(l.held, t)
	}
	return true
}

func (l *lockset) exclusive() bool {
	for _, m := range l.held {
		if m == "w" {
			return true
		}
	}
	return false
}

// guardedGlobals: each package variable of the library is constant after
// initialisation, or synchronizes itself, or is used only with a lock held,
// and assigned only with the lock held exclusively.
func (c *Ctx) guardedGlobals() {
	type g struct {
		t *Term
		v *ssa.Global
	}
	mutable := map[*Term]*ssa.Global{}
	vars := 0
	var libfns []*ssa.Function
	for _, f := range c.P.all {
		if f.Pkg != nil && isLibrary(f.Pkg.Pkg.Path()) {
			libfns = append(libfns, f)
		}
	}
	for path, sp := range c.P.ssap {
		if !isLibrary(path) || !c.P.inModule(path) {
			continue
		}
		for _, mem := range sp.Members {
			v, ok := mem.(*ssa.Global)
			if !ok || strings.HasPrefix(v.Name(), "init$") || v.Name() == "_" {
				continue
			}
			vars++
			T := deref(v.Type())
			k := short(path) + "." + v.Name()
			written := c.P.mutableGlobals()[c.P.globalTerm(v)]
			for _, f := range libfns {
				if isInit(f) {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if w := globalWrite(in, v); w && !hasLock(T, 0) {
							written = true
						}
					}
				}
			}
			c.check("global", k, v.Pos(), true, "")
			if written && !hasLock(T, 0) {
				mutable[c.P.globalTerm(v)] = v
			}
		}
	}
	c.atLeast("package variables of the library", vars, 5)
	if len(mutable) == 0 {
		c.fail("instances", "package variables that change", token.NoPos, "none found, not even the active implementation")
		return
	}
	reads, writes := 0, 0
	for _, fn := range libfns {
		if fn.Parent() != nil || isInit(fn) || len(fn.Blocks) == 0 {
			continue
		}
		used := false
		for v := range mutable {
			used = used || c.reaches(fn, mutable[v], 3)
		}
		if !used || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		k := fnName(fn)
		for _, o := range c.run(fn) {
			var l lockset
			every(o.St.ev, func(ev *Event, tr *Trace) {
				if l.step(ev) {
					return
				}
				switch ev.Kind {
				case "globalload":
					if mutable[ev.Args[0]] != nil {
						reads++
						c.check("global-read", k+" "+short(ev.Args[0].S), ev.pos(), len(l.held) > 0, "%s is read without a lock although it is assigned elsewhere", short(ev.Args[0].S))
					}
				case "store":
					if r := rootOf(ev.Args[0]); mutable[r] != nil {
						writes++
						c.check("global-write", k+" "+short(r.S), ev.pos(), l.exclusive(), "%s is assigned without the exclusive lock", short(r.S))
					}
				}
			})
		}
	}
	// and all of them with the same lock: the one there is
	c.atLeast("uses of variables that change", reads+writes, 2)
}

// globalWrite: the instruction changes what the variable holds
func globalWrite(in ssa.Instruction, g *ssa.Global) bool {
	root := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return false
				}
				v = x.X
			default:
				return v == ssa.Value(g)
			}
		}
	}
	switch x := in.(type) {
	case *ssa.Store:
		return root(x.Addr)
	case *ssa.MapUpdate:
		return root(x.Map)
	}
	return false
}

// reaches: the function, or what it calls, uses the variable
func (c *Ctx) reaches(fn *ssa.Function, g *ssa.Global, depth int) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(g) {
					return true
				}
			}
			if depth > 0 {
				if cc, ok := in.(ssa.CallInstruction); ok {
					if f := cc.Common().StaticCallee(); f != nil && f != fn && f.Pkg != nil && c.P.inModule(f.Pkg.Pkg.Path()) && c.reaches(f, g, depth-1) {
						return true
					}
				}
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		if c.reaches(a, g, depth) {
			return true
		}
	}
	return false
}

// noLockCopies: no value with a lock, a once or a synchronized map in it is
// copied, for the copy would not be synchronized with the original
func (c *Ctx) noLockCopies() {
	n := 0
	for _, fn := range c.P.all {
		if fn.Pkg == nil || !isLibrary(fn.Pkg.Pkg.Path()) || fn.Synthetic != "" {
			continue
		}
		n++
		for _, p := range fn.Params {
			c.check("lock-parameter", fnName(fn), fn.Pos(), !hasLock(p.Type(), 0), "%s is given a copy of a %s, with the lock in it", fnName(fn), p.Type())
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && hasLock(u.Type(), 0) {
					c.check("lock-copy", fnName(fn), in.Pos(), false, "%s copies a %s, with the lock in it", fnName(fn), u.Type())
				}
			}
		}
	}
	c.atLeast("library functions", n, 120)
}

// lazyFields: a field of the synchronized maps that is assigned after
// construction is only used after the once, or with the lock.
func (c *Ctx) lazyFields() {
	type fld struct {
		T types.Type
		i int
	}
	inOnce := map[*ssa.Function]bool{}
	syncs := map[*ssa.Function]bool{} // a call of it synchronizes
	isSync := func(in ssa.Instruction) bool {
		cc, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if _, isDefer := in.(*ssa.Defer); isDefer {
			return false
		}
		f := cc.Common().StaticCallee()
		if f == nil {
			return false
		}
		s := f.String()
		if strings.HasPrefix(s, "(*sync.Once).Do") || strings.HasSuffix(s, "Mutex).Lock") || strings.HasSuffix(s, "Mutex).RLock") {
			return true
		}
		return syncs[f]
	}
	var fns []*ssa.Function
	for _, f := range c.P.all {
		if f.Pkg != nil && isLibrary(f.Pkg.Pkg.Path()) && len(f.Blocks) > 0 {
			fns = append(fns, f)
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cc, ok := in.(ssa.CallInstruction); ok {
					if g := cc.Common().StaticCallee(); g != nil && strings.HasPrefix(g.String(), "(*sync.Once).Do") {
						switch x := cc.Common().Args[1].(type) {
						case *ssa.MakeClosure:
							inOnce[x.Fn.(*ssa.Function)] = true
						case *ssa.Function:
							inOnce[x] = true
						}
					}
				}
			}
		}
	}
	// and the functions that only those call
	refs := map[*ssa.Function][]*ssa.Function{} // who calls it; nil: other use
	for _, f := range c.P.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					g, ok := (*o).(*ssa.Function)
					if !ok {
						continue
					}
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == *o {
						if inOnce[g] {
							continue
						}
					}
					if cc, ok := in.(*ssa.Call); ok && cc.Call.Value == *o && cc.Call.StaticCallee() == g {
						refs[g] = append(refs[g], f)
					} else {
						refs[g] = append(refs[g], nil)
					}
				}
			}
		}
	}
	for g := range inOnce {
		// a bound method: its wrapper calls it
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if cc, ok := in.(*ssa.Call); ok && g.Synthetic != "" {
					if m := cc.Call.StaticCallee(); m != nil {
						refs[m] = append(refs[m], g)
					}
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for g, from := range refs {
			if inOnce[g] || token.IsExported(g.Name()) {
				continue
			}
			ok := true
			for _, f := range from {
				ok = ok && f != nil && inOnce[f]
			}
			if ok {
				inOnce[g], again = true, true
			}
		}
	}
	// functions whose every return comes after a synchronization
	for again := true; again; {
		again = false
		for _, f := range fns {
			if syncs[f] {
				continue
			}
			ok, rets := true, 0
			for _, b := range f.Blocks {
				for i, in := range b.Instrs {
					if _, isRet := in.(*ssa.Return); isRet {
						rets++
						ok = ok && dominated(b, i, isSync)
					}
				}
			}
			if ok && rets > 0 {
				syncs[f] = true
				again = true
			}
		}
	}
	lazy := map[string]bool{}
	key := func(a *ssa.FieldAddr) string {
		T := deref(a.X.Type())
		return short(T.String()) + "." + T.Underlying().(*types.Struct).Field(a.Field).Name()
	}
	shared := func(T types.Type) bool {
		T = deref(T)
		n, ok := types.Unalias(T).(*types.Named)
		if !ok || n.Obj().Pkg() == nil {
			return false
		}
		return strings.HasSuffix(n.Obj().Pkg().Path(), "/internal/maps") || n.Obj().Name() == "Pkger" && isLibrary(n.Obj().Pkg().Path())
	}
	n := 0
	// a value that nobody else can have yet: made here, by a function that
	// was called, or by all the callers
	var made func(v ssa.Value, depth int) bool
	made = func(v ssa.Value, depth int) bool {
		if depth > 6 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			return made(x.X, depth+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if e != v && !made(e, depth+1) {
					return false
				}
			}
			return true
		case *ssa.Call, *ssa.Extract:
			i := 0
			if e, ok := v.(*ssa.Extract); ok {
				i, v = e.Index, e.Tuple
			}
			call, ok := v.(*ssa.Call)
			if !ok {
				return false
			}
			g := call.Call.StaticCallee()
			if g == nil || g.Pkg == nil || !isLibrary(g.Pkg.Pkg.Path()) || len(g.Blocks) == 0 {
				return false
			}
			n := 0
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
					if k, ok := r.Results[i].(*ssa.Const); ok && k.IsNil() {
						continue
					}
					n++
					if !made(r.Results[i], depth+1) {
						return false
					}
				}
			}
			return n > 0
		case *ssa.Parameter:
			f := x.Parent()
			k := -1
			for i, p := range f.Params {
				if p == x {
					k = i
				}
			}
			if token.IsExported(f.Name()) || f.Parent() != nil || k < 0 {
				return false
			}
			n := 0
			for _, g := range fns {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						for _, o := range in.Operands(nil) {
							if *o != ssa.Value(f) {
								continue
							}
							call, ok := in.(*ssa.Call)
							if !ok || call.Call.StaticCallee() != f || call.Call.Value != ssa.Value(f) || k >= len(call.Call.Args) || !made(call.Call.Args[k], depth+1) {
								return false
							}
							n++
						}
					}
				}
			}
			return n > 0
		}
		return false
	}
	fresh := func(v ssa.Value) bool { return made(v, 0) }
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if a, ok := st.Addr.(*ssa.FieldAddr); ok && shared(a.X.Type()) && !fresh(a.X) {
						lazy[key(a)] = true
					}
				}
			}
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				var a *ssa.FieldAddr
				write := false
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op == token.MUL {
						a, _ = x.X.(*ssa.FieldAddr)
					}
				case *ssa.Store:
					a, _ = x.Addr.(*ssa.FieldAddr)
					write = true
				}
				if a == nil || !shared(a.X.Type()) || fresh(a.X) || !lazy[key(a)] {
					continue
				}
				if strings.HasSuffix(f.Name(), "UnmarshalJSON") || f.Parent() != nil && f.Parent().Name() == "UnmarshalJSON" {
					continue // replaces everything, not a lookup
				}
				if strings.Contains(fnName(f), "mem.Pkger") && !write {
					// set by decoding only, before the implementation is handed out
					continue
				}
				n++
				ok := inOnce[f] || dominated(b, i, isSync)
				c.check("lazy-field", fnName(f)+" "+key(a), in.Pos(), ok, "%s uses %s, which is made on first use, without synchronization before", fnName(f), key(a))
			}
		}
	}
	c.count("uses of lazily made fields", n)
}

// dominated: some instruction that satisfies f comes before, on every way
// to the i-th instruction of the block
func dominated(b *ssa.BasicBlock, i int, f func(ssa.Instruction) bool) bool {
	for j := 0; j < i; j++ {
		if f(b.Instrs[j]) {
			return true
		}
	}
	for d := b.Idom(); d != nil; d = d.Idom() {
		for _, in := range d.Instrs {
			if f(in) {
				return true
			}
		}
	}
	return false
}

// fieldKinds: what the implementations keep is constant after construction,
// or a synchronized map: no plain map or slice that operations change
func (c *Ctx) fieldKinds() {
	n := 0
	for _, pkg := range []string{"pkging/mem", "pkging/stdos"} {
		T := c.P.typ(pkg, "Pkger")
		if T == nil {
			c.fail("anchor", pkg+".Pkger", 0, "type not found")
			continue
		}
		st := T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			n++
			k := pkg + ".Pkger." + st.Field(i).Name()
			// element writes to plain maps and slices of the implementation
			for _, f := range c.P.all {
				if f.Pkg == nil || !isLibrary(f.Pkg.Pkg.Path()) {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						mu, ok := in.(*ssa.MapUpdate)
						if !ok {
							continue
						}
						if u, ok := mu.Map.(*ssa.UnOp); ok {
							if a, ok := u.X.(*ssa.FieldAddr); ok && a.Field == i && types.Identical(deref(a.X.Type()), T) {
								locked := dominated(b, indexIn(b, in), func(x ssa.Instruction) bool {
									cc, ok := x.(ssa.CallInstruction)
									return ok && cc.Common().StaticCallee() != nil && strings.HasSuffix(cc.Common().StaticCallee().String(), "Mutex).Lock")
								})
								c.check("plain-map", k, in.Pos(), locked, "%s changes the map %s, which is not synchronized", fnName(f), k)
							}
						}
					}
				}
			}
			c.check("field", k, st.Field(i).Pos(), true, "")
		}
	}
	c.atLeast("fields of the implementations", n, 4)
}

func indexIn(b *ssa.BasicBlock, in ssa.Instruction) int {
	for i, x := range b.Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func init() {
	register("C11", "effects of the reading operations of the in-memory implementation and of its files, over all paths: no change of the store, of a stored file or of its content; the handle of Open has nothing in common with others that using it changes", c11,
		"bytes.Reader, json and fmt do not change the bytes they are given", "the functions a caller passes to Walk are not part of the operation")
	register("C25", "effects of the lookups over all paths (nothing shared is assigned), lock discipline of package variables, no copied locks, and once-before-use of the lazily made fields", c25,
		"sync.Map, sync.Once and the locks work", "the go tool's package cache in gobuffalo/here synchronizes itself")
}
