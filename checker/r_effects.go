package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func relPkg(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	p := ""
	if f.Pkg != nil {
		p = f.Pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		p = o.Pkg().Path()
	}
	if p == modPath {
		return ""
	}
	return strings.TrimPrefix(p, modPath+"/")
}

func inModule(c *Ctx, f *ssa.Function) bool {
	p := relPkg(f)
	return p == "" || !strings.Contains(p, ".")
}

func has(list string, s string) bool {
	for _, x := range strings.Fields(list) {
		if x == s {
			return true
		}
	}
	return false
}

// fileSafe: method of an interface whose receiver is a caller's writer
func writerMethod(name string) bool {
	return has("Write WriteString WriteByte WriteTo ReadFrom", name)
}

// declared functions of the packages, with their methods, closures aside
func (c *Ctx) declared(keep func(rel string) bool) (l []*ssa.Function) {
	for _, f := range c.P.all {
		if f.Parent() == nil && f.Synthetic == "" && keep(relPkg(f)) {
			l = append(l, f)
		}
	}
	return
}

// ---- C10 ----

func c10(c *Ctx) {
	g := newFx(c.P)
	memSide := func(rel string) bool {
		return has("pkging/mem pkging/embed internal/maps pkging", rel)
	}
	g.keep = func(caller, callee *ssa.Function, it types.Type, m string) bool {
		// justified below: what is in memory refers only to memory
		r := relPkg(callee)
		if rv := callee.Signature.Recv(); rv != nil {
			if n, ok := types.Unalias(deref(rv.Type())).(*types.Named); ok && n.Obj().Pkg() != nil {
				r = strings.TrimPrefix(n.Obj().Pkg().Path(), modPath+"/")
			}
		}
		return r != "pkging/stdos" && !strings.Contains(fnName(callee), "withPkger")
	}
	n, fns := 0, map[*ssa.Function]bool{}
	for _, fn := range c.declared(memSide) {
		name := fnName(fn)
		// adding files is what reads them; layers call what they are made of
		if fn.Name() == "Add" && relPkg(fn) == "pkging/mem" || strings.Contains(name, "withPkger") || strings.HasPrefix(fn.Name(), "init") {
			continue
		}
		// helpers of Add only
		if !exportedFn(fn) {
			continue
		}
		n++
		hits, seen := g.reach(fn, func(f *ssa.Function) bool {
			return f.Name() == "Add" && relPkg(f) == "pkging/mem" && false
		})
		for f := range seen {
			fns[f] = true
		}
		bad := 0
		for _, h := range hits {
			switch h.class {
			case "fs-read", "fs-write", "exec", "net", "chdir", "syscall", "unknown", "stdin", "other":
				bad++
				c.check("memory-only", name, h.pos, false, "reaches %s (%s): %s", h.what, h.class, h)
			case "dynamic":
				c.check("known-callee", name, h.pos, c.resolved(h), "calls %s, which cannot be resolved", h.what)
			}
		}
		c.check("memory-only", name, fn.Pos(), bad == 0, "touches more than memory")
	}
	for f := range fns {
		c.fns[f] = true
	}
	c.atLeast("functions on the in-memory side", n, 45)

	// what a file in memory refers to is in memory
	m := c.memFile()
	if m == nil {
		return
	}
	memPkger := types.NewPointer(c.P.typ("pkging/mem", "Pkger"))
	owners, readers, stored := 0, 0, 0
	for _, f := range c.P.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					a, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || !types.Identical(deref(a.X.Type()), m.T) {
						continue
					}
					switch a.Field {
					case m.owner:
						owners++
						c.check("owner-in-memory", fnName(f), in.Pos(), inMemory(x.Val, memPkger, m, m.owner), "%s lets a file in memory refer to %s", fnName(f), x.Val)
					case m.reader:
						readers++
						c.check("reader-in-memory", fnName(f), in.Pos(), bytesValue(x.Val), "%s lets a file in memory read from %s", fnName(f), x.Val)
					}
				case ssa.CallInstruction:
					callee := x.Common().StaticCallee()
					if callee == nil || relPkg(f) != "pkging/mem" || !strings.HasSuffix(callee.String(), "maps.Files).Store") {
						continue
					}
					stored++
					v := x.Common().Args[len(x.Common().Args)-1]
					ok := false
					if mi, is := v.(*ssa.MakeInterface); is {
						ok = types.Identical(mi.X.Type(), types.NewPointer(m.T))
					}
					c.check("stored-in-memory", fnName(f), in.Pos(), ok, "%s stores %s, which is not a file in memory", fnName(f), v)
				}
			}
		}
	}
	c.atLeast("assignments of the owner of a file", owners, 4)
	c.atLeast("assignments of the reader of a file", readers, 1)
	c.atLeast("files stored in memory", stored, 3)
}

func exportedFn(f *ssa.Function) bool {
	o := f.Object()
	if o == nil || !o.Exported() {
		return false
	}
	return true
}

// resolved: the function that is called is a parameter (the caller's) or
// was made by a function that was followed
func (c *Ctx) resolved(h hit) bool {
	for _, b := range h.in.Blocks {
		for _, in := range b.Instrs {
			cc, ok := in.(ssa.CallInstruction)
			if !ok || in.Pos() != h.pos || cc.Common().IsInvoke() {
				continue
			}
			if !callableKnown(cc.Common().Value, 0) {
				return false
			}
		}
	}
	return true
}

func callableKnown(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar, *ssa.MakeClosure, *ssa.Function, *ssa.Builtin:
		return true
	case *ssa.UnOp:
		switch y := x.X.(type) {
		case *ssa.Global, *ssa.FreeVar, *ssa.Alloc, *ssa.Parameter:
			_ = y
			return true
		}
		return false
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !callableKnown(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return callableKnown(x.X, d+1)
	case *ssa.Call:
		return x.Common().StaticCallee() != nil
	}
	return false
}

func inMemory(v ssa.Value, memPkger types.Type, m *memFile, field int) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return types.Identical(x.X.Type(), memPkger)
	case *ssa.Const:
		return x.Value == nil
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.FieldAddr); ok {
			return a.Field == field && types.Identical(deref(a.X.Type()), m.T)
		}
	case *ssa.Parameter:
		return types.Identical(x.Type(), memPkger)
	}
	return types.Identical(v.Type(), memPkger)
}

func bytesValue(v ssa.Value) bool {
	T := v.Type()
	if mi, ok := v.(*ssa.MakeInterface); ok {
		T = mi.X.Type()
	}
	if k, ok := v.(*ssa.Const); ok {
		return k.Value == nil
	}
	s := T.String()
	return strings.HasPrefix(s, "*bytes.") || strings.HasPrefix(s, "*strings.")
}

// ---- C26 ----

func c26(c *Ctx) {
	g := newFx(c.P)
	n := 0
	for _, fn := range c.P.all {
		rel := relPkg(fn)
		if !isLibrary(modPath+"/"+rel) || strings.HasPrefix(rel, "cmd/") {
			continue
		}
		n++
		c.fns[fn] = true
		k := fnName(fn)
		nd := g.node(fn)
		ok := true
		for _, s := range nd.sites {
			switch s.class {
			case "print":
				ok = false
				c.check("quiet", k, s.pos, false, "%s uses %s", k, s.what)
			case "goroutine":
				w := waits(fn)
				ok = ok && w
				c.check("no-goroutine", k, s.pos, w, "%s starts a goroutine and does not wait for it", k)
			}
		}
		for _, e := range nd.calls {
			if g.follow(e.to) {
				continue
			}
			for _, cl := range classify(e.to) {
				if has("print exit chdir setenv signal syscall", cl) {
					ok = false
					c.check("quiet", k, e.pos, false, "%s calls %s (%s)", k, short(e.to.String()), cl)
				}
			}
		}
		c.check("quiet", k, fn.Pos(), ok, "not quiet")
	}
	c.atLeast("library functions", n, 150)
}

// waits: every way out of the function comes after a wait for the goroutines
func waits(fn *ssa.Function) bool {
	isWait := func(in ssa.Instruction) bool {
		if cc, ok := in.(ssa.CallInstruction); ok {
			f := cc.Common().StaticCallee()
			return f != nil && strings.HasSuffix(f.String(), ".Wait")
		}
		u, ok := in.(*ssa.UnOp)
		return ok && u.Op == token.ARROW
	}
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			if _, ok := in.(*ssa.Return); ok && !dominated(b, i, isWait) {
				return false
			}
		}
	}
	return true
}

// ---- C27 ----

func c27(c *Ctx) {
	g := newFx(c.P)
	g.keep = func(caller, callee *ssa.Function, it types.Type, m string) bool {
		// a caller's writer is the caller's business
		return !writerMethod(m)
	}
	one := map[string]string{"Create": "os.Create os.OpenFile", "MkdirAll": "os.MkdirAll", "Remove": "os.Remove", "RemoveAll": "os.RemoveAll"}
	n := 0
	for _, fn := range c.declared(func(rel string) bool { return isLibrary(modPath + "/" + rel) }) {
		if strings.HasPrefix(fn.Name(), "init") {
			continue
		}
		rel := relPkg(fn)
		k := fnName(fn)
		n++
		hits, seen := g.reach(fn, nil)
		for f := range seen {
			c.fns[f] = true
		}
		allowed := ""
		if fn.Signature.Recv() != nil || rel == "" {
			if has(" pkging pkging/stdos", rel) || rel == "" {
				allowed = one[fn.Name()]
			}
		}
		if !exportedFn(fn) && rel == "pkging/stdos" {
			// a helper; its callers are looked at
			continue
		}
		bad := false
		for _, h := range hits {
			switch {
			case has("fs-write syscall", h.class):
				ok := has(allowed, h.what)
				bad = bad || !ok
				c.check("modifies", k, h.pos, ok, "%s modifies the file system: %s", k, h)
			case has("exec", h.class) && inModule(c, h.in):
				bad = true
				c.check("modifies", k, h.pos, false, "%s starts a process: %s", k, h)
			}
		}
		c.check("modifies", k, fn.Pos(), !bad, "modifies the file system")
	}
	c.atLeast("library functions", n, 110)
	// the four do it, in stdos itself
	for op, what := range one {
		fn := c.method("pkging/stdos", "Pkger", op)
		if fn == nil {
			continue
		}
		hits, _ := g.reach(fn, nil)
		found := false
		for _, h := range hits {
			found = found || has(what, h.what)
		}
		c.check("does", "stdos."+op, fn.Pos(), found, "does not reach %s", what)
	}

	// the command line tool
	cmds := 0
	for _, fn := range c.P.all {
		if fn.Parent() != nil || relPkg(fn) != "cmd/pkger/cmds" || fn.Name() != "Exec" {
			continue
		}
		cmds++
		k := fnName(fn)
		T := fn.Signature.Recv().Type().String()
		writer := strings.Contains(T, "packCmd") || strings.Contains(T, "listCmd")
		hits, seen := g.reach(fn, nil)
		for f := range seen {
			c.fns[f] = true
		}
		bad := false
		for _, h := range hits {
			if has("fs-write syscall exec", h.class) && inModule(c, h.in) {
				ok := writer && relPkg(h.in) == "cmd/pkger/cmds"
				bad = bad || !ok
				c.check("command-modifies", k, h.pos, ok, "%s modifies the file system: %s", k, h)
			}
		}
		c.check("command-modifies", k, fn.Pos(), !bad, "modifies the file system")
	}
	c.atLeast("commands", cmds, 7)
	sites := 0
	for _, fn := range c.P.all {
		if fn.Parent() != nil || relPkg(fn) != "cmd/pkger/cmds" || !exportedFn(fn) || has("Route Flags Name", fn.Name()) {
			continue
		}
		sites += c.ownFileOnly(fn)
	}
	c.atLeast("modifications by the command line tool", sites, 3)
	if main := c.fn("cmd/pkger", "main"); main != nil {
		for _, f := range c.P.all {
			if relPkg(f) != "cmd/pkger" {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					cc, ok := in.(ssa.CallInstruction)
					if !ok || cc.Common().StaticCallee() == nil {
						continue
					}
					callee := cc.Common().StaticCallee()
					for _, cl := range classify(callee) {
						switch {
						case callee.String() == "os/exec.Command":
							args := constArgs(cc.Common())
							c.check("tidy", fnName(f), in.Pos(), strings.HasPrefix(args, "go mod tidy"), "starts %s", args)
						case cl == "exec" && strings.HasPrefix(callee.String(), "(*os/exec.Cmd)."):
						case has("fs-write exec syscall", cl):
							c.check("main-modifies", fnName(f), in.Pos(), false, "%s calls %s", fnName(f), callee)
						}
					}
				}
			}
		}
	}
}

// constArgs: the constant strings of a variadic call
func constArgs(com *ssa.CallCommon) string {
	var l []string
	for _, a := range com.Args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil {
			l = append(l, strings.Trim(k.Value.ExactString(), `"`))
			continue
		}
		if sl, ok := a.(*ssa.Slice); ok {
			if al, ok := sl.X.(*ssa.Alloc); ok {
				m := map[int64]string{}
				for _, r := range *al.Referrers() {
					ia, ok := r.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					i, _ := ia.Index.(*ssa.Const)
					for _, r2 := range *ia.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && i != nil {
							if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil {
								m[i.Int64()] = strings.Trim(k.Value.ExactString(), `"`)
							} else {
								m[i.Int64()] = "?"
							}
						}
					}
				}
				for i := int64(0); i < int64(len(m)); i++ {
					l = append(l, m[i])
				}
				continue
			}
		}
		l = append(l, "?")
	}
	return strings.Join(l, " ")
}

// ownFileOnly: each modification concerns the generated file, in a directory
// at or below the current package's
func (c *Ctx) ownFileOnly(fn *ssa.Function) (n int) {
	k := fnName(fn)
	params := newEng(c.P).Params(fn)
	for _, o := range c.run(fn) {
		made := map[*Term]bool{}
		every(o.St.ev, func(ev *Event, tr *Trace) {
			cc, ok := ev.Instr.(ssa.CallInstruction)
			if !ok || ev.Kind != "call" || cc.Common().StaticCallee() == nil {
				return
			}
			callee := cc.Common().StaticCallee()
			write := false
			for _, cl := range classify(callee) {
				write = write || has("fs-write syscall", cl)
			}
			if !write {
				return
			}
			n++
			if strings.HasPrefix(ev.Name, "(*os.File).") {
				r := ev.Args[0].base()
				ok := made[r] || r.Op == "deref" && strings.HasPrefix(short(r.A[0].S), "os.Std")
				c.check("own-file", k, ev.pos(), ok, "%s of %v, which is not the generated file", ev.Name, ev.Args[0])
				return
			}
			if !c.check("own-file", k, ev.pos(), has("os.Create os.Remove os.RemoveAll os.OpenFile", ev.Name), "calls %s", ev.Name) {
				return
			}
			c.check("own-file", k, ev.pos(), generated(ev.Args[0], params), "%s is called on %v, which is not the generated file", ev.Name, ev.Args[0])
			if rs := ev.results(); len(rs) > 0 {
				made[rs[0].base()] = true
			}
		})
	}
	return
}

// generated: the name of the generated file in some directory
func generated(t *Term, params []*Term) bool {
	t = t.base()
	for _, p := range params {
		if t == p && isString(t.T) {
			return true
		}
	}
	if t.Op != "app" || t.S != "path.Join" {
		return false
	}
	var last *Term
	for _, a := range t.A {
		if a.Op == "list" {
			if len(a.A) > 0 {
				last = a.A[len(a.A)-1]
			}
			continue
		}
		last = a
	}
	return last != nil && last.Op == "const" && strings.Contains(last.String(), `"pkged.go"`)
}

func isString(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func init() {
	register("C10", "call-graph effect analysis from every exported function on the in-memory side down to the standard library; type flow of what a file in memory refers to", c10,
		"encoding/json reaches methods of the module only (each of them is analysed as a root itself)")
	register("C26", "effect lint over every library function: no printing, exiting, change of directory, environment or signals, no goroutine that is not waited for", c26,
		"what gobuffalo/here does while it asks the go tool is out of scope, as stated")
	register("C27", "call-graph effect analysis from every function and command to the modifying calls of the standard library; provenance of their path arguments in the command line tool", c27,
		"the go commands that gobuffalo/here runs (go list, go env) modify nothing")
}
