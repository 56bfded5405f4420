package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// modular analyses: exported functions of the module are steps of their
// own, unexported ones are followed
func exportedOpaque(f *ssa.Function) bool {
	if f.Parent() != nil || f.Synthetic != "" {
		return false
	}
	o := f.Object()
	if o == nil {
		return false
	}
	if !o.Exported() {
		return false
	}
	// methods of unexported types are not callable from elsewhere by name
	if r := f.Signature.Recv(); r != nil {
		if n, ok := types.Unalias(deref(r.Type())).(*types.Named); ok && !n.Obj().Exported() {
			return false
		}
	}
	return true
}

// api lists the functions a modular analysis starts at: the exported ones,
// and then those that were not followed from any of these
func (c *Ctx) modular(keep func(path string) bool, visit func(fn *ssa.Function, outs []*Outcome)) {
	seen := map[*ssa.Function]bool{}
	run := func(fn *ssa.Function) {
		e := newEng(c.P)
		e.Opaque = exportedOpaque
		outs := c.runEng(e, fn)
		for f := range e.fns {
			seen[f] = true
		}
		visit(fn, outs)
	}
	for _, fn := range c.P.funcs(keep) {
		if fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported() && fn.Synthetic == "" {
			run(fn)
		}
	}
	for _, fn := range c.P.funcs(keep) {
		if fn.Parent() == nil && fn.Synthetic == "" && !seen[fn] && fn.Object() != nil {
			run(fn)
		}
	}
	for _, fn := range c.P.funcs(keep) {
		if fn.Parent() == nil || seen[fn] {
			continue
		}
		// a literal that is kept for later: it can meet any variables
		e := newEng(c.P)
		e.Opaque = exportedOpaque
		outs := c.runLiteral(e, fn)
		for f := range e.fns {
			seen[f] = true
		}
		visit(fn, outs)
	}
}

// runLiteral explores a function literal with arbitrary captured variables
func (c *Ctx) runLiteral(e *Eng, fn *ssa.Function) (outs []*Outcome) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				c.fail("decided", fnName(fn), fn.Pos(), "cannot analyse: %s", u.why)
				outs = nil
				return
			}
			panic(r)
		}
	}()
	var bind []*Term
	for _, v := range fn.FreeVars {
		bind = append(bind, mk("param", fn.String()+"/free "+v.Name(), v.Type(), v))
	}
	outs = e.inline(fn, e.Params(fn), bind, newState(), nil)
	for f := range e.fns {
		c.fns[f] = true
	}
	c.paths += len(outs)
	c.instrs += e.nInstr
	return outs
}

func sentinel(f *Facts, E *Term) bool {
	is := func(t *Term) bool {
		if t.Op == "iface" {
			t = t.A[0]
		}
		n := ""
		switch {
		case t.Op == "deref" && t.A[0].Op == "global":
			n = t.A[0].S
		case t.Op == "errconst":
			n = t.S
		}
		switch n {
		case "io.EOF", "path/filepath.SkipDir", "path/filepath.SkipAll", "io/fs.SkipDir", "io/fs.SkipAll":
			return true
		}
		return false
	}
	for _, t := range f.ord {
		if !f.m[t] {
			continue
		}
		if t.Op == "eq" && (same(f, t.A[0], E) && is(t.A[1]) || same(f, t.A[1], E) && is(t.A[0])) {
			return true
		}
		if t.isApp("errors.Is") && same(f, t.A[0], E) && is(t.A[1]) {
			return true
		}
	}
	return false
}

// steps that may fail without it being reported, and why
func (c *Ctx) exemptStep(ev *Event, all []*Event) bool {
	n := ev.Name
	switch {
	case n == "fmt.Errorf", n == "errors.New", n == "errors.Unwrap", strings.HasPrefix(n, "(error)."):
		return true // makes an error, does not fail
	case strings.HasPrefix(n, "(*bytes.Buffer).Write"), strings.HasPrefix(n, "(*strings.Builder).Write"), strings.HasPrefix(n, "(hash."):
		return true // documented not to fail
	case n == "(context.Context).Err":
		return true
	case strings.HasPrefix(n, "fmt.Fprint"), n == "io.WriteString":
		// to a buffer, or to a buffered writer that keeps the first error for Flush
		if len(ev.Args) == 0 {
			return false
		}
		w := ev.Args[0]
		T := w.T
		if w.Op != "iface" {
			T = w.base().T
		}
		if T == nil {
			return false
		}
		switch T.String() {
		case "*bytes.Buffer", "*strings.Builder":
			return true
		case "*bufio.Writer":
			return flushed(w.base(), ev, all)
		}
		return false
	case n == "(*bufio.Writer).Write", n == "(*bufio.Writer).WriteString", n == "(*bufio.Writer).WriteByte", n == "(*bufio.Writer).WriteRune":
		return flushed(ev.Args[0].base(), ev, all)
	case n == "strconv.Unquote":
		// the parser: what is not a literal or constant is no declaration
		return ev.Fn != nil && fnPkg(ev.Fn) == modPath+"/parser"
	case strings.HasSuffix(n, ".Close") && len(ev.Args) > 0:
		return c.readOnly(ev.Args[0], all)
	}
	return false
}

// flushed: a Flush of the writer comes later (whose error is looked at as
// that of any other step)
func flushed(w *Term, ev *Event, all []*Event) bool {
	after := false
	for _, x := range all {
		if x == ev || containsEvent(x, ev) {
			after = true
			continue
		}
		if after && x.Name == "(*bufio.Writer).Flush" && x.Args[0].base() == w {
			return true
		}
	}
	return false
}

func containsEvent(x, ev *Event) bool {
	if x.Sub == nil {
		return false
	}
	for _, t := range x.Sub.Traces {
		for _, y := range t.Ev {
			if y == ev || containsEvent(y, ev) {
				return true
			}
		}
	}
	return false
}

func opens(name string) bool {
	switch name {
	case "os.Open", "pkger.Open", "(pkging.Pkger).Open", "(pkging.File).Open", "(net/http.FileSystem).Open", "(pkger.Dir).Open", "(net/http.Dir).Open",
		"(*pkging/stdos.Pkger).Open", "(*pkging/mem.Pkger).Open", "(*pkging/stdos.File).Open", "(*pkging/mem.File).Open", "(io/fs.FS).Open":
		return true
	}
	return false
}

func creates(name string) bool {
	switch name {
	case "os.Create", "os.OpenFile", "os.CreateTemp", "io/ioutil.TempFile", "os.NewFile", "pkger.Create", "(pkging.Pkger).Create", "(*pkging/stdos.Pkger).Create":
		return true
	}
	return false
}

// readOnly: what was opened for reading
func (c *Ctx) readOnly(x *Term, all []*Event) bool {
	ok := false
	every(all, func(ev *Event, tr *Trace) {
		if opens(ev.Name) && len(ev.results()) > 0 && ev.results()[0].base() == x.base() {
			ok = true
		}
		if tr != nil {
			for _, run := range tr.Late {
				for _, l := range run.Ev {
					if opens(l.Name) && len(l.results()) > 0 && l.results()[0].base() == x.base() {
						ok = true
					}
				}
			}
		}
	})
	return ok
}

// flow is one way through a function, an iteration or a callback
type flow struct {
	k        string
	f        *Facts
	ev       []*Event
	all      []*Event
	carriers []*Term
	reported bool
	exempt   func(ev *Event, all []*Event) bool
	where    token.Pos
	what     string
	looked   *int
}

func (fl *flow) carried(E *Term, depth int) bool {
	for _, x := range fl.carriers {
		if x == nil {
			continue
		}
		if same(fl.f, x, E) || x.contains(E) {
			return true
		}
	}
	if depth > 3 {
		return false
	}
	// given to a step that reports it
	for _, ev := range fl.ev {
		for _, a := range ev.args() {
			if a == E || a.contains(E) && a.Op != "closure" {
				if ev.Kind == "exit" {
					return true
				}
				if e2 := ev.errResult(); e2 != nil && e2 != E && fl.carried(e2, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

func (c *Ctx) errFlow(fl *flow) {
	handled := func(E *Term) bool {
		return fl.reported || fl.f.isNil(E) || fl.carried(E, 0) || sentinel(fl.f, E)
	}
	for i, ev := range fl.ev {
		if E := ev.errResult(); E != nil && ev.Kind != "exit" && !fl.exempt(ev, fl.all) {
			*fl.looked++
			ok := handled(E)
			if !ok && strings.HasPrefix(ev.Name, "(pkging.Pkger).") {
				// the older layer answers instead
				for _, x := range fl.ev[i+1:] {
					if x.Name == ev.Name && sameList(fl.f, x.Args[1:], ev.Args[1:]) && x.errResult() != nil && fl.carried(x.errResult(), 0) {
						ok = true
					}
				}
			}
			what := "may be nil although this step failed"
			if !fl.f.notNil(E) {
				what = "does not depend on whether this step failed"
			}
			c.check("reported", fl.k+": "+ev.Name, ev.pos(), ok, "the error of %s is lost: the result %s (%s, %s)", ev.Name, what, fl.what, cond(fl.f))
		}
		if ev.Sub == nil {
			continue
		}
		live, goesOn := map[*Term]bool{}, map[*Term]bool{}
		for _, tr := range ev.Sub.Traces {
			for S, b := range tr.Back {
				if isErr(S.T) && b != S && !tr.St.facts.isNil(b) {
					live[S] = true
					if !ev.stops(tr) {
						goesOn[S] = true
					}
				}
			}
		}
		for _, tr := range ev.Sub.Traces {
			sub := &flow{k: fl.k, f: tr.St.facts, ev: tr.Ev, all: fl.all, exempt: fl.exempt, looked: fl.looked, where: ev.pos(), what: "in one iteration"}
			for _, b := range tr.Back {
				sub.carriers = append(sub.carriers, b)
			}
			if ev.Kind == "callback" {
				sub.what = "in one call by " + ev.Name
				for _, r := range tr.Ret {
					sub.carriers = append(sub.carriers, r)
					if isErr(r.T) || r.Op == "iface" || r.Op == "errval" {
						if tr.St.facts.notNil(r) && len(tr.Ret) == 1 {
							sub.reported = true
						}
					}
				}
				if rs := ev.callbackSig(); rs != nil && rs.Len() > 0 && isErr(rs.At(rs.Len()-1).Type()) {
					sub.reported = sub.f.notNil(tr.Ret[rs.Len()-1]) && !isSentinelTerm(tr.Ret[rs.Len()-1])
				} else {
					sub.reported = false
				}
				for _, a := range ev.Sub.Args {
					if isErr(a.T) && a.Op == "sym" {
						*fl.looked++
						ok := sub.reported || sub.f.isNil(a) || sub.carried(a, 0) || sentinel(sub.f, a)
						if !ok {
							// told to somebody else's function
							for _, x := range tr.Ev {
								if x.Kind != "dyn" && x.Kind != "invoke" || x.Pure {
									continue
								}
								for _, y := range x.args() {
									ok = ok || same(sub.f, y, a)
								}
							}
						}
						c.check("reported", fl.k+": error given by "+ev.Name, ev.pos(), ok, "the function given to %s loses the error it is told %s", ev.Name, cond(sub.f))
					}
				}
			}
			c.errFlow(sub)
			for _, run := range tr.Late {
				for _, l := range run.Ev {
					if E := l.errResult(); E != nil && !fl.exempt(l, append(append([]*Event(nil), fl.all...), tr.Ev...)) {
						c.check("reported", fl.k+": "+l.Name, l.pos(), run.St.facts.isNil(E) || run.keeps(E, tr.St), "the error of %s, which is deferred, is lost", l.Name)
					}
				}
			}
			for S := range goesOn {
				b := tr.Back[S]
				if b == nil {
					b = S
				}
				c.check("kept", fl.k+": errors of earlier iterations", ev.pos(), tr.St.facts.isNil(S) || b == S || b.contains(S), "an error of an earlier iteration is overwritten %s", cond(tr.St.facts))
			}
		}
		for S := range live {
			*fl.looked++
			c.check("reported", fl.k+": errors of earlier iterations", ev.pos(), handled(S), "an error that %s left is lost %s", ev.Name, cond(fl.f))
		}
	}
}

// stops: is this the last call of the callback?
func (ev *Event) stops(tr *Trace) bool {
	if ev.Kind != "callback" || len(tr.Ret) == 0 {
		return false
	}
	r := tr.Ret[len(tr.Ret)-1]
	switch {
	case r == tFalse:
		return strings.HasSuffix(ev.Name, ".Range")
	case isErr(r.T) || r.Op == "errval" || r.Op == "iface":
		return strings.HasPrefix(ev.Name, "path/filepath.") && tr.St.facts.notNil(r)
	}
	return false
}

func isSentinelTerm(t *Term) bool {
	if t.Op == "iface" {
		t = t.A[0]
	}
	n := t.S
	if t.Op == "deref" && t.A[0].Op == "global" {
		n = t.A[0].S
	}
	return strings.HasSuffix(n, ".SkipDir") || strings.HasSuffix(n, ".SkipAll")
}

// callbackSig: the results of the function that was handed over
func (ev *Event) callbackSig() *types.Tuple {
	if ev.Sub == nil || ev.Kind != "callback" {
		return nil
	}
	for _, a := range ev.Args {
		f := a
		if a.Op == "iface" {
			f = a.A[0]
		}
		if f.Op == "closure" || f.Op == "func" {
			return f.X.(*ssa.Function).Signature.Results()
		}
	}
	return nil
}

func c07(c *Ctx) {
	looked, nf := 0, 0
	c.modular(isLib, func(fn *ssa.Function, outs []*Outcome) {
		rs := fn.Signature.Results()
		ei := -1
		for i := 0; i < rs.Len(); i++ {
			if isErr(rs.At(i).Type()) {
				ei = i
			}
		}
		if ei < 0 {
			return
		}
		nf++
		k := fnName(fn)
		for _, o := range outs {
			if o.Panic != nil || ei >= len(o.Ret) {
				continue
			}
			ret := o.Ret[ei]
			fl := &flow{k: k, f: o.St.facts, ev: o.St.ev, all: o.St.ev, carriers: []*Term{ret}, reported: o.St.facts.notNil(ret), exempt: c.exemptStep, where: o.where(fn), what: "returning " + ret.String(), looked: &looked}
			c.errFlow(fl)
			for _, ev := range o.St.ev {
				if ev.Kind == "recover" {
					c.check("reported", k+": panic", ev.pos(), fl.reported, "a panic is swallowed")
				}
			}
		}
	})
	c.onceKept(isLib, isErr)
	c.atLeast("library functions with an error result", nf, 60)
	c.atLeast("fallible steps on paths", looked, 150)
}

// ---- C09 ----

func (c *Ctx) exemptCmd(ev *Event, all []*Event) bool {
	n := ev.Name
	switch {
	case n == "(*flag.FlagSet).Parse":
		return true // the flag sets exit themselves
	case n == "fmt.Print", n == "fmt.Println", n == "fmt.Printf":
		return true
	case strings.HasPrefix(n, "fmt.Fprint"):
		if len(ev.Args) > 0 {
			if b := ev.Args[0].base(); b.Op == "deref" && b.A[0].Op == "global" && (b.A[0].S == "os.Stdout" || b.A[0].S == "os.Stderr") {
				return true
			}
			if T := ev.Args[0].base().T; T != nil && strings.HasSuffix(T.String(), "tabwriter.Writer") {
				return true
			}
		}
	case strings.HasPrefix(n, "(*text/tabwriter.Writer)."):
		return true
	case n == "os.RemoveAll", n == "os.Remove":
		return true // clearing away a generated file
	case n == "(*os/exec.Cmd).Run":
		// tidying
		for _, x := range all {
			if x.Name == "os/exec.Command" && x.Res != nil && x.Res.base() == ev.Args[0].base() && len(x.Args) == 4 {
				a, _ := x.Args[0].strVal()
				b, _ := x.Args[1].strVal()
				d, _ := x.Args[2].strVal()
				return a == "go" && b == "mod" && d == "tidy"
			}
			if x.Name == "os/exec.Command" && x.Res != nil && x.Res.base() == ev.Args[0].base() && len(x.Args) == 3 {
				a, _ := x.Args[0].strVal()
				b, _ := x.Args[1].strVal()
				d, _ := x.Args[2].strVal()
				return a == "go" && b == "mod" && d == "tidy"
			}
		}
		return false
	}
	return c.exemptStep(ev, all)
}

func c09(c *Ctx) {
	looked, nf, ends := 0, 0, 0
	main := c.fn("cmd/pkger", "main")
	c.modular(isCmd, func(fn *ssa.Function, outs []*Outcome) {
		if fn == main {
			return
		}
		rs := fn.Signature.Results()
		ei := -1
		for i := 0; i < rs.Len(); i++ {
			if isErr(rs.At(i).Type()) {
				ei = i
			}
		}
		if ei < 0 {
			return
		}
		nf++
		k := fnName(fn)
		for _, o := range outs {
			if o.Panic == tExit {
				c.exitCode(k, o)
				continue
			}
			if o.Panic != nil || ei >= len(o.Ret) {
				continue
			}
			ret := o.Ret[ei]
			fl := &flow{k: k, f: o.St.facts, ev: o.St.ev, all: o.St.ev, carriers: []*Term{ret}, reported: o.St.facts.notNil(ret), exempt: c.exemptCmd, where: o.where(fn), what: "returning " + ret.String(), looked: &looked}
			c.errFlow(fl)
			for _, ev := range o.St.ev {
				if ev.Kind == "recover" {
					c.check("reported", k+": panic", ev.pos(), fl.reported, "a panic is swallowed")
				}
			}
		}
	})
	if main == nil {
		return
	}
	// the main program
	e := newEng(c.P)
	e.Opaque = func(f *ssa.Function) bool { return exportedOpaque(f) }
	e.Inject = func(ev *Event) bool {
		return ev.Kind == "invoke" || ev.Kind == "call" && (strings.HasPrefix(ev.Name, "pkger.") || strings.HasPrefix(ev.Name, "(*cmd/") || strings.HasPrefix(ev.Name, "cmd/"))
	}
	fails, panics := 0, 0
	for _, o := range c.runEng(e, main) {
		k := "main"
		if o.Panic == tExit {
			c.exitCode(k, o)
			ends++
			for _, ev := range o.St.ev {
				if E := ev.errResult(); E != nil && o.St.facts.notNil(E) {
					fails++
				}
				if ev.Kind == "recover" {
					panics++
				}
			}
			continue
		}
		if o.Panic != nil {
			panics++ // ends with status 2
			continue
		}
		for _, ev := range o.St.ev {
			if ev.Kind == "recover" {
				c.fail("exit-status", k, ev.pos(), "a panic ends with the exit status 0")
			}
		}
		fl := &flow{k: k, f: o.St.facts, ev: o.St.ev, all: o.St.ev, exempt: c.exemptCmd, where: o.where(main), what: "ending with status 0", looked: &looked}
		c.errFlow(fl)
	}
	c.atLeast("functions of the tool with an error result", nf, 9)
	c.atLeast("fallible steps on paths", looked, 30)
	c.atLeast("failing ends of the main program", fails, 1)
	c.atLeast("panicking ends of the main program", panics, 1)
	// reachable: main runs the route
	routed := false
	for _, o := range c.runEng(e, main) {
		every(o.St.ev, func(ev *Event, _ *Trace) {
			if strings.HasSuffix(ev.Name, ".Route") || strings.HasSuffix(ev.Name, ".Exec") {
				routed = true
			}
		})
	}
	c.check("runs-commands", "main", main.Pos(), routed, "the main program runs no command")
	// nobody ends the program with success
	for _, fn := range c.P.funcs(isCmd) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if f := call.Common().StaticCallee(); f != nil && fnName(f) == "os.Exit" {
					k, is := call.Common().Args[0].(*ssa.Const)
					c.check("exit-status", fnName(fn)+": os.Exit", in.Pos(), is && k.Value != nil && k.Int64() != 0, "the program can end with status 0 here")
				}
			}
		}
	}
}

// exitCode: how the program ends on this path
func (c *Ctx) exitCode(k string, o *Outcome) {
	for _, ev := range o.St.ev {
		if ev.Kind != "exit" {
			continue
		}
		if ev.Name == "os.Exit" {
			n, ok := ev.Args[0].intVal()
			c.check("exit-status", k, ev.pos(), ok && n != 0, "the program ends with status %v", ev.Args[0])
		} else {
			c.check("exit-status", k, ev.pos(), true, "")
		}
	}
}

// ---- C06 ----

// holds: does the value, or memory reachable from it, hold x?
func (c *Ctx) holdsTerm(st *State, v, x *Term, depth int) bool {
	if v == nil {
		return false
	}
	b := x.base()
	found := false
	v.walk(func(t *Term) bool {
		if t == x || t == b || t.base() == b {
			found = true
		}
		return !found
	})
	if found || depth > 3 {
		return found
	}
	var roots []*Term
	v.walk(func(t *Term) bool {
		if t.Op == "alloc" || t.Op == "mkslice" || t.Op == "mkmap" {
			roots = append(roots, t)
		}
		return true
	})
	for _, r := range roots {
		for a, w := range st.mem {
			if rootOf(a) == r && w != v && c.holdsTerm(st, w, x, depth+1) {
				return true
			}
		}
		if kv, ok := st.mapkv[r]; ok && c.holdsTerm(st, kv[1], x, depth+1) {
			return true
		}
	}
	return false
}

func (c *Ctx) resources(fn *ssa.Function, k string, evs, late []*Event, st *State, hand []*Term, ok func(ev *Event) bool, n *int) {
	f := st.facts
	for _, ev := range evs {
		if ev.Sub != nil {
			for _, tr := range ev.Sub.Traces {
				var h []*Term
				h = append(h, tr.Ret...)
				for _, b := range tr.Back {
					h = append(h, b)
				}
				t := tr
				for _, run := range tr.runs() {
					c.resources(fn, k, tr.Ev, run.Ev, tr.St, h, func(x *Event) bool {
						for _, r := range t.Ret {
							if isErr(r.T) && !t.St.facts.isNil(r) && !same(t.St.facts, r, x.errResult()) {
								return false
							}
						}
						return true
					}, n)
				}
			}
			continue
		}
		if !opens(ev.Name) && !creates(ev.Name) || len(ev.results()) == 0 {
			continue
		}
		if ev.Kind == "invoke" && ev.Fn != nil && fnPkg(ev.Fn) == modPath+"/pkging/mem" {
			continue // handles of the in-memory implementation
		}
		E := ev.errResult()
		if E != nil && f.notNil(E) {
			continue
		}
		*n++
		R := ev.results()[0]
		closed := false
		for _, x := range append(append([]*Event(nil), evs...), late...) {
			if strings.HasSuffix(x.Name, ".Close") && len(x.Args) > 0 && (x.Args[0].base() == R.base() || c.holdsTerm(st, x.Args[0], R, 0)) {
				closed = true
			}
		}
		handed := false
		if ok(ev) {
			for _, r := range hand {
				if c.holdsTerm(st, r, R, 0) {
					handed = true
				}
			}
		}
		c.check("closed", k+": "+ev.Name, ev.pos(), closed || handed, "the file opened by %s is neither closed nor returned %s", ev.Name, cond(f))
	}
}

func c06(c *Ctx) {
	n := 0
	visit := func(fn *ssa.Function, outs []*Outcome) {
		for _, o := range outs {
			if o.Panic != nil {
				continue
			}
			out := o
			c.resources(fn, fnName(fn), o.St.ev, nil, o.St, o.Ret, func(ev *Event) bool {
				e := out.err(fn)
				return e == nil || out.St.facts.isNil(e) || same(out.St.facts, e, ev.errResult())
			}, &n)
		}
	}
	c.modular(nil, visit)
	c.atLeast("files opened on paths", n, 10)
	// closing a handle closes the file in it
	if fn := c.method("pkging/stdos", "File", "Close"); fn != nil {
		self := c.P.paramTerm(fn, 0)
		for _, o := range c.run(fn) {
			ok := o.Panic != nil
			for _, ev := range o.St.ev {
				ok = ok || ev.Name == "(*os.File).Close" && rootParam(ev.Args[0]) == self
			}
			c.check("close", fnName(fn), o.where(fn), ok, "%s: the handle is closed but not the file on disk", cond(o.St.facts))
		}
	}
}

func init() {
	register("C06", "resource (typestate) analysis: on every path of every function, a file that was opened is closed, by a call, a deferred call or in the iteration that opened it, or handed to the caller with success", c06,
		"handles of the in-memory implementation hold no resource of the system")
	register("C07", "error-flow analysis: on every path of every library function with an error result, the error of each fallible step is nil, part of the result, or the result is another non-nil error; in loops and callbacks it is carried to the end", c07,
		"a writer of package bufio keeps its first error for Flush, and bytes.Buffer does not fail, as documented")
	register("C09", "error-flow analysis of the command line tool up to the main program, whose failing and panicking paths must end in a non-zero exit status", c09,
		"flag sets made with ExitOnError end the program with status 2 on bad flags")
}

// onceKept: what a function that runs once finds out is not kept in a
// variable of the one call that ran it
func (c *Ctx) onceKept(keep func(path string) bool, typ func(types.Type) bool) {
	for _, fn := range c.P.funcs(keep) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() == nil || call.Common().StaticCallee().String() != "(*sync.Once).Do" || len(call.Common().Args) != 2 {
					continue
				}
				if own, ok := call.Common().Args[0].(*ssa.Alloc); ok && own.Parent() == fn {
					continue // a once of this call
				}
				mc, ok := call.Common().Args[1].(*ssa.MakeClosure)
				if !ok {
					continue
				}
				bad := map[*ssa.Alloc]bool{}
				setFree(mc, bad, 0)
				for a := range bad {
					T := deref(a.Type())
					if a.Parent() != fn || typ != nil && !typ(T) {
						continue
					}
					// looked at afterwards
					read := false
					for _, r := range *a.Referrers() {
						if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
							read = true
						}
					}
					c.check("kept", fnName(fn)+": once", call.Pos(), !read, "the first call keeps %s for itself: later ones do not see what it found", a.Comment)
				}
				if len(bad) == 0 {
					c.check("kept", fnName(fn)+": once", call.Pos(), true, "")
				}
			}
		}
	}
}

// setFree: the variables of the function that the literal, or one in it, sets
func setFree(mc *ssa.MakeClosure, out map[*ssa.Alloc]bool, depth int) {
	fn, ok := mc.Fn.(*ssa.Function)
	if !ok || depth > 3 {
		return
	}
	for i, fv := range fn.FreeVars {
		a, ok := mc.Bindings[i].(*ssa.Alloc)
		if !ok {
			continue
		}
		if setsVar(fn, fv, depth) {
			out[a] = true
		}
	}
}

func setsVar(fn *ssa.Function, fv *ssa.FreeVar, depth int) bool {
	for _, r := range *fv.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == fv {
				return true
			}
		case *ssa.MakeClosure:
			in, ok := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if ok && b == fv && depth < 3 && setsVar(in, in.FreeVars[i], depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// keeps: the calls deferred in an iteration have stored this error, or one
// that holds it, where another was, or another one was there already
func (l *Late) keeps(E *Term, before *State) bool {
	for a, v := range l.St.mem {
		if !isErr(v.T) || v == before.mem[a] && !l.St.facts.notNil(v) {
			continue
		}
		if v == E || v.contains(E) || l.St.facts.notNil(v) && rootOf(a).Op == "alloc" {
			return true
		}
	}
	return false
}
