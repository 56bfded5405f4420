package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/markbates/pkger"

func short(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "pkger.")
	s = strings.ReplaceAll(s, "github.com/gobuffalo/here", "gohere")
	s = strings.ReplaceAll(s, "io/fs.FileInfo", "os.FileInfo")
	s = strings.ReplaceAll(s, "io/fs.FileMode", "os.FileMode")
	s = strings.ReplaceAll(s, "io/fs.PathError", "os.PathError")
	s = strings.ReplaceAll(s, "io/ioutil.ReadFile", "os.ReadFile")
	s = strings.ReplaceAll(s, "io/ioutil.ReadAll", "io.ReadAll")
	return s
}

func fnName(f *ssa.Function) string {
	if o := f.Object(); o != nil {
		if fo, ok := o.(*types.Func); ok {
			return short(fo.FullName())
		}
	}
	return short(f.String())
}

func methodName(m *types.Func, recv types.Type) string {
	return short(m.FullName())
}

// functions whose result depends on nothing but their arguments
func pureFn(name string) bool {
	switch name {
	case "path/filepath.Walk", "path/filepath.WalkDir", "path/filepath.Glob", "path/filepath.EvalSymlinks", "path/filepath.Abs":
		return false
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "encoding/hex.EncodeToString", "encoding/hex.DecodedLen", "encoding/hex.EncodedLen",
		"(gohere.Info).Parse", "(gohere.Info).String", "(gohere.Info).IsZero", "(gohere.Path).String",
		"(error).Error", "(fmt.Stringer).String", "(go/ast.Node).Pos", "(go/ast.Node).End", "(*go/token.FileSet).Position",
		"os.IsNotExist", "os.IsExist", "os.IsPermission", "errors.Is", "errors.Unwrap", "bytes.Equal", "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString", "strings.NewReader":
		return name != "bytes.NewBuffer" && name != "bytes.NewReader" && name != "strings.NewReader" && name != "bytes.NewBufferString"
	}
	for _, p := range []string{"strings.", "path.", "path/filepath.", "strconv.", "unicode.", "unicode/utf8.", "math.", "(time.Time).", "(os.FileInfo).", "(os.FileMode).", "(go/token.", "(*go/ast.", "(*regexp.Regexp)."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	if strings.HasPrefix(name, "(go/token.") {
		return true
	}
	return false
}

func (e *Eng) call(fr *frame, st *State, in ssa.Instruction, c *ssa.CallCommon, fnT *Term, args []*Term) []*Outcome {
	e.nInstr++
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return e.builtin(fr, st, in, b.Name(), c, args)
	}
	if c.IsInvoke() {
		e.hook("invoke", fr, in, st, fnT)
		recv := fnT
		T := types.Type(nil)
		if recv.Op == "iface" {
			T = recv.T
		} else if e.Devirt != nil {
			T = e.Devirt(recv, c.Value.Type(), c.Method, st)
		}
		if T != nil && !types.IsInterface(T) {
			if m := e.P.prog.LookupMethod(T, c.Method.Pkg(), c.Method.Name()); m != nil {
				x := recv
				if recv.Op == "iface" {
					x = recv.A[0]
				}
				return e.dispatch(fr, st, in, m, nil, append([]*Term{x}, args...), c.Signature())
			}
		}
		if recv.Op != "iface" {
			st.facts.deref(recv)
		}
		return e.opaque(fr, st, in, "invoke", methodName(c.Method, c.Value.Type()), c.Signature(), append([]*Term{recv}, args...), true, nil)
	}
	if f := c.StaticCallee(); f != nil {
		var bind []*Term
		if fnT != nil && fnT.Op == "closure" {
			bind = fnT.A
		}
		return e.dispatch(fr, st, in, f, bind, args, c.Signature())
	}
	return e.callTerm(fr, st, in, fnT, args, c.Signature())
}

// callTerm calls a function value
func (e *Eng) callTerm(fr *frame, st *State, in ssa.Instruction, fnT *Term, args []*Term, sig *types.Signature) []*Outcome {
	switch fnT.Op {
	case "closure":
		return e.dispatch(fr, st, in, fnT.X.(*ssa.Function), fnT.A, args, sig)
	case "func":
		return e.dispatch(fr, st, in, fnT.X.(*ssa.Function), nil, args, sig)
	}
	name := "dyn " + fnT.String()
	if fnT.Op == "deref" && fnT.A[0].Op == "global" {
		name = short(fnT.A[0].S)
	}
	e.hook("dyncall", fr, in, st, fnT)
	return e.opaque(fr, st, in, "dyn", name, sig, append([]*Term{fnT}, args...), false, nil)
}

func (e *Eng) dispatch(fr *frame, st *State, in ssa.Instruction, f *ssa.Function, bind, args []*Term, sig *types.Signature) []*Outcome {
	name := fnName(f)
	if o := e.prim(fr, st, in, f, name, args); o != nil {
		return o
	}
	fsig := f.Signature
	hasRecv := fsig.Recv() != nil
	if e.isOpaque(fr, f) || len(f.Blocks) == 0 {
		return e.opaque(fr, st, in, "call", name, fsig, args, hasRecv, f)
	}
	n := 0
	for _, s := range fr.stack {
		if s == f {
			n++
		}
	}
	if n > 0 || len(fr.stack) > 14 {
		return e.opaque(fr, st, in, "rec", name, fsig, args, hasRecv, f)
	}
	return e.inline(f, args, bind, st, fr.stack)
}

func (e *Eng) isOpaque(fr *frame, f *ssa.Function) bool {
	p := fnPkg(f)
	if p == "" {
		return len(f.Blocks) == 0
	}
	if !e.P.inModule(p) {
		return true
	}
	if e.Opaque != nil {
		return e.Opaque(f)
	}
	root := fnPkg(fr.stack[0])
	if p == root {
		return false
	}
	return e.P.isContract(f)
}

// fnPkg: path of the package that declares f
func fnPkg(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		// a wrapper: inlined when the wrapped method is
		if f.Synthetic != "" && len(f.Blocks) > 0 {
			return modPath + "/wrapper"
		}
		return o.Pkg().Path()
	}
	if f.Synthetic != "" && len(f.Blocks) > 0 {
		return modPath + "/wrapper"
	}
	return ""
}

func isErr(T types.Type) bool {
	return T != nil && types.Identical(T, types.Universe.Lookup("error").Type())
}

// opaque records the call as an event and returns symbols for its results
func (e *Eng) opaque(fr *frame, st *State, in ssa.Instruction, kind, name string, sig *types.Signature, args []*Term, hasRecv bool, f *ssa.Function) []*Outcome {
	if sig.Variadic() && len(args) > 0 {
		last := args[len(args)-1]
		switch last.Op {
		case "list":
			args = append(append([]*Term(nil), args[:len(args)-1]...), last.A...)
		case "nil":
			args = args[:len(args)-1]
		}
	}
	res := sig.Results()
	pure := pureFn(name)
	ev := &Event{Kind: kind, Name: name, Args: args, Sig: sig, Instr: in, Fn: fr.fn, Pure: pure, Facts: len(st.facts.ord), Panic: st.pan != nil, Defer: false}
	if sig.Recv() != nil {
		ev.Recv = sig.Recv().Type()
	}
	var rets []*Term
	switch {
	case name == "fmt.Errorf" || name == "errors.New" || name == "fmt.Errorf.":
		n := st.fresh(name)
		rets = []*Term{mk("errval", n, res.At(0).Type(), nil, args...)}
		ev.Pure = true
	case name == "fmt.Sprintf":
		rets = []*Term{sprintf(args)}
	case pure && res.Len() == 1:
		a := args
		rets = []*Term{tApp(appName(name), res.At(0).Type(), a...)}
	case pure && res.Len() > 1:
		x := tApp(appName(name), res, args...)
		for i := 0; i < res.Len(); i++ {
			rets = append(rets, tExt(x, i, res.At(i).Type()))
		}
	default:
		n := st.fresh(name)
		for i := 0; i < res.Len(); i++ {
			s := n
			if res.Len() > 1 {
				s += "." + fmt.Sprint(i)
			}
			t := mk("res", s, res.At(i).Type(), ev)
			if t.X != ev {
				// same name on another path: the term stays shared
			}
			rets = append(rets, t)
		}
	}
	switch len(rets) {
	case 0:
	case 1:
		ev.Res = rets[0]
	default:
		ev.Res = tTuple(rets...)
	}
	st.ev = append(st.ev, ev)
	if kind == "rec" || e.Opaque != nil && !pure && f != nil && e.P.inModule(fnPkg(f)) {
		// it may change the stores
		st.cnt["epoch"]++
		st.mapkv = map[*Term][2]*Term{}
		st.mapall = map[*Term]*mapLit{}
	}
	e.hook("called", fr, in, st, args...)
	var outs []*Outcome
	if pure && strings.HasPrefix(name, "strings.") {
		e.callbacks(fr, st, in, ev, name, args, &outs)
	}
	if !pure {
		e.callbacks(fr, st, in, ev, name, args, &outs)
		if f == nil || !e.P.inModule(fnPkg(f)) {
			e.clobber(st, ev, args)
		}
	}
	if e.Inject != nil && !pure && st.pan == nil && e.Inject(ev) {
		s2 := st.clone()
		outs = append(outs, &Outcome{St: s2, Panic: mk("sym", "panic in "+name, nil, nil)})
	}
	if (name == "(*sync.RWMutex).Unlock" || name == "(*sync.RWMutex).RUnlock" || name == "(*sync.Mutex).Unlock") && len(outs) == 0 {
		// from here on others may change what the lock guards
		for g := range e.P.mutableGlobals() {
			st.dflt[g] = st.fresh("unlocked")
			for k := range st.mem {
				if rootOf(k) == g {
					delete(st.mem, k)
				}
			}
		}
	}
	if name == "os.Exit" || name == "log.Fatal" || name == "log.Fatalf" || name == "log.Fatalln" || name == "runtime.Goexit" {
		ev.Kind = "exit"
		// the path ends here, without running deferred calls
		return append(outs, &Outcome{St: st, Panic: tExit})
	}
	if strings.HasPrefix(name, "log.Panic") {
		return append(outs, &Outcome{St: st, Panic: mk("sym", name, nil, nil)})
	}
	outs = append(outs, &Outcome{St: st, Ret: rets})
	return outs
}

var tExit = mk("sym", "exit", nil, nil)

func appName(n string) string {
	if n == "(gohere.Path).String" {
		return "Path.String"
	}
	return n
}

// clobber: memory of ours that an outside function gets a pointer to
func (e *Eng) clobber(st *State, ev *Event, args []*Term) {
	if strings.HasPrefix(ev.Name, "fmt.") || strings.HasPrefix(ev.Name, "sort.") || strings.HasPrefix(ev.Name, "(*sync.") || strings.HasPrefix(ev.Name, "encoding/json.Marshal") || ev.Name == "encoding/json.NewEncoder" || strings.HasPrefix(ev.Name, "bufio.NewWriter") {
		return
	}
	for _, a := range args {
		b := a.base()
		if b.Op != "alloc" {
			continue
		}
		el := deref(b.T)
		if n, ok := el.(*types.Named); ok && n.Obj().Pkg() != nil && !e.P.inModule(n.Obj().Pkg().Path()) && !strings.HasPrefix(n.Obj().Pkg().Path(), "github.com/gobuffalo/here") {
			if n.Obj().Pkg().Path() != "time" {
				continue
			}
		}
		if _, ok := el.Underlying().(*types.Signature); ok {
			continue
		}
		if ev.Snap == nil {
			ev.Snap = map[*Term]*Term{}
		}
		ev.Snap[b] = e.load(st, b, el)
		n := st.fresh("out:" + ev.Name)
		st.dflt[b] = n
		for k := range st.mem {
			if rootOf(k) == b {
				delete(st.mem, k)
			}
		}
	}
}

// callbacks: functions of ours that are handed to the callee
func (e *Eng) callbacks(fr *frame, st *State, in ssa.Instruction, ev *Event, name string, args []*Term, outs *[]*Outcome) {
	for i, a := range args {
		if ev.Kind == "dyn" && i == 0 {
			continue
		}
		f := a
		var recvArg *Term
		if a.Op == "iface" {
			f = a.A[0]
			meth := map[string]string{"go/ast.Walk": "Visit", "sort.Sort": "Less", "sort.Stable": "Less"}[name]
			if f.Op != "closure" && f.Op != "func" && (meth == "" || i > 0) {
				continue
			}
			if meth != "" {
				m := e.P.prog.LookupMethod(a.T, nil, meth)
				if m == nil {
					continue
				}
				recvArg = f
				f = mk("func", m.String(), m.Type(), m)
			}
		}
		if f.Op != "closure" && f.Op != "func" {
			continue
		}
		fn := f.X.(*ssa.Function)
		if len(fn.Blocks) == 0 || !e.P.inModule(fnPkg(fn)) {
			continue
		}
		n := 0
		for _, s := range fr.stack {
			if s == fn {
				n++
			}
		}
		if n > 0 {
			continue
		}
		if name == "(*sync.Once).Do" {
			e.once(fr, st, in, f, outs)
			continue
		}
		e.callback(fr, st, in, ev, name, f, recvArg, nil, outs)
	}
}

// once: the function runs now, or it ran before
func (e *Eng) once(fr *frame, st *State, in ssa.Instruction, f *Term, outs *[]*Outcome) {
	s2 := st.clone()
	s2.ev = append(s2.ev, &Event{Kind: "once", Name: f.S, Instr: in, Fn: fr.fn})
	for _, o := range e.callTerm(fr, s2, in, f, nil, f.X.(*ssa.Function).Signature) {
		o.Ret = nil
		*outs = append(*outs, o)
	}
}

func (e *Eng) callback(fr *frame, st *State, in ssa.Instruction, ev *Event, name string, f *Term, recvArg *Term, given []*Term, outs *[]*Outcome) {
	fn := f.X.(*ssa.Function)
	cbn := st.fresh("cb:" + name)
	modMem := map[*Term]types.Type{}
	modRoot := map[*Term]bool{}
	modMap := map[*Term]bool{}
	mark := st.cnt["alloc"]
	for round := 0; ; round++ {
		if round > 12 {
			panic(undecided{"callback does not stabilise in " + fn.String()})
		}
		s0 := st.clone()
		sub := &Sub{Kind: "callback", Name: name, Init: map[*Term]*Term{}, Syms: map[*Term]*Term{}}
		e.havoc(s0, cbn, sub, modMem, modRoot, modMap)
		cev := &Event{Kind: "callback", Name: name, Sub: sub, Instr: in, Fn: fr.fn, Args: ev.Args, Res: ev.Res}
		s0.ev = append(s0.ev, cev)
		base := len(s0.ev)
		sub.At = s0.clone()
		var args []*Term
		if recvArg != nil {
			args = append(args, recvArg)
		}
		ps := fn.Signature.Params()
		for i := 0; i < ps.Len(); i++ {
			if i < len(given) && given[i] != nil {
				args = append(args, given[i])
				continue
			}
			pn := ps.At(i).Name()
			if pn == "" {
				pn = fmt.Sprint("arg", i)
			}
			args = append(args, mk("sym", cbn+"."+pn+fmt.Sprint("·", i), ps.At(i).Type(), cev))
		}
		sub.Args = args
		q := e.Hook
		e.Hook = nil
		os := e.callTerm(fr, s0.clone(), in, f, args, fn.Signature)
		e.Hook = q
		changed := false
		for _, o := range os {
			if e.changes(sub.At, o.St, mark, modMem, modRoot, modMap) {
				changed = true
			}
		}
		if changed {
			continue
		}
		if q != nil {
			os = e.callTerm(fr, s0.clone(), in, f, args, fn.Signature)
		}
		for _, o := range os {
			if o.Panic != nil {
				*outs = append(*outs, o)
				continue
			}
			tr := &Trace{St: o.St, Ev: o.St.ev[base:], Ret: o.Ret, Back: map[*Term]*Term{}}
			for a, s := range sub.Syms {
				tr.Back[s] = e.load(o.St, a, modMem[a])
			}
			sub.Traces = append(sub.Traces, tr)
		}
		if strings.HasPrefix(name, "strings.") && len(f.A) == 0 {
			runeSubs[f] = sub
		}
		*st = *s0
		return
	}
}

func sprintf(args []*Term) *Term {
	T := types.Typ[types.String]
	f, ok := args[0].strVal()
	if !ok {
		return mk("app", "fmt.Sprintf", T, nil, args...)
	}
	var parts []*Term
	k := 1
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		if i+1 >= len(f) {
			return mk("app", "fmt.Sprintf", T, nil, args...)
		}
		i++
		switch f[i] {
		case '%':
			lit += "%"
			continue
		case 's', 'v':
			if k >= len(args) {
				return mk("app", "fmt.Sprintf", T, nil, args...)
			}
			a := args[k]
			k++
			b := a.base()
			var p *Term
			aT := b.T
			if a.Op == "iface" {
				aT = a.T
			}
			if s, ok := b.strVal(); ok {
				p = tStr(s)
			} else if aT != nil {
				if bt, ok := aT.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 && types.NewMethodSet(aT).Len() == 0 {
					p = b
				} else if short(aT.String()) == "gohere.Path" {
					p = tApp("Path.String", T, b)
				}
			}
			if p == nil {
				return mk("app", "fmt.Sprintf", T, nil, args...)
			}
			parts = append(parts, tStr(lit), p)
			lit = ""
		default:
			return mk("app", "fmt.Sprintf", T, nil, args...)
		}
	}
	if k != len(args) {
		return mk("app", "fmt.Sprintf", T, nil, args...)
	}
	parts = append(parts, tStr(lit))
	return tConcat(parts...)
}

func (e *Eng) builtin(fr *frame, st *State, in ssa.Instruction, name string, c *ssa.CallCommon, args []*Term) []*Outcome {
	ret := func(t ...*Term) []*Outcome { return []*Outcome{{St: st, Ret: t}} }
	switch name {
	case "len":
		return ret(e.lenOf(st, args[0], c.Args[0].Type()))
	case "cap":
		return ret(mk("cap", "", types.Typ[types.Int], nil, args[0]))
	case "append":
		T := c.Args[0].Type()
		x := args[0]
		if len(args) == 1 {
			return ret(x)
		}
		y := args[1]
		switch {
		case y == tNil:
			return ret(x)
		case y.Op == "list" && (x == tNil || x.Op == "list"):
			var el []*Term
			if x.Op == "list" {
				el = append(el, x.A...)
			}
			return ret(mk("list", "", T, nil, append(el, y.A...)...))
		case y.Op == "list":
			if x.Op == "append" {
				return ret(mk("append", "", T, nil, append(append([]*Term(nil), x.A...), y.A...)...))
			}
			return ret(mk("append", "", T, nil, append([]*Term{x}, y.A...)...))
		}
		return ret(mk("append", "", T, nil, x, mk("spread", "", y.T, nil, y)))
	case "copy":
		n := st.fresh("copy")
		ev := &Event{Kind: "builtin", Name: "copy", Args: args, Instr: in, Fn: fr.fn}
		r := mk("res", n, types.Typ[types.Int], ev)
		ev.Res = r
		st.ev = append(st.ev, ev)
		return ret(r)
	case "delete":
		st.mapver[args[0]]++
		delete(st.mapkv, args[0])
		st.ev = append(st.ev, &Event{Kind: "mapdelete", Name: "delete", Args: args, Instr: in, Fn: fr.fn})
		return ret()
	case "recover":
		v := tNil
		if st.pan != nil && st.pan != tExit && st.inDef > 0 {
			v = mk("iface", "recovered", types.Typ[types.Invalid], nil, st.pan)
			st.ev = append(st.ev, &Event{Kind: "recover", Args: []*Term{st.pan}, Instr: in, Fn: fr.fn})
			st.pan = nil
		}
		return ret(v)
	case "ssa:wrapnilchk":
		return ret(args[0])
	case "print", "println", "close", "clear":
		st.ev = append(st.ev, &Event{Kind: "builtin", Name: name, Args: args, Instr: in, Fn: fr.fn})
		return ret()
	case "min", "max", "real", "imag", "complex":
		return ret(mk("app", "builtin."+name, c.Args[0].Type(), nil, args...))
	}
	panic(undecided{"builtin " + name})
}

func (e *Eng) lenOf(st *State, x *Term, T types.Type) *Term {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			return tInt(a.Len())
		}
	}
	if a, ok := T.Underlying().(*types.Array); ok {
		return tInt(a.Len())
	}
	switch x.Op {
	case "slice":
		lo, hi := x.A[1], x.A[2]
		if hi == tNil {
			hi = tLen(x.A[0])
		}
		return tSub(hi, lo)
	case "mkslice":
		return x.A[0]
	case "mkmap":
		return mk("maplen", fmt.Sprint(st.mapver[x]), types.Typ[types.Int], nil, x)
	}
	return tLen(x)
}

// prim: the operations of the synchronized maps, once their
// implementation is established by the checks of the maps package
func (e *Eng) prim(fr *frame, st *State, in ssa.Instruction, f *ssa.Function, name string, args []*Term) []*Outcome {
	if fnPkg(fr.stack[0]) == modPath+"/internal/maps" {
		return nil
	}
	if !strings.HasPrefix(name, "(*internal/maps.") {
		return nil
	}
	kind, meth, ok := strings.Cut(strings.TrimPrefix(name, "(*internal/maps."), ").")
	if !ok || kind != "Files" && kind != "Infos" {
		return nil
	}
	m := args[0]
	ev := &Event{Kind: "prim", Name: kind + "." + meth, Args: args, Sig: f.Signature, Instr: in, Fn: fr.fn, Facts: len(st.facts.ord), Panic: st.pan != nil}
	ret := func(s *State, t ...*Term) *Outcome { return &Outcome{St: s, Ret: t} }
	stored := func(key *Term) *Term {
		if kind == "Infos" {
			return mk("stored", fmt.Sprintf("%s[%s]~%d", kind, key, st.ver(m)), f.Signature.Results().At(0).Type(), ev, m, key)
		}
		return e.storedFile(st, m, key)
	}
	switch meth {
	case "Load":
		var v, has *Term
		if kv, ok := st.mapkv[m]; ok && kv[0] == args[1] {
			v, has = kv[1], tTrue
		} else {
			v = stored(args[1])
			has = mk("has", fmt.Sprint(st.ver(m)), types.Typ[types.Bool], nil, m, args[1])
		}
		e.hook("prim", fr, in, st, m)
		known, ok := st.facts.decide(has)
		var outs []*Outcome
		for _, want := range []bool{true, false} {
			if ok && known != want {
				continue
			}
			s2 := st.clone()
			if !s2.facts.assume(has, want) {
				continue
			}
			ev2 := *ev
			if want {
				ev2.Res = tTuple(v, tTrue)
				s2.ev = append(s2.ev, &ev2)
				outs = append(outs, ret(s2, v, tTrue))
			} else {
				z := tZero(f.Signature.Results().At(0).Type())
				ev2.Res = tTuple(z, tFalse)
				s2.ev = append(s2.ev, &ev2)
				outs = append(outs, ret(s2, z, tFalse))
			}
		}
		return outs
	case "Store":
		e.hook("prim", fr, in, st, m)
		if kind == "Files" {
			e.hook("a file stored", fr, in, st, args[2])
		}
		st.mapver[m]++
		st.mapkv[m] = [2]*Term{args[1], args[2]}
		st.ev = append(st.ev, ev)
		return []*Outcome{ret(st)}
	case "Delete":
		e.hook("prim", fr, in, st, m)
		st.mapver[m]++
		delete(st.mapkv, m)
		st.ev = append(st.ev, ev)
		return []*Outcome{ret(st)}
	case "Keys":
		e.hook("prim", fr, in, st, m)
		k := mk("keys", fmt.Sprint(st.ver(m)), f.Signature.Results().At(0).Type(), nil, m)
		ev.Res = k
		st.ev = append(st.ev, ev)
		return []*Outcome{ret(st, k)}
	case "Range":
		e.hook("prim", fr, in, st, m)
		st.ev = append(st.ev, ev)
		cb := args[1]
		var outs []*Outcome
		if cb.Op == "closure" || cb.Op == "func" {
			n := st.fresh("range")
			ps := f.Signature.Params().At(0).Type().Underlying().(*types.Signature).Params()
			key := mk("rangekey", n, ps.At(0).Type(), nil, m)
			var v *Term
			if kind == "Infos" {
				v = mk("stored", fmt.Sprintf("%s[%s]~%d", kind, key, st.ver(m)), ps.At(1).Type(), ev, m, key)
			} else {
				v = e.storedFile(st, m, key)
			}
			e.callback(fr, st, in, ev, ev.Name, cb, nil, []*Term{key, v}, &outs)
		}
		return append(outs, ret(st))
	case "Data":
		return nil
	}
	return nil
}

// ver: which state of the store a lookup sees
func (st *State) ver(m *Term) int { return st.mapver[m] + 10000*st.cnt["epoch"] }

// storedFile: an entry of a map of files. In package mem all of them are
// *mem.File (which C12 establishes from all the Store calls).
func (e *Eng) storedFile(st *State, m, key *Term) *Term {
	T := e.P.memFilePtr()
	s := mk("stored", fmt.Sprintf("Files[%s]~%d", key, st.ver(m)), T, nil, m, key)
	return mk("iface", typeKey(T), T, nil, s)
}
