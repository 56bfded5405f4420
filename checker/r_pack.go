package main

import (
	"go/ast"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- what is written to a file ----

// A piece of what is written: text, or whatever a call writes.
type piece struct {
	text *Term
	by   *Event
}

// output describes what happens to one file that a function creates.
type output struct {
	file    *Term // the handle
	path    *Term
	created *Event
	// writers that end in the file, and whether they buffer
	writers map[*Term]bool
	pieces  []piece
	steps   []*Event // writes to the file that are not buffered
	flushed map[*Term]*Event
	dirty   map[*Term]*Event // last write to a buffer
	closed  *Event
	removed *Event // after it was created
	late    *Event // write after the close
	moved   *Event // renamed
}

func createsFile(ev *Event) bool {
	if ev.Kind != "call" {
		return false
	}
	switch ev.Name {
	case "os.Create":
		return true
	case "os.OpenFile":
		if len(ev.Args) > 1 {
			if n, ok := ev.Args[1].intVal(); ok {
				return n&0x40 != 0
			}
		}
		return true
	}
	return false
}

func isRemove(ev *Event) bool {
	return ev.Kind == "call" && (ev.Name == "os.Remove" || ev.Name == "os.RemoveAll")
}

// textOf: what a writing call adds, if it is one
func textOf(ev *Event) (w *Term, text *Term, ok bool) {
	if ev.Kind != "call" && ev.Kind != "invoke" {
		return nil, nil, false
	}
	a := ev.Args
	if len(a) == 0 {
		return nil, nil, false
	}
	unknown := mk("app", "unknown text", types.Typ[types.String], nil, a...)
	strs := func(l []*Term, sep string, nl string) *Term {
		var p []*Term
		for i, x := range l {
			if i > 0 {
				p = append(p, tStr(sep))
			}
			b := x.base()
			if _, ok := b.strVal(); !ok && (b.T == nil || !isStringT(b.T)) {
				return unknown
			}
			p = append(p, b)
		}
		return tConcat(append(p, tStr(nl))...)
	}
	switch ev.Name {
	case "fmt.Fprintf":
		return stripIface(a[0]), sprintf(a[1:]), true
	case "fmt.Fprint":
		return stripIface(a[0]), strs(a[1:], "", ""), true
	case "fmt.Fprintln":
		return stripIface(a[0]), strs(a[1:], " ", "\n"), true
	case "io.WriteString":
		return stripIface(a[0]), a[1], true
	case "(*bufio.Writer).WriteString", "(*os.File).WriteString", "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(io.StringWriter).WriteString":
		return stripIface(a[0]), a[1], true
	case "(*bufio.Writer).Write", "(*os.File).Write", "(*bytes.Buffer).Write", "(io.Writer).Write", "(*strings.Builder).Write":
		x := a[1]
		if (x.Op == "conv" || x.isApp("bytes")) && len(x.A) == 1 {
			x = x.A[0]
		}
		return stripIface(a[0]), x, true
	case "(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteRune", "(*bytes.Buffer).WriteByte":
		if n, ok := a[1].intVal(); ok {
			return stripIface(a[0]), tStr(string(rune(n))), true
		}
		return stripIface(a[0]), unknown, true
	}
	return nil, nil, false
}

func isStringT(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// outputs follows the files that the events create.
func outputs(o *Outcome) (all []*output) {
	for i, ev := range o.St.ev {
		if !createsFile(ev) {
			continue
		}
		rs := ev.results()
		if len(rs) == 0 {
			continue
		}
		if e := ev.errResult(); e != nil && o.St.facts.notNil(e) {
			continue
		}
		p := &output{file: rs[0], path: ev.Args[0], created: ev, writers: map[*Term]bool{rs[0]: true}, flushed: map[*Term]*Event{}, dirty: map[*Term]*Event{}}
		for _, x := range o.St.ev[i+1:] {
			p.step(x)
		}
		all = append(all, p)
	}
	return
}

func (p *output) step(x *Event) {
	if x.Sub != nil {
		// a loop that writes: what it writes is unknown
		every([]*Event{x}, func(y *Event, _ *Trace) {
			if y.Sub == nil {
				n := len(p.pieces)
				p.step(y)
				for j := n; j < len(p.pieces); j++ {
					if p.pieces[j].text != nil {
						p.pieces[j].text = mk("app", "text of a loop", types.Typ[types.String], nil, p.pieces[j].text)
					}
				}
			}
		})
		return
	}
	if isRemove(x) && len(x.Args) == 1 && (x.Args[0] == p.path) {
		p.removed = x
		return
	}
	if x.Name == "os.Rename" {
		p.moved = x
	}
	if createsFile(x) && x.Args[0] == p.path {
		p.removed = nil
	}
	if w, text, ok := textOf(x); ok && p.writers[w] {
		p.pieces = append(p.pieces, piece{text, x})
		p.wrote(w, x)
		return
	}
	switch x.Name {
	case "bufio.NewWriter", "bufio.NewWriterSize":
		if p.writers[stripIface(x.Args[0])] {
			p.writers[x.Res] = true
			p.flushed[x.Res] = nil
			p.dirty[x.Res] = nil
		}
		return
	case "(*bufio.Writer).Flush":
		if p.writers[x.Args[0]] {
			p.flushed[x.Args[0]] = x
			p.dirty[x.Args[0]] = nil
			p.steps = append(p.steps, x)
			if p.closed != nil {
				p.late = x
			}
		}
		return
	case "(*os.File).Close", "(io.Closer).Close":
		if stripIface(x.Args[0]) == p.file {
			p.closed = x
			p.steps = append(p.steps, x)
		}
		return
	case "(*os.File).Sync":
		p.steps = append(p.steps, x)
		return
	}
	if x.Kind == "call" || x.Kind == "invoke" || x.Kind == "dyn" || x.Kind == "rec" {
		if x.Pure {
			return
		}
		for _, a := range x.Args {
			if p.writers[stripIface(a)] {
				p.pieces = append(p.pieces, piece{nil, x})
				p.steps = append(p.steps, x)
				p.wrote(stripIface(a), x)
				return
			}
		}
	}
}

func (p *output) wrote(w *Term, x *Event) {
	if p.closed != nil {
		p.late = x
	}
	if _, buf := p.dirty[w]; buf {
		p.dirty[w] = x
		return
	}
	p.steps = append(p.steps, x)
}

// ---- C08 ----

func c08(c *Ctx) {
	pack := c.fn("cmd/pkger/cmds", "Package")
	exec := c.method("cmd/pkger/cmds", "packCmd", "Exec")
	stuff := c.fn("pkging/pkgutil", "Stuff")
	if pack == nil || exec == nil || stuff == nil {
		return
	}
	n := 0
	for _, fn := range []*ssa.Function{pack, exec} {
		e := newEng(c.P)
		e.Inject = func(ev *Event) bool {
			// whatever the program itself does while it writes may panic
			return ev.Kind == "call" && (strings.HasPrefix(ev.Name, "pkging/") || strings.HasPrefix(ev.Name, "parser.") || strings.HasPrefix(ev.Name, "(parser.") || strings.HasPrefix(ev.Name, "here."))
		}
		n += c.completeOrNone(fn, c.runEng(e, fn))
	}
	c.atLeast("paths on which the file is created", n, 10)

	// the previous file goes before the sources are read
	for _, o := range c.run(exec) {
		k := fnName(exec)
		var gone []*Term
		for _, ev := range o.St.ev {
			if isRemove(ev) {
				gone = append(gone, ev.Args[0])
			}
			if ev.Name == "parser.Parse" || strings.HasPrefix(ev.Name, "(*parser.Parser).") {
				c.check("previous file", k, ev.pos(), len(gone) > 0, "the sources are analysed while the previous generated file is still there")
				for _, p := range outputs(o) {
					found := false
					for _, g := range gone {
						if g == p.path {
							found = true
						}
					}
					c.check("previous file", k, ev.pos(), found, "the sources are analysed before %s is removed, which is the file that is written", p.path)
				}
			}
		}
		if o.Panic == nil && o.St.facts.isNil(o.err(exec)) {
			c.check("packs", k, o.where(exec), len(outputs(o)) == 1, "success is reported on a path that writes no file, or several")
		}
	}
	// Stuff writes or fails
	writes := 0
	for _, o := range c.run(stuff) {
		k := fnName(stuff)
		if o.Panic != nil || !o.St.facts.isNil(o.err(stuff)) {
			if o.Panic == nil && !o.St.facts.notNil(o.err(stuff)) {
				// the error of the last step is the result
				ok := false
				for _, ev := range o.St.ev {
					if ev.errResult() == o.err(stuff) {
						ok = true
					}
				}
				c.check("written", k, o.where(stuff), ok, "the result %s is not the error of a step", o.err(stuff))
			} else {
				continue
			}
		}
		ok := false
		for _, ev := range o.St.ev {
			w, _, is := textOf(ev)
			if !is || w != c.P.paramTerm(stuff, 0) {
				continue
			}
			writes++
			E := ev.errResult()
			ok = E == nil || o.St.facts.isNil(E) || E == o.err(stuff)
			c.check("written", k, ev.pos(), ok, "the error of the write is not looked at")
		}
		c.check("written", k, o.where(stuff), ok, "success is reported without the data being written")
	}
	c.atLeast("paths of Stuff that write", writes, 1)
}

func (p *Prog) paramTerm(fn *ssa.Function, i int) *Term {
	return newEng(p).Params(fn)[i]
}

// completeOrNone looks at the files that the paths of a function create.
func (c *Ctx) completeOrNone(fn *ssa.Function, outs []*Outcome) (n int) {
	k := fnName(fn)
	for _, o := range outs {
		if o.Panic == tExit {
			continue
		}
		for _, p := range outputs(o) {
			n++
			f := o.St.facts
			E := o.err(fn)
			if o.Panic != nil {
				c.check("none after a panic", k, p.created.pos(), p.removed != nil, "after %s the file %s that was created stays behind", o.Panic, p.path)
				continue
			}
			if !f.isNil(E) {
				c.check("none after a failure", k, o.where(fn), p.removed != nil || p.moved != nil, "the file %s that was created stays behind %s", p.path, cond(f))
				c.check("complete", k, o.where(fn), f.notNil(E) || p.removed == nil, "the file is removed though success may be reported")
				continue
			}
			where := o.where(fn)
			c.check("complete", k, where, p.removed == nil, "success is reported though the file was removed")
			if ce := p.created.errResult(); ce != nil {
				c.check("complete", k, where, f.isNil(ce), "the error of %s is not looked at", p.created.Name)
			}
			for _, s := range p.steps {
				if se := s.errResult(); se != nil {
					c.check("complete", k, s.pos(), f.isNil(se), "success is reported though %s may have failed", s.Name)
				}
			}
			for w, d := range p.dirty {
				if d != nil {
					c.check("flushed", k, d.pos(), false, "what %s writes to the buffer %s is not flushed when success is reported", d.Name, w)
				}
			}
			c.check("flushed", k, where, true, "")
			c.check("closed", k, where, p.closed != nil, "success is reported though the file was not closed")
			if p.late != nil {
				c.fail("closed", k, p.late.pos(), "%s after the file was closed", p.late.Name)
			}
			c.check("complete", k, where, len(p.pieces) > 0, "success is reported though nothing was written")
		}
	}
	return
}

// ---- C20 ----

type progImporter struct{ P *Prog }

func (i progImporter) Import(path string) (*types.Package, error) {
	for _, p := range i.P.pkgs {
		if p.PkgPath == path && p.Types != nil {
			return p.Types, nil
		}
	}
	if sp := i.P.prog.ImportedPackage(path); sp != nil {
		return sp.Pkg, nil
	}
	return nil, &importError{path}
}

type importError struct{ path string }

func (e *importError) Error() string { return "there is no package " + e.path }

const sampleName, samplePayload = "verifpkg", "1f8b0800verifpayload"

func c20(c *Ctx) {
	fn := c.fn("cmd/pkger/cmds", "Package")
	stuff := c.fn("pkging/pkgutil", "Stuff")
	enc := c.fn("pkging/embed", "Encode")
	if fn == nil || stuff == nil || enc == nil {
		return
	}
	k := fnName(fn)
	files := 0
	for _, o := range c.run(fn) {
		if o.Panic != nil || o.St.facts.notNil(o.err(fn)) {
			continue
		}
		for _, p := range outputs(o) {
			files++
			c.check("place", k, p.created.pos(), p.path == c.P.paramTerm(fn, 1), "the file is created at %s, not at the place asked for", p.path)
			var sb strings.Builder
			holes, names := 0, 0
			for _, pc := range p.pieces {
				if pc.text == nil {
					holes++
					c.check("payload", k, pc.by.pos(), pc.by.Name == "pkging/pkgutil.Stuff", "%s writes to the generated file", pc.by.Name)
					if pc.by.Name == "pkging/pkgutil.Stuff" && len(pc.by.Args) >= 2 {
						c.check("payload", k, pc.by.pos(), pc.by.Args[len(pc.by.Args)-2] == c.P.paramTerm(fn, 0) && pc.by.Args[len(pc.by.Args)-1] == c.P.paramTerm(fn, 2), "it is not given the info and the declarations of the caller")
					}
					sb.WriteString(samplePayload)
					continue
				}
				parts := []*Term{pc.text}
				if pc.text.Op == "concat" {
					parts = pc.text.A
				}
				for _, t := range parts {
					if s, ok := t.strVal(); ok {
						sb.WriteString(s)
						continue
					}
					names++
					sb.WriteString(sampleName)
					c.check("package name", k, pc.by.pos(), c.isPackageName(o, t, p.path), "%s is written into the generated file, which is not the name of the package of the directory it is in", t)
				}
			}
			c.check("payload", k, p.created.pos(), holes == 1, "the embedded data is written %d times", holes)
			c.check("package name", k, p.created.pos(), names == 1, "the package name is written %d times", names)
			c.validFile(k, p.created.pos(), sb.String())
		}
	}
	c.atLeast("generated files", files, 1)

	// what is written into the literal
	n := 0
	for _, o := range c.run(stuff) {
		for _, ev := range o.St.ev {
			w, text, ok := textOf(ev)
			if !ok {
				for _, a := range ev.args() {
					if stripIface(a) == c.P.paramTerm(stuff, 0) && !ev.Pure && ev.Sub == nil {
						c.fail("payload", fnName(stuff), ev.pos(), "%s writes into the generated file", ev.Name)
					}
				}
				continue
			}
			if w != c.P.paramTerm(stuff, 0) {
				continue
			}
			n++
			from := eventOf(o.St.ev, text)
			c.check("payload", fnName(stuff), ev.pos(), from != nil && from.Name == "pkging/embed.Encode" && text == from.results()[0], "%s is written into the literal of the generated file, not the encoded data", text)
		}
		one := 0
		for _, ev := range o.St.ev {
			if w, _, ok := textOf(ev); ok && w == c.P.paramTerm(stuff, 0) {
				one++
			}
		}
		if o.Panic == nil && !o.St.facts.notNil(o.err(stuff)) {
			c.check("payload", fnName(stuff), o.where(stuff), one == 1, "the data is written %d times", one)
		}
	}
	c.atLeast("writes of the data", n, 1)
	// the alphabet of the encoded data
	m := 0
	for _, o := range c.run(enc) {
		if o.Panic != nil || o.St.facts.notNil(o.err(enc)) {
			continue
		}
		m++
		c.check("alphabet", fnName(enc), o.where(enc), printable(o, o.Ret[0]), "the encoded data is %s, which may hold anything and end the literal it is written to", o.Ret[0])
	}
	c.atLeast("successful paths of Encode", m, 1)
}

// eventOf: the call that a term is a result of
func eventOf(evs []*Event, t *Term) *Event {
	for _, ev := range evs {
		for _, r := range ev.results() {
			if r == t {
				return ev
			}
		}
	}
	return nil
}

// isPackageName: the name of the package in the directory of the file
func (c *Ctx) isPackageName(o *Outcome, t, path *Term) bool {
	if t.Op != "field" || t.S != "Name" || len(t.A) != 1 || !isInfo(t.A[0].T) {
		return false
	}
	ev := eventOf(o.St.ev, t.A[0])
	if ev == nil || ev.Name != "here.Dir" || len(ev.Args) != 1 {
		return false
	}
	e := ev.errResult()
	if e == nil || !o.St.facts.isNil(e) {
		return false
	}
	d := ev.Args[0]
	return d.Op == "app" && (d.S == "path.Dir" || d.S == "filepath.Dir" || d.S == "path/filepath.Dir") && len(d.A) == 1 && d.A[0] == path
}

// printable: hex or base64 text
func printable(o *Outcome, t *Term) bool {
	t = t.base()
	for t != nil && (t.Op == "conv" || t.Op == "iface" || t.isApp("bytes") || t.isApp("string")) && len(t.A) == 1 {
		t = t.A[0]
	}
	if t.Op == "app" {
		switch t.S {
		case "encoding/hex.EncodeToString", "hex.EncodeToString", "(*encoding/base64.Encoding).EncodeToString", "(*base64.Encoding).EncodeToString":
			return true
		}
	}
	if ev := eventOf(o.St.ev, t); ev != nil {
		switch ev.Name {
		case "encoding/hex.EncodeToString", "(*encoding/base64.Encoding).EncodeToString":
			return true
		}
	}
	// hex.Encode(dst, src) with dst of the right length
	for _, ev := range o.St.ev {
		if (ev.Name == "encoding/hex.Encode" || ev.Name == "(*encoding/base64.Encoding).Encode") && len(ev.Args) >= 2 {
			dst := ev.Args[len(ev.Args)-2]
			if dst == t || dst.base() == t || t.contains(dst) {
				return true
			}
		}
	}
	return false
}

var marker = regexp.MustCompile(`^// Code generated .* DO NOT EDIT\.$`)

func (c *Ctx) validFile(k string, pos token.Pos, src string) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "pkged.go", src, parser.ParseComments)
	if !c.check("valid Go", k, pos, err == nil, "the generated file does not parse: %v", err) {
		return
	}
	lines := strings.Split(src, "\n")
	c.check("marker", k, pos, marker.MatchString(lines[0]), "the first line %q is not the marker of generated code", lines[0])
	// the build constraint
	found := false
	pkgLine := fset.Position(f.Package).Line
	for i, l := range lines[:pkgLine-1] {
		if !constraint.IsPlusBuild(l) && !constraint.IsGoBuild(l) {
			continue
		}
		x, err := constraint.Parse(l)
		if !c.check("build constraint", k, pos, err == nil, "the build constraint %q is not valid", l) {
			continue
		}
		if constraint.IsPlusBuild(l) {
			blank := false
			for _, b := range lines[i+1 : pkgLine-1] {
				if strings.TrimSpace(b) == "" {
					blank = true
				}
			}
			if !c.check("build constraint", k, pos, blank, "no blank line after the build constraint: it is a comment of the package clause and has no effect") {
				continue
			}
		}
		on := x.Eval(func(tag string) bool { return false })
		off := x.Eval(func(tag string) bool { return tag == "skippkger" })
		c.check("build constraint", k, pos, on && !off, "the build constraint %q does not leave the file out with the tag skippkger, and only then", l)
		found = true
	}
	c.check("build constraint", k, pos, found, "there is no build constraint in front of the package clause")
	c.check("package name", k, pos, f.Name.Name == sampleName, "the package clause is %q", f.Name.Name)

	var terrs []string
	conf := types.Config{Importer: progImporter{c.P}, Error: func(e error) { terrs = append(terrs, e.Error()) }}
	info := &types.Info{Uses: map[*ast.Ident]types.Object{}, Types: map[ast.Expr]types.TypeAndValue{}}
	conf.Check("example.com/verif", fset, []*ast.File{f}, info)
	if !c.check("valid Go", k, pos, len(terrs) == 0, "the generated file does not compile: %s", strings.Join(terrs, "; ")) {
		return
	}
	// what it does
	applies, other := 0, ""
	payload := ""
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if tv := info.Types[n.Fun]; tv.IsType() {
				return true
			}
			obj := callee(info, n)
			switch {
			case obj == nil:
				other = "a call"
			case obj.FullName() == modPath+".Apply":
				applies++
				if len(n.Args) == 1 {
					if in, ok := ast.Unparen(n.Args[0]).(*ast.CallExpr); ok {
						if g := callee(info, in); g != nil && g.FullName() == modPath+"/pkging/mem.UnmarshalEmbed" && len(in.Args) == 1 {
							if conv, ok := ast.Unparen(in.Args[0]).(*ast.CallExpr); ok && len(conv.Args) == 1 {
								if tv := info.Types[conv.Args[0]]; tv.Value != nil {
									payload = constString(tv.Value)
								}
							}
						}
					}
				}
			case obj.FullName() == modPath+"/pkging/mem.UnmarshalEmbed":
			default:
				other = obj.FullName()
			}
		case *ast.FuncDecl:
			if n.Name.Name != "init" || n.Recv != nil {
				other = "func " + n.Name.Name
			}
		case *ast.TypeSpec:
			other = "type " + n.Name.Name
		case *ast.ValueSpec:
			for _, x := range n.Names {
				if x.Name != "_" {
					other = "variable " + x.Name
				}
			}
		case *ast.AssignStmt, *ast.GoStmt:
			other = "a statement"
		}
		return true
	})
	c.check("effect", k, pos, applies == 1, "the generated file applies an implementation %d times", applies)
	c.check("effect", k, pos, other == "", "the generated file does more than to apply the decoded data: %s", other)
	c.check("effect", k, pos, payload == samplePayload, "what is decoded and applied is %q, not exactly the embedded data", payload)
}

func callee(info *types.Info, n *ast.CallExpr) *types.Func {
	var id *ast.Ident
	switch f := ast.Unparen(n.Fun).(type) {
	case *ast.Ident:
		id = f
	case *ast.SelectorExpr:
		id = f.Sel
	default:
		return nil
	}
	fn, _ := info.Uses[id].(*types.Func)
	return fn
}

func init() {
	register("C08", "typestate of the created file over all paths of Package and packCmd.Exec, with a panic injected at every call of the module's own code: created, written, flushed, closed on every path that reports success; removed on every other one", c08,
		"bufio.Writer keeps its first error and reports it from Flush", "os.RemoveAll removes the file (its own failure is not looked at)")
	register("C20", "the text of the generated file is put together from the writes on each successful path of Package, with markers for the package name and the data, then parsed and type-checked against this module; provenance of the package name and of the data", c20)
}

func constString(v interface{ ExactString() string }) string {
	s := v.ExactString()
	if u, err := strconv.Unquote(s); err == nil {
		return u
	}
	return s
}
