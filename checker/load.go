package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type-checked program in SSA form.
type Prog struct {
	dir    string
	pkgs   []*packages.Package
	prog   *ssa.Program
	ssap   map[string]*ssa.Package
	fset   *token.FileSet
	gconst map[*ssa.Global]*Term
	gdone  map[*ssa.Global]bool
	gstore map[*ssa.Global][]*ssa.Store
	all    []*ssa.Function
	allm   map[*ssa.Function]bool
	gmut   map[*Term]bool
}

func (p *Prog) inModule(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

func load(dir string) (*Prog, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GO111MODULE=on")
	env = append(env, "GOFLAGS=-mod=readonly")
	cfg := &packages.Config{
		Mode:  packages.LoadAllSyntax,
		Dir:   dir,
		Env:   env,
		Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.PkgPath == modPath || strings.HasPrefix(p.PkgPath, modPath+"/") {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	P := &Prog{dir: dir, pkgs: pkgs, prog: prog, ssap: map[string]*ssa.Package{}, fset: prog.Fset,
		gconst: map[*ssa.Global]*Term{}, gdone: map[*ssa.Global]bool{}, gstore: map[*ssa.Global][]*ssa.Store{}}
	for _, sp := range prog.AllPackages() {
		path := sp.Pkg.Path()
		if P.inModule(path) || strings.HasPrefix(path, "github.com/gobuffalo/here") {
			sp.Build()
			P.ssap[path] = sp
		}
	}
	if len(P.ssap) < 10 {
		return nil, fmt.Errorf("only %d packages of the module found", len(P.ssap))
	}
	P.collect()
	return P, nil
}

// collect lists all functions with source in the module (tests and test
// helpers excluded), closures included, and the stores to globals.
func (p *Prog) collect() {
	p.allm = map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || p.allm[f] || len(f.Blocks) == 0 {
			return
		}
		p.allm[f] = true
		p.all = append(p.all, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						p.gstore[g] = append(p.gstore[g], s)
					}
				}
			}
		}
	}
	var paths []string
	for k := range p.ssap {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		if !p.inModule(k) || strings.Contains(k, "/pkgtest") {
			continue
		}
		sp := p.ssap[k]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				T := m.Type()
				for _, X := range []types.Type{T, types.NewPointer(T)} {
					if types.IsInterface(X) {
						continue
					}
					ms := p.prog.MethodSets.MethodSet(X)
					for i := 0; i < ms.Len(); i++ {
						f := p.prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" && f.Pkg == sp {
							add(f)
						}
					}
				}
			}
		}
	}
}

// Source functions of the library (not the command line tool)
func (p *Prog) funcs(keep func(path string) bool) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.all {
		if keep == nil || keep(fnPkg(f)) {
			out = append(out, f)
		}
	}
	return out
}

func isCmd(path string) bool { return strings.HasPrefix(path, modPath+"/cmd") }
func isLib(path string) bool { return !isCmd(path) }

func (p *Prog) pos(n token.Pos) string {
	if !n.IsValid() {
		return "?"
	}
	q := p.fset.Position(n)
	rel, err := filepath.Rel(p.dir, q.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func (p *Prog) ipos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	if in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	// nearest instruction of the block with a position
	if b := in.Block(); b != nil {
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				return p.pos(x.Pos())
			}
		}
	}
	return p.pos(in.Parent().Pos())
}

// fn finds a package-level function: "pkging/mem.New" or "pkger.Open"
func (p *Prog) fn(pkg, name string) *ssa.Function {
	sp := p.ssap[pkgPath(pkg)]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func pkgPath(pkg string) string {
	if pkg == "" || pkg == "pkger" {
		return modPath
	}
	return modPath + "/" + pkg
}

// method finds a method by receiver type name, pointer or value receiver
func (p *Prog) method(pkg, typ, name string) *ssa.Function {
	T := p.typ(pkg, typ)
	if T == nil {
		return nil
	}
	for _, X := range []types.Type{T, types.NewPointer(T)} {
		sel := p.prog.MethodSets.MethodSet(X).Lookup(p.ssap[pkgPath(pkg)].Pkg, name)
		if sel != nil {
			f := p.prog.MethodValue(sel)
			if f.Synthetic != "" && f.Object() != nil {
				if o, ok := f.Object().(*types.Func); ok {
					if g := p.prog.FuncValue(o); g != nil && len(sel.Index()) == 1 {
						return g
					}
				}
			}
			return f
		}
	}
	return nil
}

func (p *Prog) typ(pkg, name string) types.Type {
	sp := p.ssap[pkgPath(pkg)]
	if sp == nil {
		return nil
	}
	t := sp.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

func (p *Prog) memFilePtr() types.Type {
	return types.NewPointer(p.typ("pkging/mem", "File"))
}

// ---- globals ----

func (p *Prog) globalTerm(g *ssa.Global) *Term {
	t := mk("global", g.String(), g.Type(), g)
	t.T = g.Type()
	return t
}

// globalValue: the value of a global that never changes once initialised
func (p *Prog) globalValue(a *Term) *Term {
	g, ok := a.X.(*ssa.Global)
	if !ok {
		return nil
	}
	if p.gdone[g] {
		return p.gconst[g]
	}
	p.gdone[g] = true
	T := deref(g.Type())
	path := ""
	if g.Pkg != nil {
		path = g.Pkg.Pkg.Path()
	}
	if !p.inModule(path) {
		if isErr(T) {
			n := short(g.String())
			if n == "io/fs.SkipDir" {
				n = "path/filepath.SkipDir"
			}
			p.gconst[g] = mk("errconst", n, T, g)
		}
		return p.gconst[g]
	}
	ss := p.gstore[g]
	if arr, ok := T.Underlying().(*types.Array); ok && len(ss) == 0 {
		p.gconst[g] = p.array(g, arr)
		return p.gconst[g]
	}
	if len(ss) != 1 || ss[0].Parent().Synthetic == "" || ss[0].Parent().Name() != "init" {
		return nil
	}
	if p.addressTaken(g) {
		return nil
	}
	if isErr(T) {
		if v := ss[0].Val; v != nil {
			if u, ok := v.(*ssa.UnOp); ok {
				if g2, ok := u.X.(*ssa.Global); ok {
					p.gconst[g] = p.globalValue(p.globalTerm(g2))
					return p.gconst[g]
				}
			}
		}
		p.gconst[g] = mk("errconst", short(g.String()), T, g)
		return p.gconst[g]
	}
	v := p.constValue(ss[0].Val, 0)
	if v != nil && v.Op == "constmap" && !p.onlyRead(g) {
		v = nil
	}
	p.gconst[g] = v
	return p.gconst[g]
}

func (p *Prog) addressTaken(g *ssa.Global) bool {
	for _, f := range p.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if *o != g {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						if x.Addr != ssa.Value(g) || x.Val == ssa.Value(g) {
							return true
						}
					default:
						return true
					}
				}
			}
		}
	}
	return false
}

// A mapLit is what a map with constant keys has in it.
type mapLit struct {
	ver   int
	pairs [][2]*Term
}

// literal: an update of a map that is being made
func (st *State) literal(m, k, v *Term) {
	old := st.mapall[m]
	if m.Op != "mkmap" || !k.isConst() {
		delete(st.mapall, m)
		return
	}
	n := &mapLit{ver: st.mapver[m] + 1}
	if old != nil && old.ver == st.mapver[m] {
		for _, p := range old.pairs {
			if p[0] != k {
				n.pairs = append(n.pairs, p)
			}
		}
	} else if st.mapver[m] != 0 {
		delete(st.mapall, m)
		return
	}
	n.pairs = append(n.pairs, [2]*Term{k, v})
	st.mapall[m] = n
}

// pairsOf: everything that is in the map, if that is known
func (p *Prog) pairsOf(st *State, m *Term) [][2]*Term {
	if m.Op == "constmap" {
		return m.X.(*mapLit).pairs
	}
	if l := st.mapall[m]; l != nil && l.ver == st.mapver[m] {
		return l.pairs
	}
	return nil
}

// onlyRead: whatever is loaded from the global is not written to, nor does
// anything but a function of the module get hold of it
func (p *Prog) onlyRead(g *ssa.Global) bool {
	for _, f := range p.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || u.X != ssa.Value(g) {
					continue
				}
				for _, r := range *u.Referrers() {
					switch r := r.(type) {
					case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
					case *ssa.Call:
						if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
							return false
						}
					default:
						return false
					}
				}
			}
		}
	}
	return true
}

// elements: what an array is made of, by what refers to it
func (p *Prog) elements(refs []ssa.Instruction, arr *types.Array, d int, fine func(ssa.Instruction) bool) []*Term {
	el := make([]*Term, arr.Len())
	for _, r := range refs {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			if fine(r) {
				continue
			}
			return nil
		}
		c, isC := ia.Index.(*ssa.Const)
		for _, s := range *ia.Referrers() {
			switch s := s.(type) {
			case *ssa.FieldAddr:
				// a struct, field by field
				for _, q := range *s.Referrers() {
					st, ok := q.(*ssa.Store)
					if !ok || !isC || st.Addr != ssa.Value(s) {
						if fine(q) {
							continue
						}
						return nil
					}
					x := p.constValue(st.Val, d+1)
					if x == nil {
						return nil
					}
					T := arr.Elem().Underlying().(*types.Struct)
					e := el[c.Int64()]
					if e == nil {
						fs := make([]*Term, T.NumFields())
						for i := range fs {
							fs[i] = tZero(T.Field(i).Type())
						}
						e = mk("struct", "", arr.Elem(), nil, fs...)
					}
					fs := append([]*Term(nil), e.A...)
					fs[s.Field] = x
					el[c.Int64()] = mk("struct", "", arr.Elem(), nil, fs...)
				}
			case *ssa.Store:
				x := p.constValue(s.Val, d+1)
				if x == nil || !isC || s.Addr != ssa.Value(ia) {
					return nil
				}
				el[c.Int64()] = x
			default:
				if !fine(s) {
					return nil
				}
			}
		}
	}
	for i := range el {
		if el[i] == nil {
			el[i] = tZero(arr.Elem())
		}
	}
	return el
}

// array: what is in an array that never changes once initialised
func (p *Prog) array(g *ssa.Global, arr *types.Array) *Term {
	if arr.Len() > 64 {
		return nil
	}
	var refs []ssa.Instruction
	for _, f := range p.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if *o == ssa.Value(g) {
						refs = append(refs, in)
					}
				}
				if st, ok := in.(*ssa.Store); ok && !isInit(f) && (rootGlobal(st.Addr) == g || st.Val == ssa.Value(g)) {
					return nil
				}
			}
		}
	}
	el := p.elements(refs, arr, 0, func(in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.UnOp:
			return in.Op == token.MUL
		case *ssa.DebugRef:
			return true
		}
		return false
	})
	if el == nil {
		return nil
	}
	return mk("list", "", deref(g.Type()), nil, el...)
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		default:
			return nil
		}
	}
}

// constValue evaluates constants and literals of constants
func (p *Prog) constValue(v ssa.Value, d int) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return nil
		}
		return tConst(v.Value)
	case *ssa.Function:
		return mk("func", v.String(), v.Type(), v)
	case *ssa.UnOp:
		// a literal of a struct
		al, ok := v.X.(*ssa.Alloc)
		if !ok || v.Op != token.MUL {
			return nil
		}
		if arr, ok := v.Type().Underlying().(*types.Array); ok && arr.Len() <= 64 {
			el := p.elements(*al.Referrers(), arr, d, func(in ssa.Instruction) bool { return in == ssa.Instruction(v) })
			if el == nil {
				return nil
			}
			return mk("list", "", v.Type(), nil, el...)
		}
		T, ok := v.Type().Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		fs := make([]*Term, T.NumFields())
		for i := range fs {
			fs[i] = tZero(T.Field(i).Type())
		}
		for _, r := range *al.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				rs := *r.Referrers()
				if len(rs) != 1 {
					return nil
				}
				st, ok := rs[0].(*ssa.Store)
				if !ok || st.Addr != ssa.Value(r) {
					return nil
				}
				if fs[r.Field] = p.constValue(st.Val, d+1); fs[r.Field] == nil {
					return nil
				}
			default:
				return nil
			}
		}
		return mk("struct", "", v.Type(), nil, fs...)
	case *ssa.ChangeType:
		return p.constValue(v.X, d)
	case *ssa.MakeInterface:
		x := p.constValue(v.X, d)
		if x == nil {
			return nil
		}
		return mk("iface", typeKey(v.X.Type()), v.X.Type(), nil, x)
	case *ssa.MakeMap:
		l := &mapLit{}
		at := map[*Term]bool{}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.MapUpdate:
				k, x := p.constValue(r.Key, d+1), p.constValue(r.Value, d+1)
				if r.Map != ssa.Value(v) || k == nil || x == nil || !k.isConst() || at[k] {
					return nil
				}
				at[k] = true
				l.pairs = append(l.pairs, [2]*Term{k, x})
			case *ssa.Store, *ssa.DebugRef:
			default:
				return nil
			}
		}
		return mk("constmap", v.Parent().String()+"@"+fmt.Sprint(v.Pos()), v.Type(), l)
	case *ssa.Slice:
		al, ok := v.X.(*ssa.Alloc)
		if !ok || v.Low != nil || v.High != nil {
			return nil
		}
		arr, ok := deref(al.Type()).Underlying().(*types.Array)
		if !ok {
			return nil
		}
		el := p.elements(*al.Referrers(), arr, d, func(in ssa.Instruction) bool {
			_, ok := in.(*ssa.Slice)
			return ok
		})
		if el == nil {
			return nil
		}
		return mk("list", "", v.Type(), nil, el...)
	}
	return nil
}

// mutableGlobals: variables of the module that are assigned after
// initialisation
func (p *Prog) mutableGlobals() map[*Term]bool {
	if p.gmut != nil {
		return p.gmut
	}
	p.gmut = map[*Term]bool{}
	for g, ss := range p.gstore {
		for _, s := range ss {
			if !isInit(s.Parent()) {
				p.gmut[p.globalTerm(g)] = true
			}
		}
	}
	return p.gmut
}

func isInit(f *ssa.Function) bool {
	return f.Synthetic != "" && f.Name() == "init"
}

// ---- contracts: exported functions with a property of their own ----

var contracts = map[string]bool{}

func init() {
	for _, s := range strings.Fields(`
pkger.Apply pkger.Parse pkger.Current pkger.Info pkger.Create pkger.MkdirAll pkger.Open pkger.Stat pkger.Walk pkger.Remove pkger.RemoveAll pkger.Include
here.Dir here.Package here.Current
parser.Parse parser.New parser.NewInclude (parser.Decls).Files (*parser.Parser).Decls (*parser.Parser).Parse (*parser.ParsedSource).DeclsMap
pkging/embed.Encode pkging/embed.Decode
pkging/pkgutil.Stuff pkging/pkgutil.Dump
pkging/mem.New pkging/mem.UnmarshalEmbed
(*pkging/mem.Pkger).Add (*pkging/mem.Pkger).MarshalJSON (*pkging/mem.Pkger).UnmarshalJSON
(*pkging/mem.Pkger).Parse (*pkging/mem.Pkger).Current (*pkging/mem.Pkger).Info (*pkging/mem.Pkger).Create (*pkging/mem.Pkger).MkdirAll (*pkging/mem.Pkger).Open (*pkging/mem.Pkger).Stat (*pkging/mem.Pkger).Walk (*pkging/mem.Pkger).Remove (*pkging/mem.Pkger).RemoveAll
pkging/stdos.New
(*pkging/stdos.Pkger).Parse (*pkging/stdos.Pkger).Current (*pkging/stdos.Pkger).Info (*pkging/stdos.Pkger).Create (*pkging/stdos.Pkger).MkdirAll (*pkging/stdos.Pkger).Open (*pkging/stdos.Pkger).Stat (*pkging/stdos.Pkger).Walk (*pkging/stdos.Pkger).Remove (*pkging/stdos.Pkger).RemoveAll
`) {
		contracts[s] = true
	}
}

func (p *Prog) isContract(f *ssa.Function) bool {
	return contracts[fnName(f)]
}

// syntax of a package, for rules over the syntax tree
func (p *Prog) syntax(pkg string) (*packages.Package, []*ast.File) {
	for _, x := range p.pkgs {
		if x.PkgPath == pkgPath(pkg) {
			return x, x.Syntax
		}
	}
	return nil, nil
}
