package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effects of functions outside the module, by class. The call graph of the
// module and of gobuffalo/here is followed down to the calls of the standard
// library, and these are classified here.

var pureStd = map[string]bool{}

func init() {
	for _, p := range strings.Fields(`bufio bytes cmp compress/flate compress/gzip compress/zlib container/heap container/list context crypto crypto/md5 crypto/sha1 crypto/sha256 crypto/sha512
encoding encoding/base64 encoding/base32 encoding/binary encoding/hex encoding/json errors go/ast go/build/constraint go/constant go/format go/printer go/scanner go/token hash hash/adler32 hash/crc32 hash/crc64 hash/fnv hash/maphash io iter
maps math math/big math/bits mime path reflect regexp regexp/syntax slices sort strconv strings sync sync/atomic text/tabwriter text/template unicode unicode/utf16 unicode/utf8 unique unsafe flag html io/fs internal/fmtsort`) {
		pureStd[p] = true
	}
}

// effect classes of a function of the standard library
func classify(f *ssa.Function) []string {
	o := f.Object()
	if o == nil {
		return nil
	}
	pkg := ""
	if o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	name := o.Name()
	recv := ""
	if sg, ok := o.Type().(*types.Signature); ok && sg.Recv() != nil {
		T := deref(sg.Recv().Type())
		if n, ok := types.Unalias(T).(*types.Named); ok {
			recv = n.Obj().Name()
		}
	}
	in := func(list string) bool {
		for _, x := range strings.Fields(list) {
			if x == name {
				return true
			}
		}
		return false
	}
	switch pkg {
	case "fmt":
		if recv == "" && (strings.HasPrefix(name, "Print")) {
			return []string{"print"}
		}
		if recv == "" && (name == "Scan" || name == "Scanln" || name == "Scanf") {
			return []string{"stdin"}
		}
		return nil
	case "log", "log/slog":
		if name == "New" || name == "NewJSONHandler" || name == "NewTextHandler" {
			return nil
		}
		if strings.HasPrefix(name, "Fatal") {
			return []string{"print", "exit"}
		}
		return []string{"print"}
	case "os":
		switch recv {
		case "File":
			switch {
			case in("Write WriteAt WriteString WriteTo ReadFrom Truncate Chmod Chown Sync"):
				return []string{"fs-write"}
			case in("Readdir Readdirnames ReadDir"):
				return []string{"fs-read", "dir-order"}
			case in("Name Fd String"):
				return nil
			case in("Chdir"):
				return []string{"chdir"}
			}
			return []string{"fs-read"}
		case "Process", "ProcAttr":
			return []string{"exec"}
		case "Root":
			return []string{"fs-read", "fs-write"}
		case "":
			switch {
			case in("IsNotExist IsExist IsPermission IsTimeout IsPathSeparator Expand SameFile NewSyscallError"):
				return nil
			case in("Exit"):
				return []string{"exit"}
			case in("Chdir"):
				return []string{"chdir"}
			case in("Setenv Unsetenv Clearenv"):
				return []string{"setenv"}
			case in("Getenv LookupEnv Environ ExpandEnv Hostname Getpid Getppid Getuid Geteuid Getgid Getegid Getgroups TempDir UserHomeDir UserCacheDir UserConfigDir Executable Getpagesize"):
				return []string{"process"}
			case in("StartProcess FindProcess"):
				return []string{"exec"}
			case in("Open Stat Lstat ReadFile ReadDir Readlink Getwd DirFS Pipe OpenInRoot CopyFS"):
				return []string{"fs-read"}
			case in("OpenFile"):
				return []string{"fs-read", "fs-write"}
			case in("CreateTemp MkdirTemp"):
				return []string{"fs-write", "random"}
			}
			return []string{"fs-write"} // Create, Remove, Mkdir, Rename ...
		}
		return nil // FileMode, PathError ...
	case "io/ioutil":
		switch {
		case in("ReadAll NopCloser"):
			return nil
		case in("ReadFile ReadDir"):
			return []string{"fs-read"}
		case in("TempFile TempDir"):
			return []string{"fs-write", "random"}
		}
		return []string{"fs-write"}
	case "path/filepath":
		if in("Walk WalkDir Glob EvalSymlinks Abs") {
			return []string{"fs-read"}
		}
		return nil
	case "go/parser":
		if in("ParseDir") {
			return []string{"fs-read"}
		}
		if in("ParseFile") {
			return nil // reads only without a source; see the callers
		}
		return nil
	case "os/exec":
		if in("Command CommandContext") && recv == "" || recv == "Cmd" && in("Run Start Output CombinedOutput") {
			return []string{"exec"}
		}
		if recv == "" {
			return []string{"fs-read"}
		}
		return nil
	case "os/signal":
		return []string{"signal"}
	case "os/user":
		return []string{"process"}
	case "time":
		if recv == "" && in("Now Since Until") {
			return []string{"time"}
		}
		if recv == "" && in("After AfterFunc Tick NewTicker NewTimer Sleep") {
			return []string{"time"}
		}
		if recv == "" && in("LoadLocation") {
			return []string{"fs-read"}
		}
		return nil
	case "math/rand", "math/rand/v2", "crypto/rand":
		return []string{"random"}
	case "runtime", "runtime/debug":
		switch {
		case in("Goexit"):
			return []string{"exit"}
		case in("PrintStack"):
			return []string{"print"}
		case in("GC KeepAlive SetFinalizer Gosched Version"):
			return nil
		}
		return []string{"process"}
	case "net/http":
		if in("DetectContentType StatusText CanonicalHeaderKey") {
			return nil
		}
		switch recv {
		case "Dir":
			return []string{"fs-read"}
		case "Header":
			return nil
		}
		if in("FileServer StripPrefix NewServeMux HandlerFunc NotFound Error") {
			return nil
		}
		return []string{"net"}
	case "syscall", "golang.org/x/sys/unix":
		return []string{"syscall", "fs-write", "exit"}
	case "plugin", "testing", "internal/poll":
		return []string{"other"}
	}
	if strings.HasPrefix(pkg, "net") {
		if pkg == "net/url" || pkg == "net/textproto" || pkg == "net/netip" || pkg == "net/mail" {
			return nil
		}
		return []string{"net"}
	}
	if pureStd[pkg] || pkg == "" {
		return nil
	}
	return []string{"unknown"}
}

// fxEdge: a call, or a mention, of a function
type fxEdge struct {
	to  *ssa.Function
	pos token.Pos
}

// fxSite: something with an effect that is not a call of a function
type fxSite struct {
	class string
	what  string
	pos   token.Pos
}

type fxNode struct {
	calls []fxEdge
	sites []fxSite
	wide  []fxEdge // what an interface method may be
}

type fxGraph struct {
	P     *Prog
	nodes map[*ssa.Function]*fxNode
	impls map[string][]*ssa.Function
	types []types.Type
	gfun  map[*ssa.Global][]*ssa.Function
	// keep decides whether an interface call of caller may end in callee
	keep func(caller, callee *ssa.Function, iface types.Type, method string) bool
}

func newFx(P *Prog) *fxGraph {
	g := &fxGraph{P: P, nodes: map[*ssa.Function]*fxNode{}, impls: map[string][]*ssa.Function{}, gfun: map[*ssa.Global][]*ssa.Function{}}
	for path, sp := range P.ssap {
		if strings.Contains(path, "/pkgtest") {
			continue
		}
		for _, m := range sp.Members {
			if t, ok := m.(*ssa.Type); ok && !types.IsInterface(t.Type()) {
				g.types = append(g.types, t.Type(), types.NewPointer(t.Type()))
			}
		}
		if init := sp.Func("init"); init != nil {
			for _, b := range init.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					v, ok := st.Addr.(*ssa.Global)
					if !ok {
						continue
					}
					if f := funcOf(st.Val); f != nil {
						g.gfun[v] = append(g.gfun[v], f)
					}
				}
			}
		}
	}
	return g
}

// funcOf: the function behind a function value
func funcOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return funcOf(x.X)
	case *ssa.MakeInterface:
		return funcOf(x.X)
	}
	return nil
}

// bound and thunk functions stand for the method they call
func (g *fxGraph) node(f *ssa.Function) *fxNode {
	if n := g.nodes[f]; n != nil {
		return n
	}
	n := &fxNode{}
	g.nodes[f] = n
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var callee ssa.Value
			if cc, ok := in.(ssa.CallInstruction); ok {
				com := cc.Common()
				if _, ok := in.(*ssa.Go); ok {
					n.sites = append(n.sites, fxSite{"goroutine", "go statement", in.Pos()})
				}
				if com.IsInvoke() {
					it := com.Value.Type()
					for _, m := range g.implementers(it, com.Method) {
						if g.keep == nil || g.keep(f, m, it, com.Method.Name()) {
							n.wide = append(n.wide, fxEdge{m, in.Pos()})
						}
					}
					n.sites = append(n.sites, fxSite{"invoke", ifaceName(it) + "." + com.Method.Name(), in.Pos()})
				} else {
					callee = com.Value
					if bi, ok := com.Value.(*ssa.Builtin); ok && (bi.Name() == "print" || bi.Name() == "println") {
						n.sites = append(n.sites, fxSite{"print", bi.Name(), in.Pos()})
					}
					if com.StaticCallee() == nil {
						if _, ok := com.Value.(*ssa.Builtin); !ok {
							n.sites = append(n.sites, fxSite{"dynamic", com.Value.String(), in.Pos()})
						}
					}
				}
			}
			_ = callee
			if readOnlyOpen(in) {
				n.sites = append(n.sites, fxSite{"fs-read", "os.OpenFile", in.Pos()})
				continue
			}
			if s, ok := in.(*ssa.Select); ok && len(s.States) > 1 {
				n.sites = append(n.sites, fxSite{"select", "select", in.Pos()})
			}
			for _, op := range in.Operands(nil) {
				switch v := (*op).(type) {
				case *ssa.Function:
					n.calls = append(n.calls, fxEdge{v, in.Pos()})
				case *ssa.Global:
					if v.Pkg != nil && v.Pkg.Pkg.Path() == "os" && (v.Name() == "Stdout" || v.Name() == "Stderr") {
						n.sites = append(n.sites, fxSite{"print", "os." + v.Name(), in.Pos()})
					}
					for _, t := range g.gfun[v] {
						n.calls = append(n.calls, fxEdge{t, in.Pos()})
					}
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				n.calls = append(n.calls, fxEdge{mc.Fn.(*ssa.Function), in.Pos()})
			}
		}
	}
	return n
}

func ifaceName(T types.Type) string { return short(T.String()) }

func (g *fxGraph) implementers(T types.Type, m *types.Func) []*ssa.Function {
	it, ok := T.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	key := T.String() + "." + m.Name()
	if l, ok := g.impls[key]; ok {
		return l
	}
	var out []*ssa.Function
	for _, t := range g.types {
		if !types.Implements(t, it) {
			continue
		}
		sel := g.P.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
		if sel == nil {
			continue
		}
		if f := g.P.prog.MethodValue(sel); f != nil {
			out = append(out, f)
		}
	}
	g.impls[key] = out
	return out
}

// follow: functions with source that is part of the analysis
func (g *fxGraph) follow(f *ssa.Function) bool {
	if f.Pkg != nil {
		_, ok := g.P.ssap[f.Pkg.Pkg.Path()]
		return ok
	}
	// wrappers, bound methods, instances
	if f.Synthetic != "" && len(f.Blocks) > 0 {
		return true
	}
	return false
}

// hit: an effect, and the way to it
type hit struct {
	class string
	what  string
	pos   token.Pos
	path  []string
	in    *ssa.Function
}

func (h hit) String() string {
	return strings.Join(append(append([]string{}, h.path...), h.what), " -> ")
}

// reach lists the effects that the function may have, with the functions in
// stop not followed.
func (g *fxGraph) reach(root *ssa.Function, stop func(*ssa.Function) bool) (hits []hit, seen map[*ssa.Function]bool) {
	seen = map[*ssa.Function]bool{}
	type item struct {
		f    *ssa.Function
		path []string
	}
	queue := []item{{root, []string{fnName(root)}}}
	seen[root] = true
	for len(queue) > 0 {
		it := queue[0]
		queue = queue[1:]
		n := g.node(it.f)
		for _, s := range n.sites {
			hits = append(hits, hit{s.class, s.what, s.pos, it.path, it.f})
		}
		for _, e := range append(append([]fxEdge{}, n.calls...), n.wide...) {
			f := e.to
			if stop != nil && stop(f) {
				continue
			}
			if g.follow(f) {
				if !seen[f] {
					seen[f] = true
					queue = append(queue, item{f, append(append([]string{}, it.path...), fnName(f))})
				}
				continue
			}
			for _, c := range classify(f) {
				hits = append(hits, hit{c, fmt.Sprintf("%s", short(f.String())), e.pos, it.path, it.f})
			}
		}
	}
	return
}

// readOnlyOpen: os.OpenFile with flags that do not write
func readOnlyOpen(in ssa.Instruction) bool {
	cc, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	f := cc.Common().StaticCallee()
	if f == nil || f.String() != "os.OpenFile" || len(cc.Common().Args) < 2 {
		return false
	}
	k, ok := cc.Common().Args[1].(*ssa.Const)
	return ok && k.Value != nil && k.Int64()&^0x80000 == 0
}
