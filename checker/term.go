package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path"
	"sort"
	"strconv"
	"strings"
)

// A Term is a hash-consed abstract value. Two values are known to be equal
// when they are the same term.
type Term struct {
	ID int
	Op string
	S  string
	A  []*Term
	T  types.Type
	X  interface{}
}

type termTable struct {
	m map[string]*Term
	n int
}

var tt = &termTable{m: map[string]*Term{}}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func mk(op, s string, t types.Type, x interface{}, a ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(s)
	for _, y := range a {
		sb.WriteByte('|')
		if y == nil {
			sb.WriteString("nil!")
			continue
		}
		sb.WriteString(strconv.Itoa(y.ID))
	}
	switch op {
	case "zero", "iface", "struct", "istype", "assert", "list", "alloc", "param", "sym", "res", "mkmap":
		sb.WriteString("|T:" + typeKey(t))
	}
	k := sb.String()
	if o, ok := tt.m[k]; ok {
		return o
	}
	tt.n++
	o := &Term{ID: tt.n, Op: op, S: s, A: append([]*Term(nil), a...), T: t, X: x}
	tt.m[k] = o
	return o
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 12 {
		return "…"
	}
	args := func() string {
		var p []string
		for _, a := range t.A {
			p = append(p, a.str(d+1))
		}
		return strings.Join(p, ", ")
	}
	switch t.Op {
	case "const":
		return t.S
	case "nil", "true", "false":
		return t.Op
	case "param":
		return t.S[strings.LastIndexByte(t.S, '/')+1:]
	case "field":
		return t.A[0].str(d+1) + "." + t.S
	case "faddr":
		return "&" + t.A[0].str(d+1) + "." + t.S
	case "deref":
		return "*" + t.A[0].str(d+1)
	case "app":
		return t.S + "(" + args() + ")"
	case "res":
		return t.S
	case "ext":
		return t.A[0].str(d+1) + "." + t.S
	case "iface":
		return t.A[0].str(d + 1)
	case "global", "func", "sym", "alloc":
		return t.S
	case "eq":
		return "(" + t.A[0].str(d+1) + " == " + t.A[1].str(d+1) + ")"
	case "lt":
		return "(" + t.A[0].str(d+1) + " < " + t.A[1].str(d+1) + ")"
	case "concat":
		var p []string
		for _, a := range t.A {
			p = append(p, a.str(d+1))
		}
		return "(" + strings.Join(p, "+") + ")"
	case "index":
		return t.A[0].str(d+1) + "[" + t.A[1].str(d+1) + "]"
	case "len":
		return "len(" + t.A[0].str(d+1) + ")"
	case "struct":
		n := ""
		if t.T != nil {
			n = types.TypeString(t.T, func(*types.Package) string { return "" })
		}
		if t.isZero() {
			return n + "{}"
		}
		st, _ := t.T.Underlying().(*types.Struct)
		var p []string
		for i, a := range t.A {
			if a.isZero() {
				continue
			}
			f := ""
			if st != nil && i < st.NumFields() {
				f = st.Field(i).Name() + ":"
			}
			p = append(p, f+a.str(d+1))
		}
		return n + "{" + strings.Join(p, ", ") + "}"
	case "not":
		return "!" + t.A[0].str(d+1)
	}
	s := t.Op
	if t.S != "" {
		s += ":" + t.S
	}
	return s + "(" + args() + ")"
}

func (t *Term) isZero() bool {
	if t == nil {
		return false
	}
	switch t.Op {
	case "nil", "false":
		return true
	case "const":
		return t.S == `""` || t.S == "0"
	case "struct":
		for _, a := range t.A {
			if !a.isZero() {
				return false
			}
		}
		return true
	case "zero":
		return true
	}
	return false
}

var (
	tNil   = mk("nil", "", nil, nil)
	tTrue  = mk("true", "", nil, nil)
	tFalse = mk("false", "", nil, nil)
)

func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func tStr(s string) *Term {
	return mk("const", strconv.Quote(s), types.Typ[types.String], constant.MakeString(s))
}

func tInt(i int64) *Term {
	return mk("const", strconv.FormatInt(i, 10), types.Typ[types.Int], constant.MakeInt64(i))
}

func tConst(v constant.Value) *Term {
	switch v.Kind() {
	case constant.Bool:
		return tBool(constant.BoolVal(v))
	case constant.String:
		return tStr(constant.StringVal(v))
	case constant.Int:
		return mk("const", v.ExactString(), types.Typ[types.Int], v)
	}
	return mk("const", v.ExactString(), nil, v)
}

func (t *Term) strVal() (string, bool) {
	if t != nil && t.Op == "const" {
		if v, ok := t.X.(constant.Value); ok && v.Kind() == constant.String {
			return constant.StringVal(v), true
		}
	}
	return "", false
}

func (t *Term) intVal() (int64, bool) {
	if t != nil && t.Op == "const" {
		if v, ok := t.X.(constant.Value); ok && v.Kind() == constant.Int {
			return constant.Int64Val(v)
		}
	}
	return 0, false
}

func (t *Term) isConst() bool {
	switch t.Op {
	case "const", "nil", "true", "false":
		return true
	}
	return false
}

// zero value of a type
func tZero(T types.Type) *Term {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return tStr("")
		case u.Info()&types.IsInteger != 0:
			return tInt(0)
		case u.Info()&types.IsNumeric != 0:
			return tConst(constant.MakeFloat64(0))
		}
		return tNil
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, tZero(u.Field(i).Type()))
		}
		return mk("struct", "", T, nil, fs...)
	case *types.Array:
		return mk("zero", typeKey(T), T, nil)
	case *types.Tuple:
		return mk("zero", typeKey(T), T, nil)
	}
	return tNil
}

func tStruct(T types.Type, fs []*Term) *Term {
	// eta: all fields of one value give that value
	if len(fs) > 0 && fs[0].Op == "field" {
		b := fs[0].A[0]
		st, _ := T.Underlying().(*types.Struct)
		same := st != nil && b.T != nil && types.Identical(b.T, T)
		if same {
			for i, f := range fs {
				if f.Op != "field" || f.A[0] != b || f.S != st.Field(i).Name() {
					same = false
					break
				}
			}
		}
		if same {
			return b
		}
	}
	return mk("struct", "", T, nil, fs...)
}

func tField(x *Term, T types.Type, i int) *Term {
	if x.Op == "struct" && i < len(x.A) {
		return x.A[i]
	}
	st := T.Underlying().(*types.Struct)
	return mk("field", st.Field(i).Name(), st.Field(i).Type(), i, x)
}

func tFaddr(p *Term, pt types.Type, i int) *Term {
	st := deref(pt).Underlying().(*types.Struct)
	return mk("faddr", st.Field(i).Name(), types.NewPointer(st.Field(i).Type()), i, p)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func tNot(a *Term) *Term {
	switch a.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.A[0]
	}
	return mk("not", "", types.Typ[types.Bool], nil, a)
}

func tLen(x *Term) *Term {
	switch x.Op {
	case "nil":
		return tInt(0)
	case "list":
		return tInt(int64(len(x.A)))
	case "zero":
		if a, ok := x.T.Underlying().(*types.Array); ok {
			return tInt(a.Len())
		}
	}
	if s, ok := x.strVal(); ok {
		return tInt(int64(len(s)))
	}
	if x.Op == "app" && (x.S == "bytes" || x.S == "string") {
		return tLen(x.A[0])
	}
	return mk("len", "", types.Typ[types.Int], nil, x)
}

// provably not nil
func nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "iface", "closure", "func", "global", "faddr", "iaddr", "list", "mkmap", "mkslice", "mkchan", "bound", "errconst", "stored":
		return true
	case "const", "true", "false", "struct", "errval":
		return true
	case "app":
		switch t.S {
		case "bytes", "string", "Path.String":
			return true
		}
	case "append":
		for _, a := range t.A[1:] {
			if nonNil(a) {
				return true
			}
		}
		return nonNil(t.A[0])
	}
	return false
}

func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return tFalse
	}
	if a == tNil && nonNil(b) || b == tNil && nonNil(a) {
		return tFalse
	}
	// two fresh objects, or a fresh object and something older
	if a.Op == "alloc" && b.Op == "alloc" {
		return tFalse
	}
	if a == tTrue {
		return b
	}
	if b == tTrue {
		return a
	}
	if a == tFalse {
		return tNot(b)
	}
	if b == tFalse {
		return tNot(a)
	}
	if a.Op == "iface" && b.Op == "iface" {
		if a.T != nil && b.T != nil && !types.Identical(a.T, b.T) {
			return tFalse
		}
		return tEq(a.A[0], b.A[0])
	}
	if a.Op == "errconst" && b.Op == "errconst" {
		return tFalse
	}
	if a.Op == "struct" && b.Op == "struct" && len(a.A) == len(b.A) {
		all := true
		for i := range a.A {
			e := tEq(a.A[i], b.A[i])
			if e == tFalse {
				return tFalse
			}
			if e != tTrue {
				all = false
			}
		}
		if all {
			return tTrue
		}
	}
	// s == "" is len(s) == 0
	if s, ok := a.strVal(); ok && s == "" {
		return tEq(tLen(b), tInt(0))
	}
	if s, ok := b.strVal(); ok && s == "" {
		return tEq(tLen(a), tInt(0))
	}
	if a.Op == "len" {
		if k, ok := b.intVal(); ok && k == 0 {
			return tLt(a, tInt(1))
		} else if ok && k < 0 {
			return tFalse
		}
	}
	if b.Op == "len" {
		if k, ok := a.intVal(); ok && k == 0 {
			return tLt(b, tInt(1))
		} else if ok && k < 0 {
			return tFalse
		}
	}
	// x + c == d
	if a.Op == "add" {
		if c, ok := a.A[1].intVal(); ok {
			if d, ok := b.intVal(); ok {
				return tEq(a.A[0], tInt(d-c))
			}
		}
	}
	if b.Op == "add" {
		if c, ok := b.A[1].intVal(); ok {
			if d, ok := a.intVal(); ok {
				return tEq(b.A[0], tInt(d-c))
			}
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("eq", "", types.Typ[types.Bool], nil, a, b)
}

func tLt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	x, okx := a.intVal()
	y, oky := b.intVal()
	if okx && oky {
		return tBool(x < y)
	}
	if s, ok := a.strVal(); ok {
		if s2, ok := b.strVal(); ok {
			return tBool(s < s2)
		}
	}
	if a.Op == "add" && oky {
		if c, ok := a.A[1].intVal(); ok {
			return tLt(a.A[0], tInt(y-c))
		}
	}
	if b.Op == "add" && okx {
		if c, ok := b.A[1].intVal(); ok {
			return tLt(tInt(x-c), b.A[0])
		}
	}
	if okx {
		// x < b  <=>  not (b < x+1)
		return tNot(tLt(b, tInt(x+1)))
	}
	if oky && a.Op == "len" && y <= 0 {
		return tFalse
	}
	return mk("lt", "", types.Typ[types.Bool], nil, a, b)
}

func isStringy(t *Term) bool {
	if t.T == nil {
		return t.Op == "concat" || t.Op == "app"
	}
	b, ok := t.T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func tConcat(a ...*Term) *Term {
	var out []*Term
	add := func(t *Term) {
		if s, ok := t.strVal(); ok {
			if s == "" {
				return
			}
			if n := len(out); n > 0 {
				if p, ok := out[n-1].strVal(); ok {
					out[n-1] = tStr(p + s)
					return
				}
			}
		}
		out = append(out, t)
	}
	for _, t := range a {
		if t.Op == "concat" {
			for _, u := range t.A {
				add(u)
			}
			continue
		}
		add(t)
	}
	switch len(out) {
	case 0:
		return tStr("")
	case 1:
		return out[0]
	}
	return mk("concat", "", types.Typ[types.String], nil, out...)
}

func tAdd(a, b *Term) *Term {
	x, okx := a.intVal()
	y, oky := b.intVal()
	switch {
	case okx && oky:
		return tInt(x + y)
	case okx:
		return tAdd(b, a)
	case oky && y == 0:
		return a
	case oky && a.Op == "add":
		if c, ok := a.A[1].intVal(); ok {
			return tAdd(a.A[0], tInt(c+y))
		}
	}
	return mk("add", "", types.Typ[types.Int], nil, a, b)
}

func tSub(a, b *Term) *Term {
	if a == b {
		return tInt(0)
	}
	if y, ok := b.intVal(); ok {
		return tAdd(a, tInt(-y))
	}
	return mk("sub", "", types.Typ[types.Int], nil, a, b)
}

func tIndex(x, i *Term, T types.Type) *Term {
	if x.Op == "list" {
		if k, ok := i.intVal(); ok && k >= 0 && int(k) < len(x.A) {
			return x.A[k]
		}
	}
	if x.Op == "slice" {
		lo := x.A[1]
		return tIndex(x.A[0], tAdd(lo, i), T)
	}
	return mk("index", "", T, nil, x, i)
}

// tSlice: x[lo:hi], hi may be nil (tNil) for the end
func tSlice(x, lo, hi *Term, T types.Type) *Term {
	if hi != tNil && hi == tLen(x) {
		hi = tNil
	}
	if lo == tNil {
		lo = tInt(0)
	}
	if k, ok := lo.intVal(); ok && k == 0 && hi == tNil {
		return x
	}
	if s, ok := x.strVal(); ok {
		l, okl := lo.intVal()
		h := int64(len(s))
		okh := true
		if hi != tNil {
			h, okh = hi.intVal()
		}
		if okl && okh && 0 <= l && l <= h && h <= int64(len(s)) {
			return tStr(s[l:h])
		}
	}
	if x.Op == "slice" {
		nlo := tAdd(x.A[1], lo)
		nhi := x.A[2]
		if hi != tNil {
			nhi = tAdd(x.A[1], hi)
		}
		return mk("slice", "", T, nil, x.A[0], nlo, nhi)
	}
	return mk("slice", "", T, nil, x, lo, hi)
}

// binary operator on terms
func tBin(op token.Token, a, b *Term, T types.Type) *Term {
	switch op {
	case token.EQL:
		return tEq(a, b)
	case token.NEQ:
		return tNot(tEq(a, b))
	case token.LSS:
		return tLt(a, b)
	case token.GTR:
		return tLt(b, a)
	case token.LEQ:
		return tNot(tLt(b, a))
	case token.GEQ:
		return tNot(tLt(a, b))
	case token.ADD:
		if bt, ok := T.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return tConcat(a, b)
		}
		return tAdd(a, b)
	case token.SUB:
		return tSub(a, b)
	}
	ca, oka := a.X.(constant.Value)
	cb, okb := b.X.(constant.Value)
	if oka && okb && a.Op == "const" && b.Op == "const" {
		switch op {
		case token.AND, token.OR, token.XOR, token.MUL, token.AND_NOT:
			if v := constant.BinaryOp(ca, op, cb); v.Kind() == constant.Int {
				return tConst(v)
			}
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(cb); ok && n < 64 {
				return tConst(constant.Shift(ca, op, uint(n)))
			}
		}
	}
	switch op {
	case token.AND, token.OR, token.XOR, token.MUL:
		if a.ID > b.ID {
			a, b = b, a
		}
	}
	return mk("bin", op.String(), T, nil, a, b)
}

func relative(t *Term) bool {
	s, ok := t.strVal()
	return ok && s != "" && s[0] != '/'
}

// pure application, with the normal forms that matter here
func tApp(name string, T types.Type, a ...*Term) *Term {
	switch name {
	case "path/filepath.Join", "path/filepath.Clean", "path/filepath.Dir", "path/filepath.Base", "path/filepath.Ext", "path/filepath.IsAbs", "path/filepath.Split", "path/filepath.Match":
		name = strings.Replace(name, "path/filepath.", "path.", 1)
	case "path/filepath.ToSlash", "path/filepath.FromSlash":
		return a[0]
	}
	switch name {
	case "path.Join":
		var flat []*Term
		for _, x := range a {
			// a rooted path below another one drops the parent elements
			// that it cannot follow, before it is joined
			if x.Op == "app" && x.S == "path.Join" && (len(flat) == 0 || relative(x.A[0])) {
				flat = append(flat, x.A...)
			} else if s, ok := x.strVal(); ok && s == "" {
				continue
			} else {
				flat = append(flat, x)
			}
		}
		a = flat
		if len(a) == 0 {
			return tStr("")
		}
		if len(a) == 1 {
			return tApp("path.Clean", T, a[0])
		}
		if s, ok := a[0].strVal(); ok && s == "/" && len(a) == 2 {
			return tApp("path.Clean", T, tConcat(a[0], a[1]))
		}
	case "strings.Join":
		// of listed strings
		if sep, ok := a[1].strVal(); ok && a[0].Op == "list" && len(a[0].A) > 0 {
			var parts []*Term
			for i, x := range a[0].A {
				if x.Op == "spread" || x.T == nil || !isStringy(x) {
					parts = nil
					break
				}
				if i > 0 {
					parts = append(parts, tStr(sep))
				}
				parts = append(parts, x)
			}
			if parts != nil {
				return tConcat(parts...)
			}
		}
	case "path.Clean":
		if s, ok := a[0].strVal(); ok {
			return tStr(path.Clean(s))
		}
		if a[0].Op == "app" && (a[0].S == "path.Clean" || a[0].S == "path.Join" || a[0].S == "path.Dir") {
			return a[0]
		}
	case "path.Base":
		if s, ok := a[0].strVal(); ok {
			return tStr(path.Base(s))
		}
	case "path.Dir":
		if s, ok := a[0].strVal(); ok {
			return tStr(path.Dir(s))
		}
	case "strings.Replace":
		if n, ok := a[3].intVal(); ok && n < 0 {
			return tApp("strings.ReplaceAll", T, a[0], a[1], a[2])
		}
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		s, ok1 := a[0].strVal()
		p, ok2 := a[1].strVal()
		if ok2 && p == "" {
			return tTrue
		}
		if ok1 && ok2 {
			switch name {
			case "strings.HasPrefix":
				return tBool(strings.HasPrefix(s, p))
			case "strings.HasSuffix":
				return tBool(strings.HasSuffix(s, p))
			default:
				return tBool(strings.Contains(s, p))
			}
		}
	case "strconv.Quote":
	case "string":
		if a[0].Op == "app" && a[0].S == "bytes" {
			return a[0].A[0]
		}
		if a[0] == tNil {
			return tStr("")
		}
	case "bytes":
		if a[0].Op == "app" && a[0].S == "string" {
			return a[0].A[0]
		}
	}
	return mk("app", name, T, nil, a...)
}

func tExt(x *Term, i int, T types.Type) *Term {
	if x.Op == "tuple" {
		return x.A[i]
	}
	return mk("ext", strconv.Itoa(i), T, nil, x)
}

func tTuple(a ...*Term) *Term { return mk("tuple", "", nil, nil, a...) }

// walk visits t and every subterm once.
func (t *Term) walk(f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, a := range x.A {
			rec(a)
		}
	}
	rec(t)
}

func (t *Term) contains(o *Term) bool {
	found := false
	t.walk(func(x *Term) bool {
		if x == o {
			found = true
		}
		return !found
	})
	return found
}

// base strips interface wrappers and conversions
func (t *Term) base() *Term {
	for t != nil && t.Op == "iface" {
		t = t.A[0]
	}
	return t
}

func (t *Term) isApp(name string) bool { return t != nil && t.Op == "app" && t.S == name }

// ---- facts ----

type Facts struct {
	m    map[*Term]bool
	rep  map[*Term]*Term
	used map[*Term]bool // pointers that were followed
	ord  []*Term
	inv  [][2]*Term // of loop variables: the first is not above the second
}

func newFacts() *Facts {
	return &Facts{m: map[*Term]bool{}, rep: map[*Term]*Term{}, used: map[*Term]bool{}}
}

// deref: the pointer was followed, so it is not nil from here on
func (f *Facts) deref(p *Term) {
	if !nonNil(p) && p != tNil {
		f.used[p] = true
	}
}

func (f *Facts) clone() *Facts {
	g := newFacts()
	for k, v := range f.m {
		g.m[k] = v
	}
	for k, v := range f.rep {
		g.rep[k] = v
	}
	for k := range f.used {
		g.used[k] = true
	}
	g.ord = append([]*Term(nil), f.ord...)
	g.inv = append([][2]*Term(nil), f.inv...)
	return g
}

func (f *Facts) find(t *Term) *Term {
	for {
		r, ok := f.rep[t]
		if !ok {
			return t
		}
		t = r
	}
}

func (f *Facts) union(a, b *Term) {
	a, b = f.find(a), f.find(b)
	if a == b {
		return
	}
	// the representative is the constant, or the one that is not nil
	if a.isConst() || nonNil(a) && !b.isConst() {
		f.rep[b] = a
		return
	}
	f.rep[a] = b
}

func (f *Facts) bounds(t *Term) (lo, hi int64, hasLo, hasHi bool) {
	if t.Op == "len" {
		lo, hasLo = 0, true
	}
	r := f.find(t)
	if k, ok := r.intVal(); ok {
		return k, k, true, true
	}
	for _, a := range f.ord {
		if a.Op != "lt" {
			continue
		}
		v := f.m[a]
		k, ok := a.A[1].intVal()
		if !ok || f.find(a.A[0]) != r {
			continue
		}
		if v { // t < k
			if !hasHi || k-1 < hi {
				hi, hasHi = k-1, true
			}
		} else if !hasLo || k > lo {
			lo, hasLo = k, true
		}
	}
	return
}

// decide: value of a boolean term under the facts, if known
func (f *Facts) decide(t *Term) (bool, bool) {
	switch t.Op {
	case "true":
		return true, true
	case "false":
		return false, true
	case "not":
		v, ok := f.decide(t.A[0])
		return !v, ok
	}
	if v, ok := f.m[t]; ok {
		return v, true
	}
	if r := f.find(t); r != t {
		if r == tTrue {
			return true, true
		}
		if r == tFalse {
			return false, true
		}
	}
	switch t.Op {
	case "eq":
		a, b := f.find(t.A[0]), f.find(t.A[1])
		e := tEq(a, b)
		if e == tTrue {
			return true, true
		}
		if e == tFalse {
			return false, true
		}
		if e != t {
			if e.Op != "eq" {
				return f.decide(e)
			}
			if v, ok := f.m[e]; ok {
				return v, true
			}
		}
		for _, o := range f.ord {
			if o.Op != "eq" || f.m[o] {
				continue
			}
			x, y := f.find(o.A[0]), f.find(o.A[1])
			if x == a && y == b || x == b && y == a {
				return false, true
			}
		}
		// typed non-nil facts
		if a == tNil && f.typed(b) || b == tNil && f.typed(a) {
			return false, true
		}
		// it was followed before
		if a == tNil && f.followed(b) || b == tNil && f.followed(a) {
			return false, true
		}
		// nil and not-nil
		if a != tNil && b != tNil && (a.isConst() || b.isConst()) {
			// integer bounds
			c, x := a, b
			if b.isConst() {
				c, x = b, a
			}
			if k, ok := c.intVal(); ok {
				lo, hi, hl, hh := f.bounds(x)
				if hl && k < lo || hh && k > hi {
					return false, true
				}
			}
		}
	case "lt":
		if k, ok := t.A[1].intVal(); ok {
			lo, hi, hl, hh := f.bounds(t.A[0])
			if hh && hi < k {
				return true, true
			}
			if hl && lo >= k {
				return false, true
			}
		}
		// a<b known => not b<a
		if v, ok := f.m[mk("lt", "", types.Typ[types.Bool], nil, t.A[1], t.A[0])]; ok && v {
			return false, true
		}
		if f.find(t.A[0]) == f.find(t.A[1]) {
			return false, true
		}
		a, b := f.find(t.A[0]), f.find(t.A[1])
		if a != t.A[0] || b != t.A[1] {
			e := tLt(a, b)
			if e.Op != "lt" || e != t {
				return f.decide(e)
			}
		}
	case "istype":
		x := f.find(t.A[0])
		if x == tNil {
			return false, true
		}
		if x.Op == "iface" {
			if v, ok := typeIs(x.T, t.T); ok {
				return v, true
			}
		}
		for _, o := range f.ord {
			if o.Op == "istype" && f.m[o] && f.find(o.A[0]) == x && o != t {
				if !types.IsInterface(o.T) {
					if v, ok := typeIs(o.T, t.T); ok {
						return v, true
					}
				}
			}
		}
	}
	return false, false
}

func (f *Facts) followed(x *Term) bool {
	if f.used[x] {
		return true
	}
	if len(f.rep) > 0 {
		for u := range f.used {
			if f.find(u) == x {
				return true
			}
		}
	}
	return false
}

func (f *Facts) typed(x *Term) bool {
	for _, o := range f.ord {
		if o.Op == "istype" && f.m[o] && f.find(o.A[0]) == x {
			return true
		}
	}
	return false
}

// typeIs: does a value of concrete dynamic type d satisfy assertion to T
func typeIs(d, T types.Type) (bool, bool) {
	if types.IsInterface(d) {
		return false, false
	}
	if types.IsInterface(T) {
		return types.Implements(d, T.Underlying().(*types.Interface)), true
	}
	return types.Identical(d, T), true
}

// assume adds a literal; false when that contradicts the facts
func (f *Facts) assume(t *Term, val bool) bool {
	for t.Op == "not" {
		t, val = t.A[0], !val
	}
	if v, ok := f.decide(t); ok {
		if v != val {
			return false
		}
		return true
	}
	f.m[t] = val
	f.ord = append(f.ord, t)
	if t.Op == "eq" && val {
		f.union(t.A[0], t.A[1])
		if !f.consistent() {
			return false
		}
	} else if t.Op != "eq" && t.Op != "lt" && t.Op != "istype" {
		f.union(t, tBool(val))
	}
	return true
}

// consistent re-checks the negative facts after a union
func (f *Facts) consistent() bool {
	for _, o := range f.ord {
		v := f.m[o]
		switch o.Op {
		case "eq":
			a, b := f.find(o.A[0]), f.find(o.A[1])
			e := tEq(a, b)
			if v && e == tFalse || !v && e == tTrue {
				return false
			}
		case "lt":
			a, b := f.find(o.A[0]), f.find(o.A[1])
			e := tLt(a, b)
			if v && e == tFalse || !v && e == tTrue {
				return false
			}
		}
	}
	return true
}

func (f *Facts) isNil(t *Term) bool {
	v, ok := f.decide(tEq(t, tNil))
	return ok && v
}

func (f *Facts) notNil(t *Term) bool {
	v, ok := f.decide(tEq(t, tNil))
	return ok && !v
}

func (f *Facts) list() []string {
	var out []string
	for _, t := range f.ord {
		if f.m[t] {
			out = append(out, t.String())
		} else {
			out = append(out, "!"+t.String())
		}
	}
	return out
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = fmt.Sprint
