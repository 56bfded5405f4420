package main

import (
	"go/constant"
	"go/types"
	"os"
	"path"
	"path/filepath"
	"strings"
)

// Guards are decided over finite abstract domains: a relation between two
// paths (equal, child, deeper, same letters, other package, ancestor), an
// order of small integers, a class of file. Each class has a representative
// value; eval is the transfer function of the operations that occur in
// guards and results, on representatives. What it does not know is unknown.

type env map[*Term]interface{}

type vNil struct{}
type vErr string // an error that is not nil; its identity
type vList []interface{}
type vStruct struct {
	T types.Type
	F []interface{}
}
type unk struct{}

func (v env) with(kv ...interface{}) env {
	n := env{}
	for k, x := range v {
		n[k] = x
	}
	for i := 0; i+1 < len(kv); i += 2 {
		n[kv[i].(*Term)] = kv[i+1]
	}
	return n
}

func (v env) eval(t *Term) (interface{}, bool) {
	if t == nil {
		return nil, false
	}
	if x, ok := v[t]; ok {
		if _, u := x.(unk); u {
			return nil, false
		}
		return x, true
	}
	if h, ok := v[tHook].(hookFn); ok {
		if x, ok := h(v, t); ok {
			return x, true
		}
	}
	str := func(i int) (string, bool) {
		if i >= len(t.A) {
			return "", false
		}
		x, ok := v.eval(t.A[i])
		s, ok2 := x.(string)
		return s, ok && ok2
	}
	num := func(i int) (int64, bool) {
		x, ok := v.eval(t.A[i])
		n, ok2 := x.(int64)
		return n, ok && ok2
	}
	switch t.Op {
	case "nil":
		return vNil{}, true
	case "true":
		return true, true
	case "false":
		return false, true
	case "const":
		if s, ok := t.strVal(); ok {
			return s, true
		}
		if i, ok := t.intVal(); ok {
			return i, true
		}
		if c, ok := t.X.(constant.Value); ok && c.Kind() == constant.Int {
			if u, ok := constant.Uint64Val(c); ok {
				return int64(u), true
			}
		}
	case "errconst":
		if t.S == "io/fs.SkipDir" {
			return vErr("path/filepath.SkipDir"), true
		}
		return vErr(t.S), true
	case "errval":
		return vErr("other"), true
	case "alloc":
		return vErr("alloc"), true // not nil
	case "iface", "assert":
		return v.eval(t.A[0])
	case "not":
		x, ok := v.eval(t.A[0])
		b, ok2 := x.(bool)
		return !b, ok && ok2
	case "eq":
		a, b := t.A[0], t.A[1]
		x, ok1 := v.eval(a)
		y, ok2 := v.eval(b)
		if ok1 && ok2 {
			return equalVal(x, y)
		}
		// field by field
		T := a.T
		if T == nil {
			T = b.T
		}
		if T != nil {
			if st, ok := T.Underlying().(*types.Struct); ok {
				all := true
				for i := 0; i < st.NumFields(); i++ {
					p, okp := v.eval(tField(a, T, i))
					q, okq := v.eval(tField(b, T, i))
					if !okp || !okq {
						all = false
						continue
					}
					e, ok := equalVal(p, q)
					if ok && e == false {
						return false, true
					}
					if !ok {
						all = false
					}
				}
				if all {
					return true, true
				}
			}
		}
		if ok1 && !ok2 && isNilVal(x) && nonNil(b) || ok2 && !ok1 && isNilVal(y) && nonNil(a) {
			return false, true
		}
		return nil, false
	case "lt":
		x, ok1 := v.eval(t.A[0])
		y, ok2 := v.eval(t.A[1])
		if ok1 && ok2 {
			switch x := x.(type) {
			case int64:
				if y, ok := y.(int64); ok {
					return x < y, true
				}
			case string:
				if y, ok := y.(string); ok {
					return x < y, true
				}
			}
		}
	case "len":
		x, ok := v.eval(t.A[0])
		if !ok {
			return nil, false
		}
		switch x := x.(type) {
		case string:
			return int64(len(x)), true
		case vList:
			return int64(len(x)), true
		case vNil:
			return int64(0), true
		}
	case "add", "sub":
		x, ok1 := num(0)
		y, ok2 := num(1)
		if ok1 && ok2 {
			if t.Op == "add" {
				return x + y, true
			}
			return x - y, true
		}
	case "bin":
		x, ok1 := num(0)
		y, ok2 := num(1)
		if ok1 && ok2 {
			switch t.S {
			case "|":
				return x | y, true
			case "&":
				return x & y, true
			case "^":
				return x ^ y, true
			case "&^":
				return x &^ y, true
			case "*":
				return x * y, true
			}
		}
	case "conv":
		if x, ok := v.eval(t.A[0]); ok {
			return x, true
		}
	case "concat":
		s := ""
		for i := range t.A {
			x, ok := str(i)
			if !ok {
				return nil, false
			}
			s += x
		}
		return s, true
	case "struct":
		var fs []interface{}
		for _, a := range t.A {
			x, ok := v.eval(a)
			if !ok {
				return nil, false
			}
			fs = append(fs, x)
		}
		return vStruct{t.T, fs}, true
	case "field":
		if x, ok := v.eval(t.A[0]); ok {
			if s, ok := x.(vStruct); ok {
				if i, ok := t.X.(int); ok && i < len(s.F) {
					return s.F[i], true
				}
			}
		}
	case "list":
		var l vList
		for _, a := range t.A {
			x, ok := v.eval(a)
			if !ok {
				return nil, false
			}
			l = append(l, x)
		}
		return l, true
	case "append":
		x, ok := v.eval(t.A[0])
		if !ok {
			return nil, false
		}
		var l vList
		if y, ok := x.(vList); ok {
			l = append(l, y...)
		} else if !isNilVal(x) {
			return nil, false
		}
		for _, a := range t.A[1:] {
			if a.Op == "spread" {
				y, ok := v.eval(a.A[0])
				if !ok {
					return nil, false
				}
				if z, ok := y.(vList); ok {
					l = append(l, z...)
				} else if !isNilVal(y) {
					return nil, false
				}
				continue
			}
			y, ok := v.eval(a)
			if !ok {
				return nil, false
			}
			l = append(l, y)
		}
		return l, true
	case "index":
		x, ok := v.eval(t.A[0])
		i, ok2 := num(1)
		if !ok || !ok2 {
			return nil, false
		}
		switch x := x.(type) {
		case string:
			if i >= 0 && i < int64(len(x)) {
				return int64(x[i]), true
			}
		case vList:
			if i >= 0 && i < int64(len(x)) {
				return x[i], true
			}
		}
	case "slice":
		x, ok := v.eval(t.A[0])
		lo, ok2 := num(1)
		if !ok || !ok2 {
			return nil, false
		}
		var n int64
		switch y := x.(type) {
		case string:
			n = int64(len(y))
		case vList:
			n = int64(len(y))
		case vNil:
			x = vList(nil)
		default:
			return nil, false
		}
		hi := n
		if t.A[2] != tNil {
			h, ok := num(2)
			if !ok {
				return nil, false
			}
			hi = h
		}
		if lo < 0 || lo > hi || hi > n {
			return nil, false
		}
		switch y := x.(type) {
		case string:
			return y[lo:hi], true
		case vList:
			return y[lo:hi], true
		}
	case "ext":
		x, ok := v.eval(t.A[0])
		if l, ok2 := x.(vList); ok && ok2 {
			i := int(t.S[0] - '0')
			if i < len(l) {
				return l[i], true
			}
		}
	case "app":
		return v.app(t)
	}
	return nil, false
}

func isNilVal(x interface{}) bool { _, ok := x.(vNil); return ok }

func equalVal(x, y interface{}) (interface{}, bool) {
	if isNilVal(x) || isNilVal(y) {
		if l, ok := x.(vList); ok && len(l) == 0 {
			return nil, false
		}
		if l, ok := y.(vList); ok && len(l) == 0 {
			return nil, false
		}
		return isNilVal(x) && isNilVal(y), true
	}
	switch x := x.(type) {
	case vStruct:
		y, ok := y.(vStruct)
		if !ok || len(x.F) != len(y.F) {
			return nil, false
		}
		for i := range x.F {
			e, ok := equalVal(x.F[i], y.F[i])
			if !ok {
				return nil, false
			}
			if e == false {
				return false, true
			}
		}
		return true, true
	case vList:
		return nil, false
	case string, int64, bool, vErr:
		return x == y, true
	}
	return nil, false
}

// runeSubs: the summaries of the functions of a rune (that capture nothing)
// which are handed to package strings
var runeSubs = map[*Term]*Sub{}

func (v env) byRune(t *Term) (interface{}, bool) {
	fi, si := 1, 0
	if t.S == "strings.Map" {
		fi, si = 0, 1
	}
	sub := runeSubs[t.A[fi]]
	if sub == nil || len(sub.Args) != 1 {
		return nil, false
	}
	x, ok := v.eval(t.A[si])
	s, ok2 := x.(string)
	if !ok || !ok2 {
		return nil, false
	}
	bad := false
	call := func(r rune) interface{} {
		w := v.with(sub.Args[0], int64(r))
		var res interface{}
		n := 0
		for _, tr := range sub.Traces {
			if ok, _ := w.holds(tr.St.facts, len(sub.At.facts.ord)); ok {
				n++
				if y, ok := w.eval(tr.Ret[0]); ok {
					res = y
				}
			}
		}
		if n != 1 || res == nil {
			bad = true
		}
		return res
	}
	is := func(r rune) bool {
		b, ok := call(r).(bool)
		bad = bad || !ok
		return b
	}
	var res interface{}
	switch t.S {
	case "strings.Map":
		res = strings.Map(func(r rune) rune {
			n, ok := call(r).(int64)
			bad = bad || !ok
			return rune(n)
		}, s)
	case "strings.IndexFunc":
		res = int64(strings.IndexFunc(s, is))
	case "strings.LastIndexFunc":
		res = int64(strings.LastIndexFunc(s, is))
	case "strings.ContainsFunc":
		res = strings.IndexFunc(s, is) >= 0
	case "strings.TrimFunc":
		res = strings.TrimFunc(s, is)
	case "strings.TrimLeftFunc":
		res = strings.TrimLeftFunc(s, is)
	case "strings.TrimRightFunc":
		res = strings.TrimRightFunc(s, is)
	case "strings.FieldsFunc":
		var l vList
		for _, x := range strings.FieldsFunc(s, is) {
			l = append(l, x)
		}
		res = l
	default:
		return nil, false
	}
	return res, !bad
}

func (v env) app(t *Term) (interface{}, bool) {
	if t.S == "(gohere.Info).Parse" && len(t.A) == 2 {
		x, ok := v.eval(t.A[1])
		if s, ok2 := x.(string); ok && ok2 {
			return parseModel(s), true
		}
		return nil, false
	}
	if strings.HasPrefix(t.S, "strings.") && len(t.A) == 2 {
		if x, ok := v.byRune(t); ok {
			return x, true
		}
	}
	var a []interface{}
	for _, x := range t.A {
		y, ok := v.eval(x)
		if !ok {
			return nil, false
		}
		a = append(a, y)
	}
	s := make([]string, len(a))
	isS := make([]bool, len(a))
	for i := range a {
		s[i], isS[i] = a[i].(string)
	}
	allS := func(n int) bool {
		if len(a) < n {
			return false
		}
		for i := 0; i < n; i++ {
			if !isS[i] {
				return false
			}
		}
		return true
	}
	strs := func(l []string) vList {
		var o vList
		for _, x := range l {
			o = append(o, x)
		}
		return o
	}
	switch t.S {
	case "Path.String":
		if st, ok := a[0].(vStruct); ok && len(st.F) == 2 {
			p, ok1 := st.F[0].(string)
			n, ok2 := st.F[1].(string)
			if ok1 && ok2 {
				if n == "" {
					n = "/"
				}
				if p == "" {
					return n, true
				}
				return p + ":" + n, true
			}
		}
		return nil, false
	case "string", "bytes":
		return a[0], true
	case "errors.Is":
		if len(a) == 2 {
			return equalVal(a[0], a[1])
		}
	}
	if len(s) >= 2 && allS(2) {
		switch t.S {
		case "strings.HasPrefix":
			return strings.HasPrefix(s[0], s[1]), true
		case "strings.HasSuffix":
			return strings.HasSuffix(s[0], s[1]), true
		case "strings.Contains":
			return strings.Contains(s[0], s[1]), true
		case "strings.ContainsAny":
			return strings.ContainsAny(s[0], s[1]), true
		case "strings.TrimPrefix":
			return strings.TrimPrefix(s[0], s[1]), true
		case "strings.TrimSuffix":
			return strings.TrimSuffix(s[0], s[1]), true
		case "strings.Trim":
			return strings.Trim(s[0], s[1]), true
		case "strings.TrimLeft":
			return strings.TrimLeft(s[0], s[1]), true
		case "strings.TrimRight":
			return strings.TrimRight(s[0], s[1]), true
		case "strings.Index":
			return int64(strings.Index(s[0], s[1])), true
		case "strings.LastIndex":
			return int64(strings.LastIndex(s[0], s[1])), true
		case "strings.Count":
			return int64(strings.Count(s[0], s[1])), true
		case "strings.Compare":
			return int64(strings.Compare(s[0], s[1])), true
		case "strings.EqualFold":
			return strings.EqualFold(s[0], s[1]), true
		case "strings.Split":
			return strs(strings.Split(s[0], s[1])), true
		case "strings.Cut":
			b, c, ok := strings.Cut(s[0], s[1])
			return vList{b, c, ok}, true
		case "strings.CutPrefix":
			b, ok := strings.CutPrefix(s[0], s[1])
			return vList{b, ok}, true
		case "strings.CutSuffix":
			b, ok := strings.CutSuffix(s[0], s[1])
			return vList{b, ok}, true
		case "path/filepath.Rel":
			r, err := filepath.Rel(s[0], s[1])
			if err != nil {
				return vList{r, vErr("rel")}, true
			}
			return vList{r, vNil{}}, true
		case "path.Match":
			m, err := path.Match(s[0], s[1])
			if err != nil {
				return vList{m, vErr("match")}, true
			}
			return vList{m, vNil{}}, true
		}
	}
	if len(s) >= 3 && allS(3) && t.S == "strings.ReplaceAll" {
		return strings.ReplaceAll(s[0], s[1], s[2]), true
	}
	if len(a) == 4 && allS(3) && t.S == "strings.Replace" {
		if n, ok := a[3].(int64); ok {
			return strings.Replace(s[0], s[1], s[2], int(n)), true
		}
	}
	if len(a) == 2 && isS[0] {
		if n, ok := a[1].(int64); ok {
			switch t.S {
			case "strings.IndexByte":
				return int64(strings.IndexByte(s[0], byte(n))), true
			case "strings.LastIndexByte":
				return int64(strings.LastIndexByte(s[0], byte(n))), true
			case "strings.IndexRune":
				return int64(strings.IndexRune(s[0], rune(n))), true
			}
		}
		if t.S == "strings.Join" {
			return nil, false
		}
	}
	if len(a) == 2 && isS[1] && t.S == "strings.Join" {
		if l, ok := a[0].(vList); ok {
			var p []string
			for _, x := range l {
				y, ok := x.(string)
				if !ok {
					return nil, false
				}
				p = append(p, y)
			}
			return strings.Join(p, s[1]), true
		}
	}
	if allS(len(a)) && len(a) > 0 {
		switch t.S {
		case "path.Join":
			return path.Join(s...), true
		case "path.Clean":
			return path.Clean(s[0]), true
		case "path.Dir":
			return path.Dir(s[0]), true
		case "path.Base":
			return path.Base(s[0]), true
		case "path.Ext":
			return path.Ext(s[0]), true
		case "path.IsAbs":
			return path.IsAbs(s[0]), true
		case "path.Split":
			d, b := path.Split(s[0])
			return vList{d, b}, true
		case "strings.TrimSpace":
			return strings.TrimSpace(s[0]), true
		case "strings.ToLower":
			return strings.ToLower(s[0]), true
		case "strings.ToUpper":
			return strings.ToUpper(s[0]), true
		case "strings.Fields":
			return strs(strings.Fields(s[0])), true
		}
	}
	if len(a) == 1 {
		if fi, ok := a[0].(vInfo); ok {
			switch t.S {
			case "(os.FileInfo).IsDir":
				return fi.dir, true
			case "(os.FileInfo).Name":
				return path.Base(fi.name), true
			case "(os.FileInfo).Size":
				return fi.kind.size, true
			case "(os.FileInfo).Mode":
				return fi.kind.bits(fi.dir), true
			}
		}
		if n, ok := a[0].(int64); ok {
			switch t.S {
			case "(os.FileMode).IsDir":
				return os.FileMode(n).IsDir(), true
			case "(os.FileMode).IsRegular":
				return os.FileMode(n).IsRegular(), true
			case "(os.FileMode).Perm":
				return int64(os.FileMode(n).Perm()), true
			case "(os.FileMode).Type":
				return int64(os.FileMode(n).Type()), true
			case "string":
				return string(rune(n)), true
			}
		}
	}
	return nil, false
}

// holds: do the facts from number `from` on agree with the class? unknown
// counts the facts that cannot be told.
func (v env) holds(f *Facts, from int) (ok bool, unknown int) {
	return v.holdsUpTo(f, from, len(f.ord))
}

func (v env) holdsUpTo(f *Facts, from, to int) (ok bool, unknown int) {
	for _, t := range f.ord[from:to] {
		x, known := v.eval(t)
		b, isb := x.(bool)
		if !known || !isb {
			unknown++
			continue
		}
		if b != f.m[t] {
			return false, unknown
		}
	}
	return true, unknown
}
