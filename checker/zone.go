package main

import (
	"fmt"
	"go/types"
	"sort"
)

// The zone domain: what the facts of a path say about differences of
// integers, x - y <= c, closed under transitivity.

type zone struct {
	f     *Facts
	more  func(z *zone, t *Term)
	forms map[*Term]map[*Term]int64
	d     map[*Term]map[*Term]int64 // d[y][x] = c: x - y <= c
	sums  map[string]int64          // a sum <= c, as it is known
}

var tZero0 = tInt(0)

func zoneOf(f *Facts, more func(z *zone, t *Term)) *zone {
	z := &zone{f: f, more: more, forms: map[*Term]map[*Term]int64{}, sums: map[string]int64{}, d: map[*Term]map[*Term]int64{}}
	for _, a := range f.ord {
		v := f.m[a]
		switch a.Op {
		case "lt":
			if v {
				z.add(a.A[0], a.A[1], -1)
			} else {
				z.add(a.A[1], a.A[0], 0)
			}
		case "eq":
			if v {
				z.add(a.A[0], a.A[1], 0)
				z.add(a.A[1], a.A[0], 0)
				if isStringy(a.A[0]) && isStringy(a.A[1]) {
					z.add(tLen(a.A[0]), tLen(a.A[1]), 0)
					z.add(tLen(a.A[1]), tLen(a.A[0]), 0)
				}
			}
		case "app":
			switch a.S {
			case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Contains":
				if v {
					z.add(tLen(a.A[1]), tLen(a.A[0]), 0)
				}
			}
		}
	}
	for _, p := range f.inv {
		z.add(p[0], p[1], 0)
	}
	// with all of them known
	var ts []*Term
	for t := range z.d {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	for _, t := range ts {
		z.learn(t)
	}
	// x != k where k is a bound of x
	for n := 0; n < 2; n++ {
		for _, a := range f.ord {
			if a.Op != "eq" || f.m[a] {
				continue
			}
			for i := 0; i < 2; i++ {
				k, x := a.A[i], a.A[1-i]
				if _, ok := k.intVal(); !ok {
					continue
				}
				if z.less(k, x, 1) {
					z.add(k, x, -1)
				}
				if z.less(x, k, 1) {
					z.add(x, k, -1)
				}
			}
		}
	}
	return z
}

// linear form of a term
type linear struct {
	n map[*Term]int64
	k int64
}

func (z *zone) linear(t *Term, by int64, l *linear) {
	if k, ok := t.intVal(); ok {
		l.k += by * k
		return
	}
	r := z.f.find(t)
	if k, ok := r.intVal(); ok {
		l.k += by * k
		return
	}
	switch {
	case (t.Op == "add" || t.Op == "sub") && len(t.A) == 2:
		z.linear(t.A[0], by, l)
		if t.Op == "sub" {
			by = -by
		}
		z.linear(t.A[1], by, l)
		return
	case t.Op == "len" && t.A[0].Op == "concat":
		for _, x := range t.A[0].A {
			z.linear(tLen(x), by, l)
		}
		return
	case t.Op == "len" && t.A[0].Op == "slice" && len(t.A[0].A) == 3:
		x := t.A[0]
		hi := x.A[2]
		if hi == tNil {
			hi = tLen(x.A[0])
		}
		z.linear(hi, by, l)
		z.linear(x.A[1], -by, l)
		return
	}
	l.n[r] += by
	if l.n[r] == 0 {
		delete(l.n, r)
	}
}

// split: base and offset
func (z *zone) split(t *Term) (*Term, int64) {
	l := &linear{n: map[*Term]int64{}}
	z.linear(t, 1, l)
	if len(l.n) == 0 {
		return tZero0, l.k
	}
	var ts []*Term
	for x, n := range l.n {
		if n == 1 && len(l.n) == 1 {
			return x, l.k
		}
		ts = append(ts, x)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	key := ""
	for _, x := range ts {
		key += fmt.Sprint(l.n[x], " ")
	}
	s := mk("linear", key, types.Typ[types.Int], nil, ts...)
	z.forms[s] = l.n
	return s, l.k
}

// diff: x - y as a sum, two terms of it where that is all, and the rest
func (z *zone) diff(x, y *Term) (key string, bx, by *Term, k int64) {
	l := &linear{n: map[*Term]int64{}}
	z.linear(x, 1, l)
	z.linear(y, -1, l)
	var ts []*Term
	for t := range l.n {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	pair := len(ts) <= 2
	for _, t := range ts {
		n := l.n[t]
		key += fmt.Sprint(t.ID, "*", n, " ")
		switch {
		case n == 1 && bx == nil:
			bx = t
		case n == -1 && by == nil:
			by = t
		default:
			pair = false
		}
	}
	if bx == nil {
		bx = tZero0
	}
	if by == nil {
		by = tZero0
	}
	if !pair {
		bx, by = nil, nil
	}
	return key, bx, by, l.k
}

// add: x - y <= c
func (z *zone) add(x, y *Term, c int64) {
	key, px, py, k := z.diff(x, y)
	if o, ok := z.sums[key]; !ok || c-k < o {
		z.sums[key] = c - k
	}
	if px != nil && px != py {
		z.know(px)
		z.know(py)
		z.edge(py, px, c-k)
	}
	bx, kx := z.split(x)
	by, ky := z.split(y)
	c += ky - kx
	z.know(bx)
	z.know(by)
	z.edge(by, bx, c)
}

func (z *zone) edge(y, x *Term, c int64) {
	m := z.d[y]
	if m == nil {
		m = map[*Term]int64{}
		z.d[y] = m
	}
	if o, ok := m[x]; !ok || c < o {
		m[x] = c
	}
}

// know: what holds of the term itself
func (z *zone) know(t *Term) {
	if _, ok := z.d[t]; ok {
		return
	}
	z.d[t] = map[*Term]int64{}
	z.learn(t)
}

func (z *zone) learn(t *Term) {
	if z.more != nil {
		z.more(z, t)
	}
	switch {
	case t.Op == "len":
		z.edge(t, tZero0, 0) // 0 - len <= 0
		x := t.A[0]
		switch {
		case x.isApp("strings.Split"), x.isApp("strings.SplitAfter"), x.isApp("bytes.Split"):
			if s, ok := x.A[1].strVal(); ok && s != "" {
				z.edge(t, tZero0, -1)
			}
		case x.isApp("strings.SplitN"), x.isApp("strings.SplitAfterN"):
			if s, ok := x.A[1].strVal(); ok && s != "" {
				if n, ok := x.A[2].intVal(); ok && n != 0 {
					z.edge(t, tZero0, -1)
					if n > 0 {
						z.edge(tZero0, t, n)
					}
				}
			}
		case x.isApp("path.Clean"), x.isApp("path/filepath.Clean"), x.isApp("path.Base"), x.isApp("path/filepath.Base"), x.isApp("path.Dir"), x.isApp("path/filepath.Dir"):
			z.edge(t, tZero0, -1) // at least a dot
		case x.isApp("strings.TrimPrefix"), x.isApp("strings.TrimSuffix"), x.isApp("strings.TrimSpace"), x.isApp("strings.Trim"), x.isApp("strings.TrimLeft"), x.isApp("strings.TrimRight"):
			b, k := z.split(tLen(x.A[0]))
			z.know(b)
			z.edge(b, t, k)
		case x.isApp("path/filepath.ToSlash"), x.isApp("path/filepath.FromSlash"):
			b, k := z.split(tLen(x.A[0]))
			z.know(b)
			z.edge(b, t, k)
			z.edge(t, b, -k)
		case x.Op == "append":
			n := int64(0)
			for _, a := range x.A[1:] {
				if a.Op != "spread" {
					n++
				}
			}
			z.edge(t, tZero0, -n)
		}
	case t.isApp("strings.Index"), t.isApp("strings.LastIndex"), t.isApp("strings.IndexByte"), t.isApp("strings.IndexRune"), t.isApp("strings.LastIndexByte"), t.isApp("strings.IndexAny"):
		z.edge(t, tZero0, 1)
		l := tLen(t.A[0])
		b, k := z.split(l)
		z.know(b)
		z.edge(b, t, k) // less, or equal for an empty string
	case t.Op == "linear":
		// of what is not below 0, and differences that are not
		var pos, neg []*Term
		for _, x := range t.A {
			n := z.forms[t][x]
			if n > 3 || n < -3 {
				return
			}
			for ; n > 0; n-- {
				pos = append(pos, x)
			}
			for ; n < 0; n++ {
				neg = append(neg, x)
			}
		}
		for _, y := range neg {
			hit := -1
			for i, x := range pos {
				if x != nil && z.less(y, x, 1) {
					hit = i
				}
			}
			if hit < 0 {
				return
			}
			pos[hit] = nil
		}
		for _, x := range pos {
			if x != nil && !z.less(tInt(-1), x, 0) {
				return
			}
		}
		z.edge(t, tZero0, 0)
	case t.isApp("encoding/hex.DecodedLen"), t.isApp("encoding/hex.EncodedLen"):
		if z.less(tInt(-1), t.A[0], 0) {
			z.edge(t, tZero0, 0)
		}
	case t.Op == "quo":
		if k, ok := t.A[1].intVal(); ok && k > 0 && z.less(tInt(-1), t.A[0], 0) {
			z.edge(t, tZero0, 0)
			b, o := z.split(t.A[0])
			z.know(b)
			z.edge(b, t, o)
		}
	case t.Op == "rangekey":
		z.edge(t, tZero0, 0)
		b, k := z.split(tLen(t.A[0]))
		z.know(b)
		z.edge(b, t, k-1)
	}
}

// less: x - y < c (c = 0: x < y; c = 1: x <= y)
func (z *zone) less(x, y *Term, c int64) bool {
	key, px, py, k := z.diff(x, y)
	if o, ok := z.sums[key]; ok && o <= c-1-k {
		return true
	}
	if px != nil {
		z.know(px)
		z.know(py)
		if z.near(px, py, c-1-k) {
			return true
		}
	}
	bx, kx := z.split(x)
	by, ky := z.split(y)
	z.know(bx)
	z.know(by)
	return z.near(bx, by, c-1+ky-kx)
}

// near: bx - by <= want
func (z *zone) near(bx, by *Term, want int64) bool {
	if bx == by {
		return 0 <= want
	}
	// shortest path from by to bx
	dist := map[*Term]int64{by: 0}
	for n := 0; n <= len(z.d)+1; n++ {
		changed := false
		for y, m := range z.d {
			d, ok := dist[y]
			if !ok {
				continue
			}
			for x, c := range m {
				if o, ok := dist[x]; !ok || d+c < o {
					dist[x] = d + c
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	d, ok := dist[bx]
	return ok && d <= want
}
