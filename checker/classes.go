package main

import (
	"go/types"
	"os"
	"path"
	"sort"
	"strings"
)

// The classes of names and of numbers that a summary can tell apart are
// bounded by the constants in its conditions. Besides the classes that the
// property itself distinguishes, there are representatives for each constant
// the code compares with: names that begin with it, end with it, or are it;
// numbers below, at and above it.

type constants struct {
	strs  []string
	ints  []int64
	size  []int64 // what sizes are compared with
	modes bool    // whether the mode matters
}

// constantsOf: what the conditions of the paths, and the keys they look up,
// are made of
func constantsOf(outs []*Outcome, traces ...*Trace) *constants {
	ss, is, sz := map[string]bool{}, map[int64]bool{}, map[int64]bool{}
	seen := map[*Term]bool{}
	look := func(t *Term) {
		t.walk(func(x *Term) bool {
			if seen[x] {
				return false
			}
			seen[x] = true
			if s, ok := x.strVal(); ok {
				ss[s] = true
			}
			if n, ok := x.intVal(); ok {
				is[n] = true
			}
			return true
		})
	}
	sized := map[*Term]bool{}
	k := &constants{}
	cond := func(a *Term) {
		look(a)
		k.modes = k.modes || a.any(isMode)
		if sized[a] || !a.any(isSize) {
			return
		}
		sized[a] = true
		a.walk(func(x *Term) bool {
			if n, ok := x.intVal(); ok {
				sz[n] = true
			}
			return true
		})
	}
	var evs func(l []*Event)
	state := func(st *State) {
		for _, a := range st.facts.ord {
			cond(a)
		}
	}
	subs := map[*Sub]bool{}
	evs = func(l []*Event) {
		for _, ev := range l {
			if ev.Kind == "prim" {
				for _, a := range ev.Args[1:] {
					if strings.HasPrefix(ev.Name, "Files.") || strings.HasPrefix(ev.Name, "Infos.") {
						if i := strings.IndexByte(ev.Name, '.'); ev.Name[i+1:] != "Range" && (a.T != nil && isPath(a.T) || (a.T != nil && isString(a.T))) {
							look(a)
						}
					}
				}
			}
			if n := ev.Name[strings.LastIndexByte(ev.Name, '.')+1:]; n == "Open" || n == "OpenFile" || n == "Create" {
				for _, a := range ev.Args {
					if a.T != nil && isString(a.T) {
						look(a)
					}
				}
			}
			if ev.Sub == nil || subs[ev.Sub] {
				continue
			}
			subs[ev.Sub] = true
			for _, tr := range ev.Sub.Traces {
				state(tr.St)
				evs(tr.Ev)
				for _, r := range tr.Ret {
					cond(r)
				}
				for _, b := range tr.Back {
					cond(b)
				}
			}
		}
	}
	for _, o := range outs {
		state(o.St)
		evs(o.St.ev)
	}
	for _, tr := range traces {
		state(tr.St)
		evs(tr.Ev)
		for _, r := range tr.Ret {
			cond(r)
		}
	}
	for s := range ss {
		k.strs = append(k.strs, s)
	}
	for n := range is {
		k.ints = append(k.ints, n)
	}
	for n := range sz {
		k.size = append(k.size, n)
	}
	sort.Slice(k.size, func(i, j int) bool { return k.size[i] < k.size[j] })
	sort.Strings(k.strs)
	sort.Slice(k.ints, func(i, j int) bool { return k.ints[i] < k.ints[j] })
	return k
}

// names: elements that begin with a constant, end with it, contain it, or
// are it
func (k *constants) names() (l []string) {
	seen := map[string]bool{}
	add := func(s string) {
		if s == "" || s == "." || s == ".." || seen[s] || strings.ContainsAny(s, "/\\:\x00") || strings.TrimSpace(s) != s || path.Clean("/"+s) != "/"+s {
			return
		}
		seen[s] = true
		l = append(l, s)
	}
	for _, s := range k.strs {
		for _, e := range strings.Split(s, "/") {
			if e == "" || len(e) > 60 {
				continue
			}
			add(e)
			if u := strings.ToUpper(e); u != e {
				add(u)
				add(u[:1] + e[1:])
			}
			add(e + "q")
			add("q" + e)
			add("q" + e + "q")
		}
	}
	if len(l) > 90 {
		l = l[:90]
	}
	return
}

// with: the tree, and for each of the names files and directories
func (k *constants) with(tree map[vp]entry) map[vp]entry {
	out := map[vp]entry{}
	for x, e := range tree {
		out[x] = e
	}
	for _, n := range k.names() {
		for x, e := range map[vp]entry{
			{"m", "/a/b/" + n}:          {},
			{"m", "/a/b/c/" + n}:        {},
			{"m", "/e/d" + n}:           {true},
			{"m", "/e/" + n}:            {true},
			{"m", "/e/" + n + "/k"}:     {},
			{"m", "/e/d" + n + "/" + n}: {},
			{"m", "/" + n}:              {},
			{"o", "/a/b/" + n}:          {},
		} {
			if _, has := out[x]; !has {
				out[x] = e
			}
		}
	}
	if len(k.names()) > 0 {
		if _, has := out[vp{"m", "/e"}]; !has {
			out[vp{"m", "/e"}] = entry{true}
		}
	}
	return out
}

// lookups: names of these files, and of ones that are not there
func (k *constants) lookups() (l []string) {
	for _, n := range k.names() {
		l = append(l, "m:/a/b/"+n, "/e/"+n, "/e/d"+n, "/"+n, "o:/a/b/"+n, "/a/"+n, "m:/new/"+n, "o:/"+n, n)
	}
	return
}

// paths: such names in each of the directories
func (k *constants) paths(dirs ...string) (l []string) {
	for _, n := range k.names() {
		for _, d := range dirs {
			l = append(l, path.Join(d, n), path.Join(d, n, "q"))
		}
	}
	return
}

func isSize(t *Term) bool {
	switch t.Op {
	case "field":
		return t.S == "Size"
	case "app", "res":
		return strings.HasPrefix(t.S, "(os.FileInfo).Size")
	case "len":
		b, ok := under(t.A[0].T).(*types.Slice)
		return ok && types.Identical(b.Elem(), types.Typ[types.Byte])
	}
	return false
}

// near: the numbers, and those below and above each constant
func (k *constants) near(l ...int64) []int64 { return around(k.ints, l) }

func around(consts, l []int64) []int64 {
	seen := map[int64]bool{}
	var out []int64
	add := func(n int64) {
		if !seen[n] && len(out) < 24 {
			seen[n] = true
			out = append(out, n)
		}
	}
	for _, n := range l {
		add(n)
	}
	for _, n := range consts {
		add(n - 1)
		add(n)
		add(n + 1)
	}
	return out
}

// kind: what a file can be besides its name
type kind struct {
	size int64
	mode os.FileMode // 0: as usual
}

// bits: the mode of such a file or directory
func (k kind) bits(dir bool) int64 {
	m := k.mode
	if k.mode == 0 {
		m = 0644
		if dir {
			m = 0755
		}
	}
	if dir {
		m = m.Perm() | os.ModeDir
	}
	return int64(m)
}

func isMode(t *Term) bool {
	switch t.Op {
	case "field":
		return t.S == "Mode"
	case "app", "res":
		return strings.HasPrefix(t.S, "(os.FileInfo).Mode")
	}
	return false
}

// kinds of files: sizes, and modes if the code looks at them
func (k *constants) kinds() (l []kind) {
	for _, n := range around(k.size, []int64{3, 0}) {
		if n >= 0 {
			l = append(l, kind{n, 0})
		}
	}
	if k.modes {
		for _, m := range []os.FileMode{0755, 0400, 0222, 0600 | os.ModeSetuid, 0777 | os.ModeSymlink, 0644 | os.ModeNamedPipe} {
			l = append(l, kind{3, m})
		}
	}
	return
}
