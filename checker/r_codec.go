package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C19: the codec ----

// codec follows the data through one successful path of Encode or Decode.
type codec struct {
	o    *Outcome
	src  *Term // the input
	used map[*Event]bool
	why  string
}

func (d *codec) fail(s string) ([]string, bool) {
	if d.why == "" {
		d.why = s
	}
	return nil, false
}

func (d *codec) index(ev *Event) int {
	for i, x := range d.o.St.ev {
		if x == ev {
			return i
		}
	}
	return -1
}

func (d *codec) ok(ev *Event) bool {
	d.used[ev] = true
	e := ev.errResult()
	return e == nil || d.o.St.facts.isNil(e)
}

func strip(t *Term) *Term {
	for t != nil && len(t.A) == 1 && (t.Op == "iface" || t.Op == "conv" || t.isApp("bytes") || t.isApp("string")) {
		t = t.A[0]
	}
	return t
}

func (d *codec) event(t *Term) (*Event, int) {
	for i, ev := range d.o.St.ev {
		for j, r := range ev.results() {
			if r == t {
				_ = i
				return ev, j
			}
		}
	}
	return nil, 0
}

// encoded lists the steps from the result back to the input.
func (d *codec) encoded(t *Term, before int) ([]string, bool) {
	t = strip(t)
	if t == d.src {
		return nil, true
	}
	if t.Op == "app" && len(t.A) > 0 {
		switch {
		case strings.HasSuffix(t.S, "hex.EncodeToString"):
			l, ok := d.encoded(t.A[len(t.A)-1], before)
			return append([]string{"hex"}, l...), ok
		case strings.HasSuffix(t.S, ".EncodeToString"):
			l, ok := d.encoded(t.A[len(t.A)-1], before)
			return append([]string{t.S}, l...), ok
		}
	}
	for _, ev := range d.o.St.ev {
		if ev.Name == "encoding/hex.Encode" && len(ev.Args) == 2 && ev.Args[0] == t {
			d.used[ev] = true
			if !d.encodedLen(t, ev.Args[1]) {
				return d.fail("the room for the printable form is not made for its length")
			}
			l, ok := d.encoded(ev.Args[1], d.index(ev))
			return append([]string{"hex"}, l...), ok
		}
	}
	ev, _ := d.event(t)
	if ev == nil {
		return d.fail(t.String() + " is not the whole of what was written")
	}
	d.used[ev] = true
	switch ev.Name {
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*strings.Builder).String":
		return d.written(ev.Args[0], d.index(ev))
	case "encoding/hex.EncodeToString":
		l, ok := d.encoded(ev.Args[0], d.index(ev))
		return append([]string{"hex"}, l...), ok
	}
	return d.fail(ev.Name + " is not a step that is known")
}

func (d *codec) encodedLen(dst, src *Term) bool {
	return dst.Op == "mkslice" && len(dst.A) > 0 && dst.A[0].any(func(x *Term) bool {
		return x.isApp("encoding/hex.EncodedLen") && len(x.A) == 1 && (x.A[0] == tLen(src) || d.bufLen(x.A[0], src))
	})
}

// bufLen: the length of the buffer whose bytes these are
func (d *codec) bufLen(n, src *Term) bool {
	l, _ := d.event(n)
	b, _ := d.event(src)
	if l == nil || b == nil || l.Name != "(*bytes.Buffer).Len" || b.Name != "(*bytes.Buffer).Bytes" || l.Args[0] != b.Args[0] {
		return false
	}
	i, j := d.index(l), d.index(b)
	if i > j {
		i, j = j, i
	}
	for _, x := range d.o.St.ev[i+1 : j] {
		if x.Kind == "loop" || x.Kind == "callback" || x.Kind == "dyn" || x.Kind == "invoke" || len(x.Args) > 0 && x.Kind == "call" && stripIface(x.Args[0]) == l.Args[0] {
			return false
		}
	}
	return true
}

// written: what was written to w before an event, with everything finished
func (d *codec) written(w *Term, before int) ([]string, bool) {
	w = stripIface(w)
	var steps []string
	n := 0
	for i, ev := range d.o.St.ev {
		if i >= before {
			break
		}
		if d.used[ev] && ev.Name != "compress/gzip.NewWriter" {
			// a finishing step that belongs to another writer
		}
		switch ev.Name {
		case "compress/gzip.NewWriter", "compress/gzip.NewWriterLevel", "compress/zlib.NewWriter", "encoding/hex.NewEncoder":
			if stripIface(ev.Args[0]) != w {
				continue
			}
			if !d.ok(ev) {
				return d.fail("the error of " + ev.Name + " is not looked at")
			}
			n++
			name := strings.TrimPrefix(strings.TrimPrefix(ev.Name, "compress/"), "encoding/")
			name = name[:strings.Index(name, ".")]
			W := ev.results()[0]
			end := before
			if name != "hex" {
				end = -1
				for j, x := range d.o.St.ev {
					if j < before && (strings.HasSuffix(x.Name, ".Writer).Close") || x.Name == "(io.Closer).Close" || x.Name == "(io.WriteCloser).Close") && stripIface(x.Args[0]) == W {
						if !d.ok(x) {
							return d.fail("the compressed stream may fail to be finished")
						}
						end = j
						break
					}
				}
				if end < 0 {
					return d.fail("the compressed stream is not finished when its bytes are taken")
				}
			}
			l, ok := d.written(W, end)
			if !ok {
				return nil, false
			}
			for j, x := range d.o.St.ev {
				if _, _, is := textOf(x); (is || strings.HasSuffix(x.Name, ".Writer).Write")) && j > end && stripIface(x.Args[0]) == W {
					return d.fail("something is written after the compressed stream was finished")
				}
				if x.Name == "(*compress/gzip.Writer).Reset" && x.Args[0] == W {
					return d.fail("the compressed stream is reset")
				}
			}
			steps = append([]string{name}, l...)
		case "(*compress/gzip.Writer).Write", "(*compress/zlib.Writer).Write", "(io.Writer).Write", "(*bytes.Buffer).Write", "(io.WriteCloser).Write", "io.WriteString":
			if stripIface(ev.Args[0]) != w {
				continue
			}
			if !d.ok(ev) {
				return d.fail("a write may fail unnoticed")
			}
			n++
			l, ok := d.encoded(ev.Args[1], i)
			if !ok {
				return nil, false
			}
			steps = l
		case "io.Copy":
			if stripIface(ev.Args[0]) != w {
				continue
			}
			if !d.ok(ev) {
				return d.fail("a copy may fail unnoticed")
			}
			n++
			r, _ := d.event(stripIface(ev.Args[1]))
			if r == nil || r.Name != "bytes.NewReader" && r.Name != "bytes.NewBuffer" {
				return d.fail("what is copied is not the input")
			}
			l, ok := d.encoded(r.Args[0], i)
			if !ok {
				return nil, false
			}
			steps = l
		case "(*bytes.Buffer).Reset", "(*bytes.Buffer).Truncate", "(*bytes.Buffer).Next":
			if stripIface(ev.Args[0]) == w {
				return d.fail(ev.Name)
			}
		}
	}
	if n != 1 {
		return d.fail("the input is not written exactly once")
	}
	return steps, true
}

// decoded lists the steps from the result back to the input.
func (d *codec) decoded(t *Term) ([]string, bool) {
	t = strip(t)
	if t == d.src {
		return nil, true
	}
	if t.Op == "slice" && len(t.A) == 3 {
		// dst[:n] with n what the decoder reported
		if n, _ := d.event(t.A[2]); n != nil && n.Name == "encoding/hex.Decode" && n.Args[0] == t.A[0] && (t.A[1].isZero() || t.A[1] == tNil) {
			return d.decoded(t.A[0])
		}
		return d.fail("a part of the data is returned")
	}
	for _, ev := range d.o.St.ev {
		if ev.Name == "encoding/hex.Decode" && len(ev.Args) == 2 && ev.Args[0] == t {
			if !d.ok(ev) {
				return d.fail("damaged printable text is not noticed")
			}
			l, ok := d.decoded(ev.Args[1])
			if ok {
				// make(DecodedLen(len(src)))
				room := t.Op == "mkslice" && len(t.A) > 0
				if room {
					x := t.A[0]
					room = x.isApp("encoding/hex.DecodedLen") && len(x.A) == 1 && x.A[0] == tLen(ev.Args[1]) || x.Op == "quo" && x.A[0] == tLen(ev.Args[1])
				}
				if !room {
					return d.fail("the room for the decoded data is not made for its length")
				}
			}
			return append([]string{"hex"}, l...), ok
		}
	}
	if t.Op == "ext" && len(t.A) == 1 && strings.HasSuffix(t.A[0].S, "hex.DecodeString") && t == tExt(t.A[0], 0, t.T) {
		if !d.o.St.facts.isNil(tExt(t.A[0], 1, types.Universe.Lookup("error").Type())) {
			return d.fail("damaged printable text is not noticed")
		}
		l, ok := d.decoded(t.A[0].A[0])
		return append([]string{"hex"}, l...), ok
	}
	ev, i := d.event(t)
	if ev == nil {
		return d.fail(t.String() + " is not the whole of what the stream holds")
	}
	if !d.ok(ev) {
		return d.fail("the error of " + ev.Name + " is not looked at")
	}
	switch {
	case ev.Name == "encoding/hex.DecodeString" && i == 0:
		l, ok := d.decoded(ev.Args[0])
		return append([]string{"hex"}, l...), ok
	case (ev.Name == "io.ReadAll" || ev.Name == "io/ioutil.ReadAll") && i == 0:
		return d.read(ev.Args[0])
	case ev.Name == "(*bytes.Buffer).Bytes":
		n := 0
		var l []string
		ok := false
		for _, x := range d.o.St.ev[:d.index(ev)] {
			switch x.Name {
			case "io.Copy":
				if stripIface(x.Args[0]) == ev.Args[0] {
					n++
					if !d.ok(x) {
						return d.fail("damage that shows while the stream is read is not noticed")
					}
					l, ok = d.read(x.Args[1])
				}
			case "(*bytes.Buffer).ReadFrom":
				if x.Args[0] == ev.Args[0] {
					n++
					if !d.ok(x) {
						return d.fail("damage that shows while the stream is read is not noticed")
					}
					l, ok = d.read(x.Args[1])
				}
			default:
				if x.Pure || x.Sub != nil {
					continue
				}
				for _, a := range x.args() {
					if stripIface(a) == ev.Args[0] {
						return d.fail(x.Name + " does not fill the result with everything")
					}
				}
			}
		}
		if n != 1 {
			return d.fail("the stream is not read exactly once")
		}
		return l, ok
	}
	return d.fail(ev.Name + " does not give everything the stream holds")
}

func (d *codec) read(r *Term) ([]string, bool) {
	r = stripIface(r)
	ev, _ := d.event(r)
	if ev == nil {
		return d.fail(r.String() + " is read")
	}
	if !d.ok(ev) {
		return d.fail("the error of " + ev.Name + " is not looked at")
	}
	switch ev.Name {
	case "compress/gzip.NewReader", "compress/zlib.NewReader", "encoding/hex.NewDecoder":
		name := strings.TrimPrefix(strings.TrimPrefix(ev.Name, "compress/"), "encoding/")
		name = name[:strings.Index(name, ".")]
		for _, x := range d.o.St.ev {
			if strings.HasSuffix(x.Name, "Reader).Multistream") || strings.HasSuffix(x.Name, "Reader).Reset") {
				return d.fail(x.Name)
			}
		}
		l, ok := d.read(ev.Args[0])
		return append([]string{name}, l...), ok
	case "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader", "bytes.NewBufferString":
		return d.decoded(ev.Args[0])
	}
	return d.fail(ev.Name + " does not give everything")
}

func c19(c *Ctx) {
	enc := c.fn("pkging/embed", "Encode")
	dec := c.fn("pkging/embed", "Decode")
	if enc == nil || dec == nil {
		return
	}
	var forms [2]map[string]bool
	for i, fn := range []*ssa.Function{enc, dec} {
		forms[i] = map[string]bool{}
		k := fnName(fn)
		fails := 0
		for _, o := range c.run(fn) {
			if o.Panic != nil || len(o.Ret) != 2 {
				c.fail("no panic", k, o.where(fn), "a path panics")
				continue
			}
			if o.St.facts.notNil(o.Ret[1]) {
				fails++
				c.check("no data with an error", k, o.where(fn), o.Ret[0] == tNil || o.St.facts.isNil(o.Ret[0]), "%s is returned along with an error", o.Ret[0])
				continue
			}
			if !c.check("error known", k, o.where(fn), o.St.facts.isNil(o.Ret[1]), "data is returned along with %s, which may be an error", o.Ret[1]) {
				continue
			}
			for _, ev := range o.St.ev {
				if e := ev.errResult(); e != nil && !o.St.facts.isNil(e) && !harmlessClose(ev) {
					c.fail("no step fails unnoticed", k, ev.pos(), "success is reported though %s may have failed", ev.Name)
				}
			}
			c.check("no step fails unnoticed", k, fn.Pos(), true, "")
			d := &codec{o: o, src: c.P.paramTerm(fn, 0), used: map[*Event]bool{}}
			var l []string
			ok := false
			if i == 0 {
				l, ok = d.encoded(o.Ret[0], len(o.St.ev))
			} else {
				l, ok = d.decoded(o.Ret[0])
			}
			c.check("whole data", k, o.where(fn), ok, "%s", d.why)
			if ok {
				if i == 1 {
					for a, b := 0, len(l)-1; a < b; a, b = a+1, b-1 {
						l[a], l[b] = l[b], l[a]
					}
				}
				forms[i][strings.Join(l, ", ")] = true
			}
			// nothing else touches the input
			for _, ev := range o.St.ev {
				if (ev.Kind == "store" || ev.Kind == "builtin" && ev.Name == "copy") && rootOf(ev.Args[0]) == d.src {
					c.fail("input unchanged", k, ev.pos(), "the input is changed")
				}
			}
		}
		c.atLeast("failing paths of "+fn.Name(), fails, 1)
		c.check("one form", k, fn.Pos(), len(forms[i]) == 1, "there are %d forms", len(forms[i]))
	}
	a, b := "", ""
	for s := range forms[0] {
		a = s
	}
	for s := range forms[1] {
		b = s
	}
	c.check("inverse", "Encode and Decode", dec.Pos(), a == b && a != "", "Encode makes (%s), Decode undoes (%s)", a, b)
}

// closing a reader tells nothing about the data already read
func harmlessClose(ev *Event) bool {
	return strings.HasSuffix(ev.Name, "Reader).Close") || ev.Name == "(io.ReadCloser).Close"
}

func init() {
	register("C19", "provenance of the results of Encode and Decode through buffers, writers and readers on every path: the steps of one are those of the other in reverse, each stream is written once, finished before its bytes are taken and read to its end, and every fallible step is known to have succeeded when data is returned", c19,
		"compress/gzip detects damage by its checksum and encoding/hex by its alphabet")
}
