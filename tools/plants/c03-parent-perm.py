prop='C03'
edits=[('pkging/wrap.go','''	err := w.base.MkdirAll(p, perm)
	if err != nil {
		return err
	}
	if w.parent != nil {
		return w.parent.MkdirAll(p, perm)''','''	err := w.base.MkdirAll(p, perm)
	if err != nil {
		return err
	}
	if w.parent != nil {
		return w.parent.MkdirAll(p, perm&os.ModePerm|0700)''')]
pkg='pkging'
needs='two layers, and permissions without some of the owner bits'
breaks='the older layer gets other permissions than the caller asked for'
demo='''
package pkging

import (
	"os"
	"testing"
)

type rec struct {
	Pkger
	perm os.FileMode
}

func (r *rec) MkdirAll(p string, perm os.FileMode) error {
	r.perm = perm
	return nil
}

func TestDemo(t *testing.T) {
	a, b := &rec{}, &rec{}
	if err := Wrap(a, b).MkdirAll("/x", 0555); err != nil {
		t.Fatal(err)
	}
	if a.perm != 0555 || b.perm != 0555 {
		t.Fatalf("%v %v", a.perm, b.perm)
	}
}
'''
