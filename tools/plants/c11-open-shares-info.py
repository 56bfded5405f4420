prop='C11'
edits=[('pkging/mem/mem.go','		info:   pkging.NewFileInfo(f.info),','		info:   f.info,')]
pkg='pkging/mem'
needs='writing through a handle that Open returned, and closing it'
breaks='the stored size and time change although the stored content does not'
demo='''
package mem

import (
	"testing"

	"github.com/markbates/pkger/here"
)

func TestDemo(t *testing.T) {
	p, err := New(here.Info{ImportPath: "app", Dir: "/app", Module: here.Module{Path: "app", Dir: "/app"}})
	if err != nil {
		t.Fatal(err)
	}
	f, err := p.Create("/a")
	if err != nil {
		t.Fatal(err)
	}
	f.Write([]byte("abc"))
	f.Close()
	h, err := p.Open("/a")
	if err != nil {
		t.Fatal(err)
	}
	h.Write([]byte("something else"))
	h.Close()
	fi, err := p.Stat("/a")
	if err != nil {
		t.Fatal(err)
	}
	if fi.Size() != 3 {
		t.Fatal(fi.Size())
	}
}
'''
