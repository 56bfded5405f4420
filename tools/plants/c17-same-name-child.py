prop='C17'
edits=[('pkging/mem/file.go','''		if root == path {
			return nil
		}
''','''		if strings.HasSuffix(root, "/"+info.Name()) {
			// the directory itself
			return nil
		}
''')]
pkg='pkging/mem'
needs='a directory with a child of its own name'
breaks='that child is left out of the listing, and its content is listed instead'
demo='''
package mem

import (
	"testing"

	"github.com/markbates/pkger/here"
)

func TestDemo(t *testing.T) {
	p, err := New(here.Info{ImportPath: "app", Dir: "/app", Module: here.Module{Path: "app", Dir: "/app"}})
	if err != nil {
		t.Fatal(err)
	}
	if err := p.MkdirAll("/x/x", 0755); err != nil {
		t.Fatal(err)
	}
	h, err := p.Open("/x")
	if err != nil {
		t.Fatal(err)
	}
	l, err := h.Readdir(-1)
	if err != nil || len(l) != 1 {
		t.Fatal(l, err)
	}
}
'''
