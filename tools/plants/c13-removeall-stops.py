prop='C13'
edits=[('pkging/mem/mem.go','''			fx.files.Delete(key)
		}
		return true''','''			fx.files.Delete(key)
		}
		return key != pt''')]
pkg='pkging/mem'
needs='a tree, and an iteration order of the map in which the directory comes before its content'
breaks='RemoveAll stops when it has removed the directory itself and keeps some of its content'
demo='''
package mem

import (
	"fmt"
	"testing"

	"github.com/markbates/pkger/here"
)

func TestDemo(t *testing.T) {
	for n := 0; n < 20; n++ {
		p, err := New(here.Info{ImportPath: "app", Dir: "/app", Module: here.Module{Path: "app", Dir: "/app"}})
		if err != nil {
			t.Fatal(err)
		}
		p.MkdirAll("/d", 0755)
		for i := 0; i < 20; i++ {
			if _, err := p.Create(fmt.Sprintf("/d/%d", i)); err != nil {
				t.Fatal(err)
			}
		}
		if err := p.RemoveAll("/d"); err != nil {
			t.Fatal(err)
		}
		for _, k := range p.files.Keys() {
			if k.Name != "/" {
				t.Fatal(k)
			}
		}
	}
}
'''
