prop='C12'
edits=[('pkging/mem/mem.go','	f, ok := fx.files.Load(pt)\n','	f, ok := fx.files.Load(here.Path{Pkg: fx.Here.ImportPath, Name: pt.Name})\n')]
pkg='pkging/mem'
needs='a file of another package than the current one'
breaks='Stat does not find, or confuses, files of other packages that Open finds'
demo='''
package mem

import (
	"testing"

	"github.com/markbates/pkger/here"
)

func TestDemo(t *testing.T) {
	p, err := New(here.Info{ImportPath: "app", Dir: "/app", Module: here.Module{Path: "app", Dir: "/app"}})
	if err != nil {
		t.Fatal(err)
	}
	p.infos.Store("lib", here.Info{ImportPath: "lib", Dir: "/lib", Module: here.Module{Path: "lib", Dir: "/lib"}})
	if _, err := p.Create("lib:/a"); err != nil {
		t.Fatal(err)
	}
	if _, err := p.Open("lib:/a"); err != nil {
		t.Fatal(err)
	}
	if _, err := p.Stat("lib:/a"); err != nil {
		t.Fatal(err)
	}
}
'''
