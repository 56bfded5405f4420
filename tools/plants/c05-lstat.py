prop='C05'
edits=[('pkging/stdos/stdos.go','info, err := os.Stat(filepath.Join(her.Dir, pt.Name))','info, err := os.Lstat(filepath.Join(her.Dir, pt.Name))')]
pkg='pkging/stdos'
needs='a symbolic link in the package'
breaks='Stat reports the link instead of the file it leads to'
demo='''
package stdos

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"github.com/markbates/pkger/here"
)

func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	os.MkdirAll(filepath.Join(dir, "real"), 0755)
	if err := os.Symlink("real", filepath.Join(dir, "link")); err != nil {
		t.Fatal(err)
	}
	p, err := New(here.Info{ImportPath: "app", Dir: dir, Module: here.Module{Path: "app", Dir: dir}})
	if err != nil {
		t.Fatal(err)
	}
	fi, err := p.Stat("/link")
	if err != nil {
		t.Fatal(err)
	}
	if !fi.IsDir() {
		t.Fatal("the directory behind the link is not seen")
	}
}
'''
