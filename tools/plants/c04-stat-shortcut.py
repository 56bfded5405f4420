prop='C04'
edits=[('pkging/stdos/stdos.go','''func (fx *Pkger) Stat(name string) (os.FileInfo, error) {
''','''func (fx *Pkger) Stat(name string) (os.FileInfo, error) {
	if strings.HasPrefix(name, "/") && !strings.Contains(name, ":") {
		// a plain name in the current package needs no parsing
		info, err := os.Stat(filepath.Join(fx.Here.Dir, name))
		if err != nil {
			return nil, err
		}
		return pkging.NewFileInfo(info), nil
	}

''')]
pkg='pkging/stdos'
needs='a name with parent elements at its start'
breaks='Stat examines files outside the directory of the package'
demo='''
package stdos

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"github.com/markbates/pkger/here"
)

func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	app := filepath.Join(dir, "app")
	os.MkdirAll(app, 0755)
	ioutil.WriteFile(filepath.Join(dir, "secret"), []byte("x"), 0644)
	ioutil.WriteFile(filepath.Join(app, "mine"), []byte("x"), 0644)
	p, err := New(here.Info{ImportPath: "app", Dir: app, Module: here.Module{Path: "app", Dir: app}})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := p.Stat("/mine"); err != nil {
		t.Fatal(err)
	}
	if _, err := p.Stat("/../secret"); err == nil {
		t.Fatal("found a file outside the package")
	}
}
'''
