prop='C27'
pkg='pkging/stdos'
edits=[('pkging/stdos/stdos.go', '\treturn os.RemoveAll(filepath.Join(info.Dir, pt.Name))\n', '\tfp := filepath.Join(info.Dir, pt.Name)\n\tif err := os.RemoveAll(fp); err != nil {\n\t\treturn err\n\t}\n\tif pt.Name != "/" && filepath.Dir(fp) != filepath.Clean(info.Dir) {\n\t\t// nothing may be left in the directory it was in\n\t\tos.Remove(filepath.Dir(fp))\n\t}\n\treturn nil\n')]
needs='removing the last entry of a directory'
breaks='the directory goes as well'
demo='package stdos\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"path/filepath"\n\t"testing"\n\t\n\t"github.com/markbates/pkger/here"\n)\n\nfunc module(t *testing.T, files map[string]string) string {\n\tdir, err := ioutil.TempDir("", "demo")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdir, err = filepath.EvalSymlinks(dir)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tfor n, s := range files {\n\t\tp := filepath.Join(dir, n)\n\t\tos.MkdirAll(filepath.Dir(p), 0755)\n\t\tif err := ioutil.WriteFile(p, []byte(s), 0644); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t}\n\treturn dir\n}\n\nfunc TestDemo(t *testing.T) {\n\tdir := module(t, map[string]string{"a/b/c.txt": "c"})\n\tdefer os.RemoveAll(dir)\n\tp, err := New(here.Info{ImportPath: "app", Dir: dir, Module: here.Module{Path: "app", Dir: dir}})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif err := p.RemoveAll("/a/b"); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif _, err := os.Stat(filepath.Join(dir, "a")); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n'
