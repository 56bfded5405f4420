prop='C31'
pkg='parser'
edits=[('parser/include.go', '\tabs := filepath.Join(her.Module.Dir, pt.Name)\n', '\tabs := filepath.Join(her.Dir, pt.Name)\n')]
needs='-include in a package that is not at the root of its module'
breaks='the place on disk is taken below the package, not the module'
demo='package parser\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"path/filepath"\n\t"testing"\n\t\n\t"github.com/markbates/pkger/here"\n)\n\nfunc module(t *testing.T, files map[string]string) string {\n\tdir, err := ioutil.TempDir("", "demo")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdir, err = filepath.EvalSymlinks(dir)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tfor n, s := range files {\n\t\tp := filepath.Join(dir, n)\n\t\tos.MkdirAll(filepath.Dir(p), 0755)\n\t\tif err := ioutil.WriteFile(p, []byte(s), 0644); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t}\n\treturn dir\n}\n\nfunc TestDemo(t *testing.T) {\n\tdir := module(t, map[string]string{"go.mod": "module app\\n", "cmd/x/main.go": "package main\\n", "a.txt": "a"})\n\tdefer os.RemoveAll(dir)\n\ther, err := here.Dir(filepath.Join(dir, "cmd", "x"))\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\td, err := NewInclude(her, her.ImportPath+":/a.txt")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tf, err := d.File()\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif f.Abs != filepath.Join(dir, "a.txt") {\n\t\tt.Fatal(f.Abs)\n\t}\n}\n'
