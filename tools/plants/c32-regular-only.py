prop='C32'
pkg='parser'
edits=[('parser/parser.go', '\t\treturn !f.IsDir()\n', '\t\treturn f.Mode().IsRegular()\n')]
needs='a source file that is a symbolic link'
breaks='it is not analysed'
demo='package parser\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"path/filepath"\n\t"testing"\n\t\n\t"github.com/markbates/pkger/here"\n)\n\nfunc module(t *testing.T, files map[string]string) string {\n\tdir, err := ioutil.TempDir("", "demo")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdir, err = filepath.EvalSymlinks(dir)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tfor n, s := range files {\n\t\tp := filepath.Join(dir, n)\n\t\tos.MkdirAll(filepath.Dir(p), 0755)\n\t\tif err := ioutil.WriteFile(p, []byte(s), 0644); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t}\n\treturn dir\n}\n\nfunc TestDemo(t *testing.T) {\n\tdir := module(t, map[string]string{"go.mod": "module app\\n", "main.go": "package main\\n\\nfunc main() {}\\n", "_shared/x.src": "package main\\n\\nfunc init() { pkger.Include(\\"/a.txt\\") }\\n", "a.txt": "a"})\n\tdefer os.RemoveAll(dir)\n\tif err := os.Symlink(filepath.Join(dir, "_shared", "x.src"), filepath.Join(dir, "x.go")); err != nil {\n\t\tt.Fatal(err)\n\t}\n\ther, err := here.Dir(dir)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdecls, err := Parse(her)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif len(decls) != 1 {\n\t\tt.Fatal(decls)\n\t}\n}\n'
