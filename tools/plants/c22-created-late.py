prop='C22'
pkg='parser'
edits=[('parser/parser.go', '\t\t"MkdirAll",\n\t\t"Create",\n\t\t"Include",\n\t\t"Stat",\n', '\t\t"MkdirAll",\n\t\t"Include",\n\t\t"Stat",\n\t\t"Create",\n')]
needs='a program that asks for the state of a file that it creates itself'
breaks='packing fails because the file does not exist'
demo='package parser\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"path/filepath"\n\t"testing"\n\t\n\t"github.com/markbates/pkger/here"\n)\n\nfunc module(t *testing.T, files map[string]string) string {\n\tdir, err := ioutil.TempDir("", "demo")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdir, err = filepath.EvalSymlinks(dir)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tfor n, s := range files {\n\t\tp := filepath.Join(dir, n)\n\t\tos.MkdirAll(filepath.Dir(p), 0755)\n\t\tif err := ioutil.WriteFile(p, []byte(s), 0644); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t}\n\treturn dir\n}\n\nfunc TestDemo(t *testing.T) {\n\tdir := module(t, map[string]string{"go.mod": "module app\\n", "main.go": `package main\n\nfunc main() {\n\tpkger.Stat("/new.txt")\n\tpkger.Create("/new.txt")\n}\n`})\n\tdefer os.RemoveAll(dir)\n\ther, err := here.Dir(dir)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdecls, err := Parse(her)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif _, err := decls.Files(); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n'
