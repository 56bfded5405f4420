prop='C33'
pkg='parser'
edits=[('parser/parser.go', '\terr := p.Parse()\n\treturn p.decls, err', '\terr := p.Parse()\n\tm := map[string]Decls{}\n\tfor name, decls := range p.decls {\n\t\tfor _, d := range decls {\n\t\t\t// those of the command line stand in no source\n\t\t\tif pos, _ := d.Position(); pos.IsValid() {\n\t\t\t\tm[name] = append(m[name], d)\n\t\t\t}\n\t\t}\n\t}\n\treturn m, err')]
needs='a file that is included on the command line'
breaks='its declaration is missing from the map of declarations'
demo='package parser\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"path/filepath"\n\t"testing"\n\t\n\t"github.com/markbates/pkger/here"\n)\n\nfunc module(t *testing.T, files map[string]string) string {\n\tdir, err := ioutil.TempDir("", "demo")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdir, err = filepath.EvalSymlinks(dir)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tfor n, s := range files {\n\t\tp := filepath.Join(dir, n)\n\t\tos.MkdirAll(filepath.Dir(p), 0755)\n\t\tif err := ioutil.WriteFile(p, []byte(s), 0644); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t}\n\treturn dir\n}\n\nfunc TestDemo(t *testing.T) {\n\tdir := module(t, map[string]string{"go.mod": "module app\\n", "a.txt": "a", "main.go": "package main\\n\\nimport \\"github.com/markbates/pkger\\"\\n\\nfunc main() {\\n\\tpkger.Stat(\\"/a.txt\\")\\n}\\n"})\n\tdefer os.RemoveAll(dir)\n\ther, err := here.Dir(dir)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tp, err := New(her)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tp.includes = []string{"/a.txt"}\n\tfor i := 0; i < 2; i++ {\n\t\tm, err := p.DeclsMap()\n\t\tif err != nil || len(m["Stat"]) != 1 || len(m["Include"]) != 1 {\n\t\t\tt.Fatal(i, m, err)\n\t\t}\n\t}\n}\n'
