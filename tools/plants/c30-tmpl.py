prop='C30'
pkg='pkging/pkgutil'
edits=[('pkging/pkgutil/stuff.go', 'strings.HasSuffix(pf.Abs, ".tmp")', 'strings.HasPrefix(filepath.Ext(pf.Abs), ".tmp")'), ('pkging/pkgutil/stuff.go', '\t"os"\n', '\t"os"\n\t"path/filepath"\n')]
needs='a file whose extension begins with .tmp, as .tmpl'
breaks='it is not packed'
demo='package pkgutil\n\nimport (\n\t"bytes"\n\t"io/ioutil"\n\t"os"\n\t"path/filepath"\n\t"testing"\n\t\n\t"github.com/markbates/pkger/here"\n\t"github.com/markbates/pkger/parser"\n\t"github.com/markbates/pkger/pkging/mem"\n)\n\nfunc module(t *testing.T, files map[string]string) string {\n\tdir, err := ioutil.TempDir("", "demo")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdir, err = filepath.EvalSymlinks(dir)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tfor n, s := range files {\n\t\tp := filepath.Join(dir, n)\n\t\tos.MkdirAll(filepath.Dir(p), 0755)\n\t\tif err := ioutil.WriteFile(p, []byte(s), 0644); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t}\n\treturn dir\n}\n\nfunc TestDemo(t *testing.T) {\n\tdir := module(t, map[string]string{"go.mod": "module app\\n", "main.go": "package main\\n", "a.tmpl": "a"})\n\tdefer os.RemoveAll(dir)\n\ther, err := here.Dir(dir)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\td, err := parser.NewInclude(her, "/a.tmpl")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tbb := &bytes.Buffer{}\n\tif err := Stuff(bb, her, parser.Decls{d}); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tp, err := mem.UnmarshalEmbed(bb.Bytes())\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif _, err := p.Stat("/a.tmpl"); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n'
