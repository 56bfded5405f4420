prop='C20'
pkg='cmd/pkger/cmds'
edits=[('cmd/pkger/cmds/pack.go', '"package %s\\n\\n", c.Name)', '"package %s\\n\\n", filepath.Base(c.Dir))')]
needs='a package whose name is not that of its directory'
breaks='the generated file does not belong to the package'
demo='package cmds\n\nimport (\n\t"strings"\n\t"io/ioutil"\n\t"os"\n\t"path/filepath"\n\t"testing"\n\t\n\t"github.com/markbates/pkger/here"\n)\n\nfunc module(t *testing.T, files map[string]string) string {\n\tdir, err := ioutil.TempDir("", "demo")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdir, err = filepath.EvalSymlinks(dir)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tfor n, s := range files {\n\t\tp := filepath.Join(dir, n)\n\t\tos.MkdirAll(filepath.Dir(p), 0755)\n\t\tif err := ioutil.WriteFile(p, []byte(s), 0644); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t}\n\treturn dir\n}\n\nfunc TestDemo(t *testing.T) {\n\tdir := module(t, map[string]string{"go.mod": "module app\\n", "main.go": "package main\\n"})\n\tdefer os.RemoveAll(dir)\n\ther, err := here.Dir(dir)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tout := filepath.Join(dir, "pkged.go")\n\tif err := Package(her, out, nil); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tb, err := ioutil.ReadFile(out)\n\tif err != nil || !strings.Contains(string(b), "package main\\n") {\n\t\tt.Fatal(err, string(b[:120]))\n\t}\n}\n'
