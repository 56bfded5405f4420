prop='C07'
pkg='pkging/mem'
edits=[('pkging/mem/add.go', '\t\t\t\tf, err := os.Open(path)\n\t\t\t\tif err != nil {\n\t\t\t\t\treturn err\n\t\t\t\t}\n', '\t\t\t\tf, err := os.Open(path)\n\t\t\t\tif os.IsNotExist(err) {\n\t\t\t\t\t// it vanished after it was listed\n\t\t\t\t\treturn nil\n\t\t\t\t}\n\t\t\t\tif err != nil {\n\t\t\t\t\treturn err\n\t\t\t\t}\n')]
needs='a file below an added directory that is listed but not there when it is opened, as a dangling link'
breaks='adding the directory succeeds without the file'
demo='package mem\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"path/filepath"\n\t"testing"\n\t\n\t"github.com/markbates/pkger/here"\n)\n\nfunc module(t *testing.T, files map[string]string) string {\n\tdir, err := ioutil.TempDir("", "demo")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdir, err = filepath.EvalSymlinks(dir)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tfor n, s := range files {\n\t\tp := filepath.Join(dir, n)\n\t\tos.MkdirAll(filepath.Dir(p), 0755)\n\t\tif err := ioutil.WriteFile(p, []byte(s), 0644); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t}\n\treturn dir\n}\n\nfunc TestDemo(t *testing.T) {\n\tdir := module(t, map[string]string{"go.mod": "module app\\n", "main.go": "package main\\n", "pub/a.txt": "a"})\n\tdefer os.RemoveAll(dir)\n\tos.Symlink(filepath.Join(dir, "nowhere"), filepath.Join(dir, "pub", "b.txt"))\n\ther, err := here.Dir(dir)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tp, err := New(her)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tf, err := os.Open(filepath.Join(dir, "pub"))\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer f.Close()\n\tif err := p.Add(f); err == nil {\n\t\tt.Fatal("added although a file could not be read")\n\t}\n}\n'
