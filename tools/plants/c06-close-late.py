prop='C06'
pkg='pkging/pkgutil'
edits=[('pkging/pkgutil/stuff.go', '\t\t\tdefer df.Close()\n\n\t\t\tif err := pkg.Add(df); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\n\t\t\treturn err\n', '\n\t\t\tif err := pkg.Add(df); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\n\t\t\treturn df.Close()\n')]
needs='a packed directory that has a file that cannot be opened'
breaks='the directory stays open when it cannot be added'
demo='package pkgutil\n\nimport (\n\t"bytes"\n\t"runtime/debug"\n\t"strings"\n\t"io/ioutil"\n\t"os"\n\t"path/filepath"\n\t"testing"\n\t\n\t"github.com/markbates/pkger/here"\n\t"github.com/markbates/pkger/parser"\n)\n\nfunc module(t *testing.T, files map[string]string) string {\n\tdir, err := ioutil.TempDir("", "demo")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdir, err = filepath.EvalSymlinks(dir)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tfor n, s := range files {\n\t\tp := filepath.Join(dir, n)\n\t\tos.MkdirAll(filepath.Dir(p), 0755)\n\t\tif err := ioutil.WriteFile(p, []byte(s), 0644); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t}\n\treturn dir\n}\n\nfunc TestDemo(t *testing.T) {\n\tdebug.SetGCPercent(-1)\n\tdir := module(t, map[string]string{"go.mod": "module app\\n", "main.go": "package main\\n", "pub/a.txt": "a"})\n\tdefer os.RemoveAll(dir)\n\tos.Symlink(filepath.Join(dir, "nowhere"), filepath.Join(dir, "pub", "b.txt"))\n\ther, err := here.Dir(dir)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\td, err := parser.NewInclude(her, "/pub")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif err := Stuff(&bytes.Buffer{}, her, parser.Decls{d}); err == nil {\n\t\tt.Fatal("no error")\n\t}\n\tfds, _ := ioutil.ReadDir("/proc/self/fd")\n\tfor _, fd := range fds {\n\t\tif s, _ := os.Readlink("/proc/self/fd/" + fd.Name()); strings.HasPrefix(s, dir) {\n\t\t\tt.Fatal("still open: " + s)\n\t\t}\n\t}\n}\n'
