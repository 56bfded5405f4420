prop='C21'
pkg='parser'
edits=[('parser/decl.go', '\t\treturn files[i].Path.String() < files[j].Path.String()', '\t\treturn files[i].Path.Name < files[j].Path.Name')]
needs='files of several modules with the same name'
breaks='their order changes from run to run'
demo='package parser\n\nimport (\n\t"fmt"\n\t"io/ioutil"\n\t"os"\n\t"path/filepath"\n\t"testing"\n\t\n\t"github.com/markbates/pkger/here"\n)\n\nfunc module(t *testing.T, files map[string]string) string {\n\tdir, err := ioutil.TempDir("", "demo")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdir, err = filepath.EvalSymlinks(dir)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tfor n, s := range files {\n\t\tp := filepath.Join(dir, n)\n\t\tos.MkdirAll(filepath.Dir(p), 0755)\n\t\tif err := ioutil.WriteFile(p, []byte(s), 0644); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t}\n\treturn dir\n}\n\nfunc TestDemo(t *testing.T) {\n\tvar decls Decls\n\tfor i := 0; i < 6; i++ {\n\t\tdir := module(t, map[string]string{"a.txt": "a"})\n\t\tdefer os.RemoveAll(dir)\n\t\tm := fmt.Sprintf("m%d", i)\n\t\ther := here.Info{ImportPath: m, Dir: dir, Module: here.Module{Path: m, Dir: dir}}\n\t\tdecls = append(decls, IncludeDecl{value: m + ":/a.txt", file: &File{Abs: filepath.Join(dir, "a.txt"), Path: here.Path{Pkg: m, Name: "/a.txt"}, Here: her}})\n\t}\n\tfirst := ""\n\tfor i := 0; i < 60; i++ {\n\t\tfiles, err := decls.Files()\n\t\tif err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t\ts := ""\n\t\tfor _, f := range files {\n\t\t\ts += f.Path.String() + " "\n\t\t}\n\t\tif first == "" {\n\t\t\tfirst = s\n\t\t}\n\t\tif s != first {\n\t\t\tt.Fatal(s, first)\n\t\t}\n\t}\n}\n'
