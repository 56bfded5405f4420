prop='C33'
pkg='parser'
edits=[('parser/source.go', '\t\tp.decls[name] = append(p.decls[name], fn(f, p.FileSet.Position(n.Pos()), val))', '\t\tat := n.Pos()\n\t\tif id, ok := n.(*ast.Ident); ok && id.Obj != nil {\n\t\t\tat = id.Obj.Pos()\n\t\t}\n\t\tp.decls[name] = append(p.decls[name], fn(f, p.FileSet.Position(at), val))')]
needs='a declaration whose argument is a constant'
breaks='the declaration is reported where the constant is declared, not where it stands'
demo='package parser\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"path/filepath"\n\t"testing"\n\t\n\t"github.com/markbates/pkger/here"\n)\n\nfunc module(t *testing.T, files map[string]string) string {\n\tdir, err := ioutil.TempDir("", "demo")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdir, err = filepath.EvalSymlinks(dir)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tfor n, s := range files {\n\t\tp := filepath.Join(dir, n)\n\t\tos.MkdirAll(filepath.Dir(p), 0755)\n\t\tif err := ioutil.WriteFile(p, []byte(s), 0644); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t}\n\treturn dir\n}\n\nfunc TestDemo(t *testing.T) {\n\tdir := module(t, map[string]string{"go.mod": "module app\\n", "a.txt": "a", "main.go": "package main\\n\\nimport \\"github.com/markbates/pkger\\"\\n\\nconst name = \\"/a.txt\\"\\n\\nfunc main() {\\n\\tpkger.Open(name)\\n}\\n"})\n\tdefer os.RemoveAll(dir)\n\ther, err := here.Dir(dir)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdecls, err := Parse(her)\n\tif err != nil || len(decls) != 1 {\n\t\tt.Fatal(decls, err)\n\t}\n\tpos, err := decls[0].Position()\n\tif err != nil || pos.Line != 8 || pos.Column != 13 {\n\t\tt.Fatal(pos, err)\n\t}\n}\n'
