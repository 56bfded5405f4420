prop='C10'
pkg='pkging/mem'
edits=[('pkging/mem/mem.go', '\treturn nil, fmt.Errorf("could not stat %s", pt)', '\t// not embedded, but it may be next to the sources\n\tif os.Getenv("PKGER_DEV") != "" {\n\t\tfi, err := os.Stat(filepath.Join(fx.Here.Dir, pt.Name))\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\treturn pkging.NewFileInfo(fi), nil\n\t}\n\treturn nil, fmt.Errorf("could not stat %s", pt)')]
needs='asking for a file that is not embedded in development mode, on a machine that has the sources'
breaks='the in-memory implementation looks at the disk'
demo='package mem\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"path/filepath"\n\t"testing"\n\t\n\t"github.com/markbates/pkger/here"\n)\n\nfunc module(t *testing.T, files map[string]string) string {\n\tdir, err := ioutil.TempDir("", "demo")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdir, err = filepath.EvalSymlinks(dir)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tfor n, s := range files {\n\t\tp := filepath.Join(dir, n)\n\t\tos.MkdirAll(filepath.Dir(p), 0755)\n\t\tif err := ioutil.WriteFile(p, []byte(s), 0644); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t}\n\treturn dir\n}\n\nfunc TestDemo(t *testing.T) {\n\tos.Setenv("PKGER_DEV", "1")\n\tdir := module(t, map[string]string{"a.txt": "a"})\n\tdefer os.RemoveAll(dir)\n\tp, err := New(here.Info{ImportPath: "app", Dir: dir, Module: here.Module{Path: "app", Dir: dir}})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif fi, err := p.Stat("/a.txt"); err == nil {\n\t\tt.Fatal("found", fi)\n\t}\n}\n'
