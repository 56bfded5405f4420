prop='C14'
pkg='pkging/mem'
edits=[('pkging/mem/mem.go', '\tdir, name := path.Split(pt.Name)\n\n\tif dir != "/" {', '\tdir, name := path.Split(pt.Name)\n\n\tif dir != "/" && pt.Pkg == fx.Here.ImportPath {')]
needs='making nested directories in another package'
breaks='their parents are not made'
demo='package mem\n\nimport (\n\t"testing"\n\t\n\t"github.com/markbates/pkger/here"\n)\n\nfunc TestDemo(t *testing.T) {\n\tp, err := New(here.Info{ImportPath: "app", Dir: "/app", Module: here.Module{Path: "app", Dir: "/app"}})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif err := p.MkdirAll("other:/a/b", 0755); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif _, err := p.Stat("other:/a"); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n'
