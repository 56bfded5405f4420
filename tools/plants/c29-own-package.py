prop='C29'
pkg='pkging/mem'
edits=[('pkging/mem/file.go', '\tdi, err := f.pkging.Open(pt.String())\n', '\tdi, err := f.pkging.Open(pt.Name)\n')]
needs='opening a file through a handle of a directory of another package'
breaks='the file of the current package is opened'
demo='package mem\n\nimport (\n\t"testing"\n\t\n\t"github.com/markbates/pkger/here"\n)\n\nfunc TestDemo(t *testing.T) {\n\tp, err := New(here.Info{ImportPath: "app", Dir: "/app", Module: here.Module{Path: "app", Dir: "/app"}})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tp.infos.Store("other", here.Info{ImportPath: "other", Dir: "/other"})\n\tif err := p.MkdirAll("other:/a", 0755); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tf, err := p.Create("other:/a/b")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tf.Close()\n\td, err := p.Open("other:/a")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tg, err := d.Open("/b")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tg.Close()\n}\n'
