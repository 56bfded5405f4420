prop='C26'
pkg='pkging/stdos'
edits=[('pkging/stdos/stdos.go', '\tinfo, err := here.Package(p)\n\tif err != nil {\n\t\treturn info, err\n\t}\n', '\tinfo, err := here.Package(p)\n\tif err != nil {\n\t\tlog.Printf("pkger: %s: %s", p, err)\n\t\treturn info, err\n\t}\n'), ('pkging/stdos/stdos.go', '\t"fmt"\n\t"os"\n', '\t"fmt"\n\t"log"\n\t"os"\n')]
needs='asking for a package that cannot be found'
breaks='the library writes to the log of the program'
demo='package stdos\n\nimport (\n\t"bytes"\n\t"log"\n\t"testing"\n\t\n\t"github.com/markbates/pkger/here"\n)\n\nfunc TestDemo(t *testing.T) {\n\tbb := &bytes.Buffer{}\n\tlog.SetOutput(bb)\n\tp, err := New(here.Info{ImportPath: "app", Dir: "/app"})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif _, err := p.Info("no/such/package"); err == nil {\n\t\tt.Fatal("no error")\n\t}\n\tif bb.Len() > 0 {\n\t\tt.Fatal(bb.String())\n\t}\n}\n'
