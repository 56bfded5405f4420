prop='C09'
pkg='cmd/pkger/cmds'
edits=[('cmd/pkger/cmds/stat.go', '\tfor _, a := range args {\n\t\tf, err := pkger.Open(a)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n', '\tvar failed error\n\tfor _, a := range args {\n\t\tf, err := pkger.Open(a)\n\t\tfailed = err\n\t\tif err != nil {\n\t\t\t// the others are shown all the same\n\t\t\tfmt.Println(err)\n\t\t\tcontinue\n\t\t}\n'), ('cmd/pkger/cmds/stat.go', '\t\tfmt.Println(pkging.NewFileInfo(fi))\n\t}\n\n\treturn nil\n', '\t\tfmt.Println(pkging.NewFileInfo(fi))\n\t}\n\n\treturn failed\n')]
needs='stat with several arguments of which one that is not the last fails'
breaks='the command succeeds'
demo='package cmds\n\nimport (\n\t"io/ioutil"\n\t"os"\n\t"path/filepath"\n\t"testing"\n\t\n\t"github.com/markbates/pkger"\n\t"github.com/markbates/pkger/here"\n\t"github.com/markbates/pkger/pkging/mem"\n)\n\nfunc TestDemo(t *testing.T) {\n\tdir, _ := ioutil.TempDir("", "demo")\n\tdefer os.RemoveAll(dir)\n\ther := here.Info{ImportPath: "app", Dir: filepath.Join(dir, "app"), Module: here.Module{Path: "app", Dir: filepath.Join(dir, "app")}}\n\tp, err := mem.New(her)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tf, err := p.Create("app:/b.txt")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tf.Close()\n\tpkger.Apply(p, nil)\n\tif err := (&statCmd{}).Exec([]string{"app:/b.txt"}); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif err := (&statCmd{}).Exec([]string{"app:/missing-for-sure.txt", "app:/b.txt"}); err == nil {\n\t\tt.Fatal("no error")\n\t}\n}\n'
