prop='C18'
pkg='pkging/mem'
edits=[('pkging/mem/embed.go', '\t\t\tHere:   f.Here,\n\t\t\tPath: ', '\t\t\tHere:   p.Here,\n\t\t\tPath: ')]
needs='encoding a store that has files of another package'
breaks='they come back with the info of the current package'
demo='package mem\n\nimport (\n\t"testing"\n\t\n\t"github.com/markbates/pkger/here"\n)\n\nfunc TestDemo(t *testing.T) {\n\tp, err := New(here.Info{ImportPath: "app", Dir: "/app", Module: here.Module{Path: "app", Dir: "/app"}})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tp.infos.Store("other", here.Info{ImportPath: "other", Dir: "/other"})\n\tf, err := p.Create("other:/a")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tf.Close()\n\tb, err := p.MarshalJSON()\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tq := &Pkger{}\n\tif err := q.UnmarshalJSON(b); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tg, err := q.Open("other:/a")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif g.Info().ImportPath != "other" {\n\t\tt.Fatal(g.Info())\n\t}\n}\n'
