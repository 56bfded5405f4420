prop='C25'
pkg='internal/maps'
flags='-race'
edits=[('internal/maps/files.go', '\tm.once.Do(func() {\n\t\tif m.data == nil {\n\t\t\tm.data = &sync.Map{}\n\t\t}\n\t})\n\treturn m.data\n', '\tif m.data != nil {\n\t\treturn m.data\n\t}\n\tm.once.Do(func() {\n\t\tm.data = &sync.Map{}\n\t})\n\treturn m.data\n')]
needs='the first lookups on a new implementation, at the same time'
breaks='they race'
demo='package maps\n\nimport (\n\t"sync"\n\t"testing"\n\t\n\t"github.com/markbates/pkger/here"\n)\n\nfunc TestDemo(t *testing.T) {\n\tfor i := 0; i < 200; i++ {\n\t\tm := &Files{}\n\t\tvar wg sync.WaitGroup\n\t\tstart := make(chan bool)\n\t\tfor j := 0; j < 8; j++ {\n\t\t\twg.Add(1)\n\t\t\tgo func() {\n\t\t\t\tdefer wg.Done()\n\t\t\t\t<-start\n\t\t\t\tm.Load(here.Path{Name: "/a"})\n\t\t\t}()\n\t\t}\n\t\tclose(start)\n\t\twg.Wait()\n\t}\n}\n'
