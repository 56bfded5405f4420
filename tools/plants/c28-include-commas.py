prop='C28'
pkg='cmd/pkger/cmds'
edits=[('cmd/pkger/cmds/pack.go', '\t*i = append(*i, value)\n', '\t*i = append(*i, strings.Split(value, ",")...)\n')]
needs='including a file whose name has a comma'
breaks='it is taken for two files'
demo='package cmds\n\nimport (\n\t"testing"\n)\n\nfunc TestDemo(t *testing.T) {\n\tvar s slice\n\ts.Set("/a")\n\ts.Set("/b,c")\n\tif len(s) != 2 || s[1] != "/b,c" {\n\t\tt.Fatal(s)\n\t}\n}\n'
