prop='C24'
pkg='pkging'
edits=[('pkging/mod_time.go', '\treturn json.Marshal(t.Format(timeFmt))', '\treturn json.Marshal(t.UTC().Format(timeFmt))')]
needs='a modification time in another zone'
breaks='it comes back in UTC'
demo='package pkging\n\nimport (\n\t"encoding/json"\n\t"testing"\n\t"time"\n)\n\nfunc TestDemo(t *testing.T) {\n\tat := time.Date(2020, 1, 2, 3, 4, 5, 6, time.FixedZone("X", 3*3600))\n\tb, err := json.Marshal(ModTime(at))\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tvar m ModTime\n\tif err := json.Unmarshal(b, &m); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif _, off := time.Time(m).Zone(); off != 3*3600 {\n\t\tt.Fatal(time.Time(m))\n\t}\n}\n'
