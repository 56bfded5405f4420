prop='C19'
pkg='pkging/embed'
edits=[('pkging/embed/embed.go', '\tif _, err := io.Copy(bb, r); err != nil {\n\t\treturn nil, err\n\t}\n', '\tif _, err := io.Copy(bb, r); err != nil && err != io.ErrUnexpectedEOF {\n\t\treturn nil, err\n\t}\n')]
needs='decoding embedded data whose end is missing'
breaks='a part of the data is returned without an error'
demo='package embed\n\nimport (\n\t"testing"\n)\n\nfunc TestDemo(t *testing.T) {\n\tb, err := Encode([]byte("some data that is long enough to be compressed"))\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif x, err := Decode(b[:len(b)-10]); err == nil {\n\t\tt.Fatalf("%q", x)\n\t}\n}\n'
