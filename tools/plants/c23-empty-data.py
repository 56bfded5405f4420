prop='C23'
pkg='pkging/embed'
edits=[('pkging/embed/embed.go', '\tdst := make([]byte, hex.DecodedLen(len(src)))\n', "\tif src[len(src)-1] == '\\n' {\n\t\tsrc = src[:len(src)-1]\n\t}\n\tdst := make([]byte, hex.DecodedLen(len(src)))\n")]
needs='decoding no data'
breaks='it panics'
demo='package embed\n\nimport (\n\t"testing"\n)\n\nfunc TestDemo(t *testing.T) {\n\tif _, err := Decode(nil); err == nil {\n\t\tt.Fatal("no error")\n\t}\n}\n'
