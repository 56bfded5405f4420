prop='C16'
pkg='pkging/mem'
edits=[('pkging/mem/file.go', '\t\treturn sk.Seek(ofpkginget, whence)\n', '\t\tn, err := sk.Seek(ofpkginget, whence)\n\t\tif err != nil {\n\t\t\tf.reader = nil\n\t\t}\n\t\treturn n, err\n')]
needs='reading on after a seek that was rejected'
breaks='reading starts again at the first byte'
demo='package mem\n\nimport (\n\t"io"\n\t"testing"\n\t\n\t"github.com/markbates/pkger/here"\n)\n\nfunc TestDemo(t *testing.T) {\n\tp, err := New(here.Info{ImportPath: "app", Dir: "/app", Module: here.Module{Path: "app", Dir: "/app"}})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tf, err := p.Create("/a")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tf.Write([]byte("abcdef"))\n\tf.Close()\n\th, err := p.Open("/a")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tb := make([]byte, 2)\n\tio.ReadFull(h, b)\n\tif _, err := h.Seek(-10, io.SeekStart); err == nil {\n\t\tt.Fatal("no error")\n\t}\n\tio.ReadFull(h, b)\n\tif string(b) != "cd" {\n\t\tt.Fatal(string(b))\n\t}\n}\n'
