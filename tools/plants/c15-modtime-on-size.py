prop='C15'
edits=[('pkging/mem/file.go','''	fi.Details.Size = int64(len(f.data))
	fi.Details.ModTime = pkging.ModTime(time.Now())
''','''	if size := int64(len(f.data)); fi.Details.Size != size {
		fi.Details.Size = size
		fi.Details.ModTime = pkging.ModTime(time.Now())
	}
''')]
pkg='pkging/mem'
needs='new content of the same length as the old'
breaks='the modification time of the file is not set when its content changes'
demo='''
package mem

import (
	"testing"
	"time"

	"github.com/markbates/pkger/here"
)

func TestDemo(t *testing.T) {
	p, err := New(here.Info{ImportPath: "app", Dir: "/app", Module: here.Module{Path: "app", Dir: "/app"}})
	if err != nil {
		t.Fatal(err)
	}
	f, err := p.Create("/a")
	if err != nil {
		t.Fatal(err)
	}
	f.Write([]byte("abc"))
	f.Close()
	fi, _ := f.Stat()
	was := fi.ModTime()
	time.Sleep(20 * time.Millisecond)
	f.Write([]byte("xyz"))
	f.Close()
	fi, _ = f.Stat()
	if !fi.ModTime().After(was) {
		t.Fatal("modification time was not set")
	}
}
'''
