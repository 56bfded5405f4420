prop='C34'
pkg='cmd/pkger/cmds'
edits=[('cmd/pkger/cmds/path.go', '	return s.Flags().Name()\n', '	return "path"\n'), ('cmd/pkger/cmds/pack.go', '					Usage(os.Stderr, c.Flags())()\n', '					Usage(os.Stderr, c.Flags())()\n')][:1]
needs='running path (its flag set was made by asking for its name)'
breaks='the flags of path are parsed by a nil flag set'
demo='''package cmds

import (
	"testing"
)

func TestDemo(t *testing.T) {
	c, err := New()
	if err != nil {
		t.Fatal(err)
	}
	if err := c.Route([]string{"path", "/go.mod"}); err != nil {
		t.Fatal(err)
	}
}
'''
