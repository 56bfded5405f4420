prop='C01'
edits=[('pkger.go','''func Stat(name string) (os.FileInfo, error) {
	return impl().Stat(name)''','''func Stat(name string) (os.FileInfo, error) {
	fi, err := impl().Stat(name)
	if err != nil {
		return disk.Stat(name)
	}
	return fi, nil''')]
pkg='.'
needs='an applied implementation that lacks a file which exists on the disk'
breaks='Stat answers from the disk although the active implementation reports an error'
demo='''
package pkger

import (
	"testing"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging/mem"
)

func TestDemo(t *testing.T) {
	her, err := here.Current()
	if err != nil {
		t.Fatal(err)
	}
	m, err := mem.New(her)
	if err != nil {
		t.Fatal(err)
	}
	current = m
	defer func() { current = nil }()
	if _, err := Stat("/go.mod"); err == nil {
		t.Fatal("found a file that the active implementation does not have")
	}
}
'''
