prop='C02'
edits=[('pkger.go','''	gil.RLock()
	defer gil.RUnlock()
	if current == nil {
		return disk
	}
	return current''','''	if current == nil {
		// nothing was applied yet
		return disk
	}
	gil.RLock()
	defer gil.RUnlock()
	return current''')]
pkg='.'
flags='-race'
needs='an operation that runs while another goroutine applies an implementation'
breaks='the active implementation is read without the lock'
demo='''
package pkger

import (
	"sync"
	"testing"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging/mem"
)

func TestDemo(t *testing.T) {
	her, err := here.Current()
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(2)
		go func() {
			defer wg.Done()
			Apply(mem.New(her))
		}()
		go func() {
			defer wg.Done()
			Current()
		}()
	}
	wg.Wait()
}
'''
