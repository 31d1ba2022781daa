// Package clock runs checks under a virtual clock, on which days pass at once.
package clock

import (
	"errors"
	"fmt"
	"testing"
	"testing/synctest"
)

var theT *testing.T

// Main runs the check so that it may use Run: the virtual clock is only there
// for tests.
func Main(check func()) {
	testing.Main(func(_, _ string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "check", F: func(t *testing.T) {
		theT = t
		check()
	}}}, nil, nil)
}

// Run runs the function, and whatever it starts, under a virtual clock of its
// own. It fails if that gets stuck.
func Run(fn func() error) error {
	err := errors.New("got stuck, or a panic in a goroutine, under the virtual clock")
	done := make(chan struct{})
	go func() { // a failed bubble ends its goroutine
		defer close(done)
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic under the virtual clock: %v", p)
			}
		}()
		synctest.Test(theT, func(*testing.T) { err = fn() })
	}()
	<-done
	return err
}

// Settle waits until nothing moves without time passing.
func Settle() { synctest.Wait() }
