// Package bubble runs functions inside one long-lived testing/synctest bubble, so that agent code sees a
// clock that only moves when every goroutine of the bubble sleeps, and never moves backwards between cases.
package bubble

import (
	"fmt"
	"runtime/debug"
	"testing"
	"testing/synctest"
	"time"
)

type job struct {
	f    func()
	done chan any
}

type B struct{ jobs chan job }

// New starts the bubble. start is how far after 2000-01-01 its clock stands (at least).
func New(t *testing.T) *B {
	b := &B{jobs: make(chan job)}
	go synctest.Test(t, func(*testing.T) {
		// beyond the real clock: singletons created at package initialisation must not see time run backwards
		time.Sleep(60 * 365 * 24 * time.Hour)
		for j := range b.jobs {
			func() {
				defer func() {
					if r := recover(); r != nil {
						j.done <- fmt.Sprintf("%v\n%s", r, debug.Stack())
						return
					}
					j.done <- nil
				}()
				j.f()
			}()
		}
	})
	return b
}

// Run executes f in the bubble and returns its panic, if any.
func (b *B) Run(f func()) error {
	j := job{f, make(chan any, 1)}
	b.jobs <- j
	if r := <-j.done; r != nil {
		return fmt.Errorf("panic: %v", r)
	}
	return nil
}
