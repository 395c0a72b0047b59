// Package conc checks the concurrent parts of gost: threads, futures, Mutex, Sleep.
//
// Schedules are controlled by gates: a spawned function stops at a channel of
// the harness until the generated history opens it, so what must and must not
// have happened at each point does not depend on timing. Waiting for something
// that must happen has a limit far beyond any scheduling delay.
package conc

import (
	"runtime"
	"sync/atomic"
	"time"

	"verif/harness/pbt"
)

// limit is how long something that must happen may take.
const limit = 30 * time.Second

var failedWait bool // after one failure later waits are short, so that shrinking ends

func patience() time.Duration {
	if failedWait {
		return 2 * time.Second
	}
	return limit
}

// eventually waits until cond holds.
func eventually(t *pbt.T, what string, cond func() bool) {
	for i := 0; i < 200; i++ {
		if cond() {
			return
		}
		runtime.Gosched()
	}
	end := time.Now().Add(patience())
	for !cond() {
		if time.Now().After(end) {
			failedWait = true
			t.Failf("%s did not happen", what)
		}
		time.Sleep(20 * time.Microsecond)
	}
}

// bounded runs f, which must not block.
func bounded(t *pbt.T, what string, f func()) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	tm := time.NewTimer(patience())
	defer tm.Stop()
	select {
	case r := <-done:
		if r != nil {
			if fl, ok := r.(*pbt.Failure); ok {
				panic(fl)
			}
			t.Failf("%s panicked: %v", what, r)
		}
	case <-tm.C:
		failedWait = true
		t.Failf("%s blocked", what)
	}
}

// settle gives other goroutines a chance to run into a mistake.
func settle(t *pbt.T) {
	switch t.Weighted(4, 3, 1) {
	case 0:
	case 1:
		for i := t.Intn(6); i >= 0; i-- {
			runtime.Gosched()
		}
	default:
		time.Sleep(time.Duration(10+t.Intn(90)) * time.Microsecond)
	}
}

type counter struct{ n atomic.Int32 }

func (c *counter) inc() int { return int(c.n.Add(1)) }
func (c *counter) get() int { return int(c.n.Load()) }
