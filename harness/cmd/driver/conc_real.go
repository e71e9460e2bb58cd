//go:build !coop

package main

import (
	"sync"
	"time"
)

const cooperative = false

// joltRun is told when a run starts and ends.
var joltRun = func(start bool) {}

// runThreads runs the bodies on real threads; the schedule is the machine's.
func runThreads(bodies []func(), choose func(step, cur int, canRun []int) int) (string, int) {
	joltRun(true)
	defer joltRun(false)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, f := range bodies {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			f()
		}()
	}
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		return "", 0
	case <-time.After(15 * time.Second):
		return "hang", 0
	}
}

func outside() []int { return nil }
