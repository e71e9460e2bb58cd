//go:build coop

package main

import "github.com/henderiw/idxtable/pkg/verifsync"

const cooperative = true

func runThreads(bodies []func(), choose func(step, cur int, canRun []int) int) (string, int) {
	return verifsync.Run(bodies, choose)
}

// outside: the points of the last run at which the running thread held no lock.
func outside() []int { return verifsync.Outside }
