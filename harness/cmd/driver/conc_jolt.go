//go:build jolt

package main

import (
	"math/rand"

	"github.com/henderiw/idxtable/pkg/verifsync"
)

func init() {
	verifsync.Disturb = true
	r := rand.New(rand.NewSource(1))
	var longest int64
	joltRun = func(start bool) {
		if start {
			n := max(longest, 20)
			for i := range verifsync.Pause {
				verifsync.Pause[i] = 1 + r.Int63n(n)
				if i > 0 && r.Intn(2) == 0 {
					verifsync.Pause[i] = 0
				}
			}
			verifsync.Passed = 0
		} else {
			// forget slowly how long the runs before were
			longest = max(verifsync.Passed, longest-longest/16)
			verifsync.Pause = [3]int64{}
		}
	}
}
