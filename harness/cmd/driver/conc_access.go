//go:build coop

package main

import (
	"encoding/json"
	"os"
	"sort"
	"unsafe"

	"github.com/henderiw/idxtable/pkg/verifsync"
	"k8s.io/apimachinery/pkg/labels"
)

// what the caller itself reads or overwrites of the results it was given
func callerReadsMap(l labels.Set)         { verifsync.MR(l, 0) }
func callerReads[S ~[]T, T any](s S)      { verifsync.RS(s, 0) }
func callerOverwrites[S ~[]T, T any](s S) { verifsync.WS(s, 0) }

func startRecording() { verifsync.StartRecording() }

var siteNames []string

func loadSites(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal(err)
	}
	if err := json.Unmarshal(b, &siteNames); err != nil {
		fatal(err)
	}
	siteNames[0] = "the caller"
}

type span struct {
	p unsafe.Pointer
	n uintptr
}

// takeRecording reduces the recorded events to those that can take part in a
// race: cells that several threads touch and at least one writes, and locks.
func takeRecording(threads int) (M, bool) {
	verifsync.Recording = false
	evs := verifsync.Events
	if verifsync.Overflow {
		return nil, false
	}
	// elementary cells: between the boundaries of all spans
	isAcc := func(e verifsync.Event) bool { return e.Kind == verifsync.Read || e.Kind == verifsync.Write }
	spans := map[span]bool{}
	bset := map[uintptr]bool{}
	for _, e := range evs {
		if isAcc(e) && !spans[span{e.P, e.Size}] {
			spans[span{e.P, e.Size}] = true
			bset[uintptr(e.P)] = true
			bset[uintptr(e.P)+e.Size] = true
		}
	}
	bounds := make([]uintptr, 0, len(bset))
	for b := range bset {
		bounds = append(bounds, b)
	}
	sort.Slice(bounds, func(i, j int) bool { return bounds[i] < bounds[j] })
	at := map[uintptr]int{}
	for i, b := range bounds {
		at[b] = i
	}
	type use struct{ r, w uint8 }
	uses := make([]use, len(bounds))
	lockUse := map[unsafe.Pointer]uint8{}
	for _, e := range evs {
		if !isAcc(e) {
			lockUse[e.P] |= 1 << e.T
			continue
		}
		for i := at[uintptr(e.P)]; bounds[i] < uintptr(e.P)+e.Size; i++ {
			if e.Kind == verifsync.Write {
				uses[i].w |= 1 << e.T
			} else {
				uses[i].r |= 1 << e.T
			}
		}
	}
	several := func(x uint8) bool { return x&(x-1) != 0 }
	cells := map[int]int{}
	locks := map[unsafe.Pointer]int{}
	out := []M{}
	sites := map[int]map[string]bool{}
	var cur M
	var rs, ws map[int]bool
	flush := func() {
		if cur == nil {
			return
		}
		list := func(s map[int]bool) []int {
			l := []int{}
			for c := range s {
				l = append(l, c)
			}
			sort.Ints(l)
			return l
		}
		cur["r"], cur["w"] = list(rs), list(ws)
		out = append(out, cur)
		cur = nil
	}
	names := []string{"", "", "wl", "wu", "rl", "ru"}
	for _, e := range evs {
		if !isAcc(e) {
			if !several(lockUse[e.P]) {
				continue
			}
			flush()
			l, ok := locks[e.P]
			if !ok {
				l = len(locks) + 1
				locks[e.P] = l
			}
			out = append(out, M{"t": e.T, "k": names[e.Kind], "l": l})
			continue
		}
		for i := at[uintptr(e.P)]; bounds[i] < uintptr(e.P)+e.Size; i++ {
			u := uses[i]
			if u.w == 0 || !several(u.r|u.w) {
				continue
			}
			if cur != nil && cur["t"] != e.T {
				flush()
			}
			if cur == nil {
				cur = M{"t": e.T, "k": "acc"}
				rs, ws = map[int]bool{}, map[int]bool{}
			}
			c, ok := cells[i]
			if !ok {
				c = len(cells) + 1
				cells[i] = c
			}
			if e.Kind == verifsync.Write {
				ws[c] = true
			} else {
				rs[c] = true
			}
			if sites[c] == nil {
				sites[c] = map[string]bool{}
			}
			what := " reads"
			if e.Kind == verifsync.Write {
				what = " writes"
			}
			if e.Site < len(siteNames) {
				sites[c][siteNames[e.Site]+what] = true
			}
		}
	}
	flush()
	where := [][]string{}
	for c := 1; c <= len(cells); c++ {
		l := []string{}
		for s := range sites[c] {
			l = append(l, s)
		}
		sort.Strings(l)
		if len(l) > 12 {
			l = l[:12]
		}
		where = append(where, l)
	}
	verifsync.Events = verifsync.Events[:0]
	return M{"op": "acc", "threads": threads, "locks": len(locks), "cells": len(cells), "ev": out, "where": where}, true
}
