//go:build !coop

package main

import "k8s.io/apimachinery/pkg/labels"

func callerReadsMap(l labels.Set)         {}
func callerReads[S ~[]T, T any](s S)      {}
func callerOverwrites[S ~[]T, T any](s S) {}
func startRecording()                     {}
func loadSites(path string)               {}
func takeRecording(threads int) (M, bool) { return nil, false }
