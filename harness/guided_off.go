//go:build !guided

package main

// edgeCounters: nothing is instrumented in this build.
func edgeCounters() []byte { return nil }
