//go:build !verif

package main

// Without the hook in /repo (check.sh falls back to this if the hook no longer
// compiles), spilling happens only in the suites that write enough for it.
func setSpillLimit(n int) int { return 1 << 23 }
