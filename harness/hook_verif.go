//go:build verif

package main

import "github.com/google/codesearch/index"

// setSpillLimit sets the number of entries a new index writer holds in memory
// before it spills them, and returns the previous number.
func setSpillLimit(n int) int { return index.VerifSetSpillLimit(n) }
