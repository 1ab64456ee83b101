//go:build race

package vsched

import "runtime"

// Race tells whether this build detects races.
const Race = true

// Races counts the races found so far.
func Races() int { return runtime.RaceErrors() }
