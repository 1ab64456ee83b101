//go:build !race

package vsched

// Race tells whether this build detects races.
const Race = false

// Races counts the races found so far.
func Races() int { return 0 }
