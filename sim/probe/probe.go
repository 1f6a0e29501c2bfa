// Package probe has cells whose accesses are visible to the race detector, so that a check can ask
// whether an operation established a happens-before edge for user data.
package probe

// Cell is plain memory.
type Cell struct{ v int }

// Get reads the cell.
//
//go:noinline
func (c *Cell) Get() int { return c.v }

// Set writes the cell.
//
//go:noinline
func (c *Cell) Set(v int) { c.v = v }
