//go:build faketime

package main

import "runtime/debug"

// With the virtual clock the garbage collector can hang: it waits for other
// processors with timeouts that never expire. Workloads are small enough to do
// without.
func init() { debug.SetGCPercent(-1) }
