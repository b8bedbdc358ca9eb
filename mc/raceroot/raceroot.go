// Package raceroot is the instrumented bottom frame of every thread: the race
// detector's reports drop the last frame of a stack, and need one to drop.
package raceroot

//go:noinline
func Call(f func()) { f() }
