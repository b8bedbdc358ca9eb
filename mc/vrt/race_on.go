//go:build race

package vrt

import (
	"runtime"
	"unsafe"
)

const Race = true

func raceDisable()                      { runtime.RaceDisable() }
func raceEnable()                       { runtime.RaceEnable() }
func RaceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceReadAddr(p unsafe.Pointer)     { runtime.RaceRead(p) }
func RaceWriteAddr(p unsafe.Pointer)    { runtime.RaceWrite(p) }
func RaceReadBuf(b []byte) {
	if len(b) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&b[0]), len(b))
	}
}
func RaceWriteBuf(b []byte) {
	if len(b) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&b[0]), len(b))
	}
}
func RaceErrors() int { return runtime.RaceErrors() }
