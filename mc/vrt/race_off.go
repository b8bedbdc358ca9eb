//go:build !race

package vrt

import "unsafe"

const Race = false

func raceDisable()                    {}
func raceEnable()                     {}
func RaceAcquire(unsafe.Pointer)      {}
func RaceRelease(unsafe.Pointer)      {}
func RaceReleaseMerge(unsafe.Pointer) {}
func RaceReadAddr(unsafe.Pointer)     {}
func RaceWriteAddr(unsafe.Pointer)    {}
func RaceReadBuf([]byte)              {}
func RaceWriteBuf([]byte)             {}
func RaceErrors() int                 { return 0 }
