//go:build race && go1.21

package zzsched

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

func raceOff()                        { runtime.RaceDisable() }
func raceOn()                         { runtime.RaceEnable() }
func raceAcquire(p unsafe.Pointer)    { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer)    { runtime.RaceReleaseMerge(p) }
func raceReleaseOne(p unsafe.Pointer) { runtime.RaceRelease(p) }
func raceErrors() int                 { return runtime.RaceErrors() }
