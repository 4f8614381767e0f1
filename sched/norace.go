//go:build !race && go1.21

package zzsched

import "unsafe"

const RaceEnabled = false

func raceOff()                      {}
func raceOn()                       {}
func raceAcquire(unsafe.Pointer)    {}
func raceRelease(unsafe.Pointer)    {}
func raceReleaseOne(unsafe.Pointer) {}
func raceErrors() int               { return 0 }
