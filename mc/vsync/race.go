//go:build race

package vsync

import (
	"runtime"
	"unsafe"
)

func raceDisable()                      { runtime.RaceDisable() }
func raceEnable()                       { runtime.RaceEnable() }
func raceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceRead(p unsafe.Pointer)         { runtime.RaceRead(p) }
func raceWrite(p unsafe.Pointer)        { runtime.RaceWrite(p) }
