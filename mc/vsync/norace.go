//go:build !race

package vsync

import "unsafe"

func raceDisable()                    {}
func raceEnable()                     {}
func raceAcquire(unsafe.Pointer)      {}
func raceRelease(unsafe.Pointer)      {}
func raceReleaseMerge(unsafe.Pointer) {}
func raceRead(unsafe.Pointer)         {}
func raceWrite(unsafe.Pointer)        {}
