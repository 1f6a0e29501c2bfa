//go:build !race

package core

import "unsafe"

const RaceEnabled = false

func raceDisable()                      {}
func raceEnable()                       {}
func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
func RaceRead(p unsafe.Pointer)         {}
func RaceWrite(p unsafe.Pointer)        {}
func RaceErrors() int                   { return 0 }
