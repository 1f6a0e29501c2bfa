// Package sruntime replaces scheduling-related functions of package runtime.
package sruntime

import "verif.local/vsim/core"

func Gosched()                        { core.Gosched() }
func NumGoroutine() int               { return core.NumG() }
func GOMAXPROCS(int) int              { return core.Procs() }
func NumCPU() int                     { return core.Procs() }
func GC()                             { core.Yield() }
func SetFinalizer(obj, f interface{}) {}
