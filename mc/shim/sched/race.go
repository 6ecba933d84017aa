//go:build race

package sched

import (
	"runtime"
	"unsafe"
)

// Race tells if the race detector is built in.
const Race = true

//go:norace
func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func Release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

//go:norace
func RaceRead(p unsafe.Pointer) { runtime.RaceRead(p) }

//go:norace
func RaceWrite(p unsafe.Pointer) { runtime.RaceWrite(p) }
