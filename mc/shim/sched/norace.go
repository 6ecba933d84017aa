//go:build !race

package sched

import "unsafe"

const Race = false

func Acquire(p unsafe.Pointer)   {}
func Release(p unsafe.Pointer)   {}
func RaceRead(p unsafe.Pointer)  {}
func RaceWrite(p unsafe.Pointer) {}
