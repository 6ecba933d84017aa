// Command mc18 explores the interleavings of goroutines that encode at the
// same time. It is built with the race detector and with an overlay of the
// package under test whose synchronisation is scheduled by the explorer.
package main

import "verifmc/drive"

func main() { drive.Main() }
