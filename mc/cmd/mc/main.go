// Command mc holds the scenarios that drive the sequential behaviour of the
// encoder through its public API.
package main

import (
	"os"

	"verifmc/drive"
)

func main() {
	if len(os.Args) == 6 && os.Args[1] == "hist" {
		os.Exit(histMain(os.Args[2:]))
	}
	drive.Main()
}
