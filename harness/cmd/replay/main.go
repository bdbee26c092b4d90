//go:build goexperiment.synctest

// Command replay runs one harness natively on the inputs of a counterexample.
package main

import (
	"fmt"
	"os"
	"testing/synctest"

	"harness/sym"
)

func main() {
	sym.Load(os.Args[2])
	sym.Wait = synctest.Wait
	target := targets[os.Args[1]]
	synctest.Run(func() {
		target()
		fmt.Println("no violation on this input")
		os.Exit(0)
	})
}
