// Command verifsa decides semantic properties of arr-ai/frozen by static
// analysis of its current source.
package main

import (
	"fmt"
	"os"
	"runtime/debug"
)

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verifsa check -prop ID -tier quick|thorough")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(os.Args[2:]))
	case "ai":
		aiDebug(os.Args[2:])
	default:
		debugCmd(os.Args[1:])
	}
}
