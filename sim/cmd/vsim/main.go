// Command vsim runs the simulation checks.
//
//	vsim check  -prop C01 -tier quick     decide a property (driver)
//	vsim worker ...                       explore seeds (child)
//	vsim one    ...                       run one seed or one replay file (child)
//	vsim replay FILE                      replay a violation file
//	vsim det    -prop C01 -n 200          determinism self-check (child output)
package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim check|worker|one|replay|det")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "worker":
		os.Exit(cmdWorker(os.Args[2:]))
	case "one":
		os.Exit(cmdOne(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "survey":
		os.Exit(cmdSurvey(os.Args[2:]))
	case "det":
		os.Exit(cmdDet(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "vsim: unknown mode", os.Args[1])
	os.Exit(2)
}
