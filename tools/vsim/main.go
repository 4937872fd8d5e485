package main

import (
	"fmt"
	"os"
)

const usage = "usage: vsim build [race] | check PROPERTY [quick|thorough] | replay FILE"

func main() {
	p := getPaths()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, usage)
		os.Exit(2)
	}
	switch os.Args[1] {
	case "build":
		race := len(os.Args) > 2 && os.Args[2] == "race"
		bin, dig, err := build(p, race)
		if err != nil {
			fmt.Fprintln(os.Stderr, "vsim:", err)
			os.Exit(2)
		}
		fmt.Println(bin, dig)
	case "check":
		if len(os.Args) < 3 {
			fmt.Fprintln(os.Stderr, usage)
			os.Exit(2)
		}
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(check(p, os.Args[2], tier))
	case "replay":
		if len(os.Args) < 3 {
			fmt.Fprintln(os.Stderr, usage)
			os.Exit(2)
		}
		os.Exit(replay(p, os.Args[2]))
	default:
		fmt.Fprintln(os.Stderr, usage)
		os.Exit(2)
	}
}
