package main

import (
	"os"

	p0 "github.com/bwesterb/go-xmssmt/p0"
	p1 "github.com/bwesterb/go-xmssmt/p1"
	p2 "github.com/bwesterb/go-xmssmt/p2"
	"github.com/bwesterb/go-xmssmt/zsim/h"
	"github.com/bwesterb/go-xmssmt/zsim/simapi"
)

func main() {
	h.Libs = []simapi.Lib{p0.ZLib, p1.ZLib, p2.ZLib}
	os.Exit(h.Main(os.Args[1:]))
}
