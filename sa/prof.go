package main

import (
	"os"
	"runtime/pprof"
)

func startProf() func() {
	p := os.Getenv("SA_PROF")
	if p == "" {
		return func() {}
	}
	f, _ := os.Create(p)
	pprof.StartCPUProfile(f)
	return func() { pprof.StopCPUProfile(); f.Close() }
}

func debugOn() bool { return os.Getenv("SA_DEBUG") != "" }
