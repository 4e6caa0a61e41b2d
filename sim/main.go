package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"strconv"
)

const usage = `usage:
  sim patch IN OUT                 prepare the executable (see rt.go)
  sim check PROPERTY TIER VERIFDIR search for violations of a property
  sim replay FILE [v]              repeat a recorded run
  sim seed PROFILE FROM TO [v]     perform the runs of some seeds
  sim worker DIR                   (internal)`

func main() {
	arg := os.Args[1:]
	die := func(v ...any) {
		fmt.Fprintln(os.Stderr, v...)
		os.Exit(3)
	}
	if len(arg) == 0 {
		die(usage)
	}
	if arg[0] == "patch" && len(arg) == 3 {
		if err := patchExecutable(arg[1], arg[2]); err != nil {
			die(err)
		}
		return
	}
	if !rtPatched() {
		die("not patched: run sim patch first")
	}
	switch {
	case arg[0] == "worker" && len(arg) == 2:
		scratchRoot = arg[1]
		initWorld()
		worker()
	case arg[0] == "check" && len(arg) == 4:
		os.Exit(check(arg[1], arg[2], arg[3]))
	case arg[0] == "replay" && len(arg) >= 2:
		os.Exit(replay(arg[1], len(arg) > 2))
	case arg[0] == "seed" && len(arg) >= 4:
		scratchRoot = must(os.MkdirTemp("", "vsim"))
		initWorld()
		if f := os.Getenv("VSIM_PROF"); f != "" {
			_ = pprof.StartCPUProfile(must(os.Create(f)))
			defer pprof.StopCPUProfile()
		}
		code := 0
		a, b := must(strconv.Atoi(arg[2])), must(strconv.Atoi(arg[3]))
		for seed := a; seed <= b; seed++ {
			out := ""
			if d := os.Getenv("VSIM_TRACES"); d != "" {
				out = filepath.Join(d, fmt.Sprintf("%s-%d.trace", arg[1], seed))
			}
			r := runSeed(arg[1], uint64(seed), out, len(arg) > 4)
			fmt.Printf("seed %d %.1fs steps %d txs %d ok %d hash %x: ", seed, float64(r.WallMs)/1e3, r.Steps, r.Counts["txs"], r.Counts["txs executed"], r.Hash)
			switch {
			case r.Internal != "":
				fmt.Println("INTERNAL", r.Internal)
				code = 1
			case r.Violation != nil:
				fmt.Println(named(r.Violation.Error()))
				code = 1
			default:
				fmt.Println("ok")
			}
			if len(arg) > 4 {
				bz, _ := json.Marshal(map[string]any{"faults": r.Faults, "counts": r.Counts, "states": len(r.States)})
				fmt.Println(string(bz))
			}
		}
		os.RemoveAll(scratchRoot)
		if code != 0 {
			pprof.StopCPUProfile()
			os.Exit(code)
		}
	default:
		die(usage)
	}
}
