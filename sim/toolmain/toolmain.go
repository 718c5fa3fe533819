// Package toolmain runs the main function of a command-line tool in the
// simulator: the description of the run is read from standard input, what
// happened is written to standard output.
package toolmain

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"

	"verif.local/sim/plan"
	"verif.local/sim/rt"
	"verif.local/sim/simsync"
)

// Main executes one run.
func Main(original func()) {
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1500 << 20)
	var in plan.ToolIn
	if err := json.NewDecoder(bufio.NewReader(os.Stdin)).Decode(&in); err != nil {
		fmt.Fprintln(os.Stderr, "worker:", err)
		os.Exit(3)
	}
	var files []rt.File
	for _, f := range in.Files {
		files = append(files, rt.File{Path: f.Path, Data: f.Data, Dir: f.Dir})
	}
	os.Args = append([]string{in.Tool}, in.Run.Args...)
	simsync.PoolMode, simsync.PoolSeed = "lifo", in.Run.Seed
	if in.Pool != "" {
		simsync.PoolMode = in.Pool
	}
	rt.SetKernel(in.Run.Kern, files)
	seed := in.Run.Seed
	if seed == 0 {
		seed = 1
	}
	cfg := in.Run.Sched
	if cfg.Cap == 0 {
		cfg.Cap = 2_000_000_000
	}
	runtime.SimNumCPU = in.Run.CPUs
	runtime.SimSeed(seed)
	res := rt.Run(cfg, true, original)
	runtime.SimSeed(1)
	out := plan.ToolOut{Stdout: rt.Stdout(), Stderr: rt.Stderr(), Clock: rt.Clock(), Sys: rt.SysCalls(), IOHash: rt.IOHash(), Faults: rt.FaultCounts(), Failures: rt.Failures(), Ops: rt.OpCounts(), Open: rt.OpenPaths(), Res: res}
	if !in.Sched {
		out.Res.Points = nil
	}
	out.Races = rt.RaceErrors()
	for _, f := range rt.Files() {
		out.Files = append(out.Files, plan.ToolFile{Path: f.Path, Data: f.Data, Dir: f.Dir})
	}
	// not os.Stdout: the run may have ended in the middle of a write to it
	w := bufio.NewWriter(os.NewFile(1, "result"))
	if err := json.NewEncoder(w).Encode(&out); err != nil {
		fmt.Fprintln(os.Stderr, "worker:", err)
		os.Exit(3)
	}
	w.Flush()
	os.Exit(0)
}
