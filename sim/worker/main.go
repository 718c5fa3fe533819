// Command worker executes scenarios of the library properties in the simulator.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"

	"verif.local/sim/gen"
	"verif.local/sim/plan"
)

func scenarioSeed(seed uint64, prop string, index int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, prop, index)
	return h.Sum64()
}

func generate(prop string, seed uint64, index int, thorough bool) *plan.Scenario {
	r := gen.NewRand(scenarioSeed(seed, prop, index))
	resetPools("", 0)
	sc := properties[prop].make(r, thorough)
	sc.Prop, sc.Index = prop, index
	switch prop {
	case "P09", "P10":
	default:
		sc.Debug = gen.NewRand(scenarioSeed(seed, prop+"/debug", index)).P(8)
	}
	return sc
}

func collect() {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.HeapAlloc > 128<<20 {
		runtime.GC()
	}
}

func main() {
	debug.SetGCPercent(-1)
	debug.SetMaxStack(64 << 20)
	debug.SetMemoryLimit(1500 << 20)
	if r := os.Getenv("SIM_REPO"); r != "" {
		gen.Repo = r
	}
	gen.LoadCorpus()
	w := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(w)
	fail := func(err error) {
		fmt.Fprintln(os.Stderr, "worker:", err)
		os.Exit(3)
	}
	switch os.Args[1] {
	case "batch", "gen":
		// worker batch PROP SEED FROM TO TIER
		prop := os.Args[2]
		seed, err := strconv.ParseUint(os.Args[3], 10, 64)
		if err != nil {
			fail(err)
		}
		from, _ := strconv.Atoi(os.Args[4])
		to, _ := strconv.Atoi(os.Args[5])
		thorough := os.Args[6] == "thorough"
		for i := from; i < to; i++ {
			fmt.Fprintf(w, "B %d\n", i)
			w.Flush()
			sc := generate(prop, seed, i, thorough)
			if os.Args[1] == "gen" {
				enc.Encode(sc)
				continue
			}
			o := evaluate(sc)
			o.Index = i
			if o.V != nil || i == from {
				o.Scen = sc
			}
			if o.V == nil {
				o.Points = nil
			}
			if err := enc.Encode(o); err != nil {
				fail(err)
			}
			collect()
		}
	case "fresh":
		if err := freshMain(); err != nil {
			fail(err)
		}
	case "one":
		// scenarios on stdin, judged one after the other
		dec := json.NewDecoder(bufio.NewReader(os.Stdin))
		for {
			var sc plan.Scenario
			if err := dec.Decode(&sc); err != nil {
				if err.Error() == "EOF" {
					break
				}
				fail(err)
			}
			fmt.Fprintf(w, "B %d\n", sc.Index)
			w.Flush()
			if properties[sc.Prop] == nil {
				fail(fmt.Errorf("unknown property %q", sc.Prop))
			}
			o := evaluate(&sc)
			if err := enc.Encode(o); err != nil {
				fail(err)
			}
			w.Flush()
			collect()
		}
	default:
		fail(fmt.Errorf("unknown mode %s", os.Args[1]))
	}
	w.Flush()
	os.Exit(0)
}
