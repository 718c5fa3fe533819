// Command simctl drives the simulated checks: it builds the simulator around
// the repository's current tree, spreads the seeded search over processes,
// minimises and replays what it finds, and writes the evidence.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/sim/gen"
	"verif.local/sim/plan"
)

var (
	root  = "/verif" // where this framework lives
	repo  = "/repo"
	seed  = uint64(1)
	tier  = "quick"
	start = time.Now()
)

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "simctl: "+format+"\n", args...)
	os.Exit(2)
}

// runner executes the scenarios of one property.
type runner interface {
	build() error
	// batch generates and judges scenarios from..to-1
	batch(from, to int) ([]*plan.Outcome, error)
	// one judges an explicit scenario in a fresh process
	one(sc *plan.Scenario) (*plan.Outcome, error)
	describe() (real, stub []string)
}

// crash is the death of a worker: not an outcome by itself.
type crash struct {
	index int // the scenario it was busy with, -1 = none
	text  string
	slow  bool
	done  []*plan.Outcome
}

func (c *crash) Error() string {
	if c.slow {
		return fmt.Sprintf("a simulator process made no progress (scenario %d)", c.index)
	}
	return fmt.Sprintf("a simulator process died (scenario %d): %s", c.index, c.text)
}

type spec struct {
	quick, thorough int // scenarios
	batch           int
	rule            string
	run             func(id string) runner
}

func newRunner(id string) runner { return specs[id].run(id) }

func runnerDir(id string) string { return filepath.Join(root, ".build", id) }

// violation found by the search.
type finding struct {
	o     *plan.Outcome
	from  int // the batch it was found in
	crash string
}

func main() {
	if len(os.Args) < 2 {
		die("usage: simctl check|replay|determinism|gen ...")
	}
	if r := os.Getenv("SIM_ROOT"); r != "" {
		root = r
	}
	if r := os.Getenv("SIM_REPO"); r != "" {
		repo = r
	}
	gen.Repo = repo
	gen.LoadCorpus()
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			die("VERIF_SEED: %v", err)
		}
		seed = v
	}
	if t := os.Getenv("VERIF_TIER"); t != "" {
		tier = t
	}
	if os.Args[1] == "selftest" {
		os.Exit(selftest())
	}
	args := os.Args[2:]
	for len(args) > 1 && strings.HasPrefix(args[0], "-") {
		switch args[0] {
		case "-tier":
			tier = args[1]
		case "-seed":
			seed, _ = strconv.ParseUint(args[1], 10, 64)
		default:
			die("unknown flag %s", args[0])
		}
		args = args[2:]
	}
	if len(args) < 1 {
		die("missing argument")
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(args[0]))
	case "replay":
		os.Exit(replay(args[0]))
	case "determinism":
		n := 400
		if len(args) > 1 {
			n, _ = strconv.Atoi(args[1])
		}
		os.Exit(determinism(args[0], n))
	case "gen":
		from, _ := strconv.Atoi(args[1])
		genOnly(args[0], from)
	default:
		die("unknown command %s", os.Args[1])
	}
}

func check(id string) int {
	sp := specs[id]
	if sp == nil {
		die("unknown property %s", id)
	}
	r := newRunner(id)
	if err := r.build(); err != nil {
		die("cannot build the simulator from %s: %v", repo, err)
	}
	buildTime := time.Since(start)
	total := sp.quick
	guard := 540 * time.Second
	if tier == "thorough" {
		total = sp.thorough
		guard = 3 * time.Hour
	}
	if v := os.Getenv("SIM_COUNT"); v != "" {
		total, _ = strconv.Atoi(v)
	}
	st := newStats(id, sp)
	type job struct{ from, to int }
	jobs := make(chan job)
	var mu sync.Mutex
	var found []finding
	var trouble []error
	var wg sync.WaitGroup
	stop := false
	search := time.Now()
	for w := 0; w < workers(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				mu.Lock()
				s := stop
				mu.Unlock()
				if s {
					continue
				}
				began := time.Now()
				outs, err := r.batch(j.from, j.to)
				mu.Lock()
				if d := time.Since(began); d > slowBatch {
					fmt.Fprintf(os.Stderr, "simctl: scenarios %d to %d took %.1f s\n", j.from, j.to, d.Seconds())
				}
				if err != nil {
					c, ok := err.(*crash)
					if ok {
						outs = c.done
					}
					if ok && !c.slow && c.index >= 0 {
						found = append(found, finding{from: j.from, crash: c.text, o: &plan.Outcome{Index: c.index, V: &plan.Violation{Class: "crash", Msg: c.text}}})
					} else {
						trouble = append(trouble, err)
					}
					stop = true
				}
				for _, o := range outs {
					st.add(o)
					if o.V != nil {
						found = append(found, finding{o: o, from: j.from})
						stop = true
					}
				}
				mu.Unlock()
			}
		}()
	}
	for from := 0; from < total; from += sp.batch {
		mu.Lock()
		s := stop
		mu.Unlock()
		if s {
			break
		}
		if time.Since(search) > guard {
			st.cut = true
			break
		}
		to := from + sp.batch
		if to > total {
			to = total
		}
		jobs <- job{from, to}
	}
	close(jobs)
	wg.Wait()
	st.wall = time.Since(search)
	if len(found) == 0 && len(trouble) > 0 {
		die("%v", trouble[0])
	}
	for _, e := range trouble {
		fmt.Fprintln(os.Stderr, "simctl:", e)
	}
	if st.invalid > 0 {
		die("%d generated scenarios are invalid: %s", st.invalid, st.invalidMsg)
	}
	code := 0
	if len(found) > 0 {
		sort.Slice(found, func(i, j int) bool { return found[i].o.Index < found[j].o.Index })
		code = report(id, r, found)
		st.violations = len(found)
	}
	real, stub := r.describe()
	if err := st.write(buildTime, real, stub); err != nil {
		die("evidence: %v", err)
	}
	fmt.Printf("%s %s seed %d: %d scenarios, %d simulator runs in %.1f s (build %.1f s), %d violations\n", id, tier, seed, st.n, st.runs, st.wall.Seconds(), buildTime.Seconds(), len(found))
	if code == 0 && len(found) > 0 {
		return 2
	}
	return code
}

// slowBatch is how long a batch may take before it is mentioned.
var slowBatch = time.Minute

func init() {
	if d, err := time.ParseDuration(os.Getenv("SIM_SLOW")); err == nil {
		slowBatch = d
	}
}

func workers() int {
	if v, err := strconv.Atoi(os.Getenv("SIM_WORKERS")); err == nil && v > 0 {
		return v
	}
	return 8
}

// replayFile is what a violation leaves behind.
type replayFile struct {
	Property string         `json:"property"`
	Seed     uint64         `json:"seed"`  // VERIF_SEED of the search
	Index    int            `json:"index"` // scenario of the search
	Tier     string         `json:"tier"`
	Class    string         `json:"class"`
	Message  string         `json:"message"`
	Scenario *plan.Scenario `json:"scenario,omitempty"` // the minimised execution
	From     int            `json:"from,omitempty"`     // otherwise: generate From..Index in one process
	Prefix   bool           `json:"prefix,omitempty"`
	Trace    []string       `json:"trace,omitempty"`
}

// report confirms, minimises and prints violations. It returns 1 when at
// least one is confirmed.
func report(id string, r runner, found []finding) int {
	os.MkdirAll(filepath.Join(root, "replays"), 0755)
	confirmed := 0
	classes := map[string]bool{}
	for _, f := range found {
		if classes[f.o.V.Class] {
			continue // one replay per kind of violation is enough
		}
		if len(classes) >= 3 {
			break
		}
		rf := &replayFile{Property: id, Seed: seed, Index: f.o.Index, Tier: tier, Class: f.o.V.Class, Message: f.o.V.Msg}
		sc := f.o.Scen
		if sc == nil {
			sc = generateOne(r, f.o.Index)
		}
		var v *plan.Violation
		if sc != nil {
			if len(f.o.Points) > 0 && len(sc.Runs) == 0 {
				// pin the schedule down
				p := sc.Clone()
				p.Sched.Replay, p.Sched.Points = true, f.o.Points
				if x := verdict(r, p); x != nil && x.Class == f.o.V.Class {
					sc, v = p, x
				}
			}
			if v == nil {
				v = verdict(r, sc)
			}
		}
		if v != nil {
			small, sv := shrink(r, sc, v)
			rf.Scenario, rf.Class, rf.Message = small, sv.Class, sv.Msg
		} else {
			// only with what the process did before
			v = prefixVerdict(r, f.from, f.o.Index)
			if v == nil {
				fmt.Fprintf(os.Stderr, "simctl: scenario %d (%s: %s) did not fail again\n", f.o.Index, f.o.V.Class, f.o.V.Msg)
				continue
			}
			rf.From, rf.Prefix, rf.Class, rf.Message = f.from, true, v.Class, v.Msg
		}
		classes[f.o.V.Class] = true
		path := filepath.Join(root, "replays", fmt.Sprintf("%s-%s-%d.json", id, strings.ReplaceAll(rf.Class, " ", "-"), f.o.Index))
		b, _ := json.MarshalIndent(rf, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
			die("%v", err)
		}
		confirmed++
		fmt.Printf("%s: %s\n", rf.Class, rf.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	}
	if confirmed == 0 {
		die("%d violations were seen and none could be reproduced", len(found))
	}
	return 1
}

// verdict of an explicit scenario in a fresh process; a reproducible crash counts.
func verdict(r runner, sc *plan.Scenario) *plan.Violation {
	if sc.Check() != nil {
		return nil
	}
	o, err := r.one(sc)
	if err != nil {
		if c, ok := err.(*crash); ok && !c.slow && c.index >= 0 {
			return &plan.Violation{Class: "crash", Msg: c.text}
		}
		return nil
	}
	if o.Invalid != "" {
		return nil
	}
	return o.V
}

type prefixRunner interface {
	prefix(from, index int) (*plan.Outcome, error)
	generate(index int) *plan.Scenario
}

func prefixVerdict(r runner, from, index int) *plan.Violation {
	p, ok := r.(prefixRunner)
	if !ok {
		return nil
	}
	o, err := p.prefix(from, index)
	if err != nil {
		if c, ok := err.(*crash); ok && !c.slow && c.index == index {
			return &plan.Violation{Class: "crash", Msg: c.text}
		}
		return nil
	}
	return o.V
}

func generateOne(r runner, index int) *plan.Scenario {
	if p, ok := r.(prefixRunner); ok {
		return p.generate(index)
	}
	return nil
}

func genOnly(id string, index int) {
	r := newRunner(id)
	if err := r.build(); err != nil {
		die("%v", err)
	}
	b, _ := json.MarshalIndent(generateOne(r, index), "", " ")
	fmt.Println(string(b))
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		die("%s: %v", path, err)
	}
	if specs[rf.Property] == nil {
		die("unknown property %q", rf.Property)
	}
	seed, tier = rf.Seed, rf.Tier
	r := newRunner(rf.Property)
	if err := r.build(); err != nil {
		die("cannot build the simulator from %s: %v", repo, err)
	}
	var v *plan.Violation
	if rf.Scenario != nil {
		if err := rf.Scenario.Check(); err != nil {
			die("%v", err)
		}
		o, err := r.one(rf.Scenario)
		if c, ok := err.(*crash); ok && !c.slow && c.index >= 0 {
			v = &plan.Violation{Class: "crash", Msg: c.text}
		} else if err != nil {
			die("%v", err)
		} else {
			v = o.V
		}
	} else {
		v = prefixVerdict(r, rf.From, rf.Index)
	}
	if v == nil {
		fmt.Println("the property holds in this execution")
		return 0
	}
	fmt.Printf("%s: %s\n", v.Class, v.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}

// determinism runs every seed twice in different processes, at different
// batch sizes and worker counts, and compares everything observed.
func determinism(id string, n int) int {
	r := newRunner(id)
	if err := r.build(); err != nil {
		die("%v", err)
	}
	type fp struct {
		key, inter, digest uint64
		steps, sw, sys     int64
		v                  string
	}
	collect := func(size, par int) map[int]fp {
		m := map[int]fp{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan bool, par)
		for from := 0; from < n; from += size {
			from := from
			to := from + size
			if to > n {
				to = n
			}
			sem <- true
			wg.Add(1)
			go func() {
				defer func() { <-sem; wg.Done() }()
				outs, err := r.batch(from, to)
				if err != nil {
					die("%v", err)
				}
				mu.Lock()
				for _, o := range outs {
					f := fp{o.Key, o.Inter, o.Digest, o.Steps, o.Sw, o.Sys, ""}
					if o.V != nil {
						f.v = o.V.Class
					}
					m[o.Index] = f
				}
				mu.Unlock()
			}()
		}
		wg.Wait()
		return m
	}
	size := specs[id].batch
	a := collect(size, 8)
	bad := 0
	for _, c := range [][2]int{{size, 3}, {(size + 6) / 7, 8}} {
		b := collect(c[0], c[1])
		for i := 0; i < n; i++ {
			if a[i] != b[i] {
				if bad < 5 {
					fmt.Printf("%s scenario %d differs: %+v / %+v\n", id, i, a[i], b[i])
				}
				bad++
			}
		}
	}
	fmt.Printf("%s: %d scenarios three times each (batches of %d on 8 and on 3 processes, of %d on 8), %d differences\n", id, n, size, (size+6)/7, bad)
	if bad > 0 {
		return 1
	}
	return 0
}

// selftest builds the simulator and runs a few scenarios twice.
func selftest() int {
	for _, id := range []string{"P01", "P05"} {
		if c := determinism(id, 40); c != 0 {
			return c
		}
	}
	return 0
}

// childEnv is the environment of simulator processes.
func childEnv(extra ...string) []string {
	env := []string{"PATH=/usr/bin:/bin", "HOME=/root", "TZ=UTC", "GOMAXPROCS=1", "LANG=C", "SIM_REPO=" + repo}
	return append(env, extra...)
}

// runProcess feeds a process and collects what it says, watching for progress.
func runProcess(bin string, args []string, in []byte, env []string, quiet time.Duration, line func([]byte)) (stderr string, err error, slow bool) {
	c := exec.Command(bin, args...)
	c.Env = env
	c.Dir = filepath.Dir(bin)
	c.Stdin = bytes.NewReader(in)
	var eb limited
	c.Stderr = &eb
	out, err := c.StdoutPipe()
	if err != nil {
		return "", err, false
	}
	if err := c.Start(); err != nil {
		return "", err, false
	}
	timer := time.AfterFunc(quiet, func() { slow = true; c.Process.Kill() })
	rd := bufio.NewReaderSize(out, 1<<16)
	for {
		l, err := rd.ReadBytes('\n')
		if len(l) > 0 {
			timer.Reset(quiet)
			line(bytes.TrimSpace(l))
		}
		if err != nil {
			break
		}
	}
	err = c.Wait()
	timer.Stop()
	return eb.String(), err, slow
}

type limited struct{ b bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 8000 {
		k := len(p)
		if k > 8000 {
			k = 8000
		}
		l.b.Write(p[:k])
	}
	return len(p), nil
}

func (l *limited) String() string { return l.b.String() }
