package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/sim/build"
	"verif.local/sim/plan"
)

// libRunner runs library scenarios in worker processes.
type libRunner struct {
	id    string
	dir   string
	plain string
	race  string
	both  bool // half of the batches run in the build with the race detector
	size  int
	raceN int
	mu    sync.Mutex
}

func newLib(both bool) func(id string) runner {
	return func(id string) runner {
		return &libRunner{id: id, dir: runnerDir(id), both: both, size: specs[id].batch}
	}
}

func (l *libRunner) build() error {
	sim := filepath.Join(root, "sim")
	b, err := build.Build(build.Config{Repo: repo, Sim: sim, Dir: l.dir})
	if err != nil {
		return err
	}
	l.plain = b.Path
	if l.both {
		b, err = build.Build(build.Config{Repo: repo, Sim: sim, Dir: l.dir, Race: true})
		if err != nil {
			return err
		}
		l.race = b.Path
	}
	return nil
}

// which binary runs the scenario with this index
func (l *libRunner) bin(race bool) string {
	if race {
		return l.race
	}
	return l.plain
}

func (l *libRunner) raceBatch(index int) bool { return l.both && (index/l.size)%2 == 1 }

func (l *libRunner) env(race bool) ([]string, string) {
	if !race {
		return childEnv(), ""
	}
	l.mu.Lock()
	l.raceN++
	n := l.raceN
	l.mu.Unlock()
	log := filepath.Join(l.dir, fmt.Sprintf("race.%d", n))
	return childEnv("GORACE=atexit_sleep_ms=0 halt_on_error=0 exitcode=0 log_path=" + log), log
}

const quietTime = 150 * time.Second

func (l *libRunner) exec(race bool, args []string, in []byte) ([]*plan.Outcome, error) {
	var outs []*plan.Outcome
	last := -1
	var bad error
	env, log := l.env(race)
	text, err, slow := runProcess(l.bin(race), args, in, env, quietTime, func(line []byte) {
		if len(line) > 2 && line[0] == 'B' && line[1] == ' ' {
			last, _ = strconv.Atoi(string(line[2:]))
			return
		}
		o := &plan.Outcome{}
		if err := json.Unmarshal(line, o); err != nil {
			bad = fmt.Errorf("unreadable outcome: %v", err)
			return
		}
		outs = append(outs, o)
	})
	if log != "" {
		m, _ := filepath.Glob(log + ".*")
		for _, f := range m {
			for _, o := range outs {
				if o.V != nil && o.V.Class == "data race" {
					if b, err := os.ReadFile(f); err == nil {
						o.V.Msg = raceText(string(b))
					}
				}
			}
			os.Remove(f)
		}
	}
	if err != nil || slow {
		if strings.HasPrefix(text, "worker:") {
			return outs, fmt.Errorf("%s", text)
		}
		return outs, &crash{index: last, text: firstLines(text), slow: slow, done: outs}
	}
	if bad != nil {
		return outs, bad
	}
	return outs, nil
}

func firstLines(s string) string {
	lines := strings.Split(s, "\n")
	var keep []string
	for _, l := range lines {
		if l == "" && len(keep) > 8 {
			break
		}
		keep = append(keep, l)
		if len(keep) > 24 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// raceText keeps the two accesses of the first report.
func raceText(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "====") {
			if strings.HasPrefix(t, "====") && len(keep) > 1 {
				break
			}
			continue
		}
		if strings.HasPrefix(t, "Goroutine ") {
			break
		}
		if k := strings.Index(t, " by goroutine"); k > 0 && strings.Contains(t, " at 0x") {
			t = t[:strings.Index(t, " at 0x")]
		} else if k := strings.LastIndex(t, " +0x"); k > 0 {
			t = filepath.Base(t[:k])
		} else if strings.HasPrefix(t, "runtime.") {
			continue
		}
		keep = append(keep, t)
	}
	if len(keep) > 14 {
		keep = keep[:14]
	}
	return strings.Join(keep, "\n")
}

func (l *libRunner) batch(from, to int) ([]*plan.Outcome, error) {
	args := []string{"batch", l.id, strconv.FormatUint(seed, 10), strconv.Itoa(from), strconv.Itoa(to), tier}
	return l.exec(l.raceBatch(from), args, nil)
}

func (l *libRunner) prefix(from, index int) (*plan.Outcome, error) {
	outs, err := l.batch(from, index+1)
	if err != nil {
		return nil, err
	}
	return outs[len(outs)-1], nil
}

func (l *libRunner) generate(index int) *plan.Scenario {
	args := []string{"gen", l.id, strconv.FormatUint(seed, 10), strconv.Itoa(index), strconv.Itoa(index + 1), tier}
	var sc *plan.Scenario
	env, _ := l.env(l.raceBatch(index))
	runProcess(l.bin(l.raceBatch(index)), args, nil, env, quietTime, func(line []byte) {
		if len(line) > 0 && line[0] == '{' {
			var s plan.Scenario
			if json.Unmarshal(line, &s) == nil {
				sc = &s
			}
		}
	})
	return sc
}

func (l *libRunner) one(sc *plan.Scenario) (*plan.Outcome, error) {
	b, err := json.Marshal(sc)
	if err != nil {
		return nil, err
	}
	outs, err := l.exec(sc.Race && l.both, []string{"one"}, append(b, '\n'))
	if err != nil {
		return nil, err
	}
	if len(outs) != 1 {
		return nil, fmt.Errorf("%d outcomes for one scenario", len(outs))
	}
	return outs[0], nil
}

func (l *libRunner) describe() (real, stub []string) {
	real = []string{"github.com/pbnjay/grate and its packages simple, commonxl, xls, xls/cfb, xls/crypto, xlsx (compiled from the current tree; yield points inserted by rewriting)", "Go standard library: os, io, bufio, archive/zip, compress/flate, encoding/xml, encoding/csv, crypto"}
	stub = []string{"system calls on files (simulated kernel: files, descriptors, faults, partial and interrupted transfers)", "clock and sleeping", "goroutine scheduling and sync primitives (seeded scheduler, one task at a time)", "runtime randomness (map order, hash seeds, math/rand)", "sync.Pool recycling order"}
	if l.both {
		real = append(real, "Go race detector on every second batch")
	}
	return
}
