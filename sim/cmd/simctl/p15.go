package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"

	"verif.local/sim/build"
	"verif.local/sim/gen"
	"verif.local/sim/plan"
	"verif.local/sim/scen"
)

// regRunner runs histories of registrations and opens, each in a process of its own.
type regRunner struct {
	id, dir string
	bins    map[string]string
}

func newReg(id string) runner {
	return &regRunner{id: id, dir: runnerDir(id), bins: map[string]string{}}
}

func (t *regRunner) build() error {
	for _, tool := range []string{"stubs", "full"} {
		b, err := build.Build(build.Config{Repo: repo, Sim: filepath.Join(root, "sim"), Dir: t.dir, Tool: tool})
		if err != nil {
			return err
		}
		t.bins[tool] = b.Path
	}
	return nil
}

func (t *regRunner) describe() (real, stub []string) {
	return []string{"github.com/pbnjay/grate (registry, detection, error wrapping), and in half of the scenarios the built-in formats, compiled from the current tree"},
		[]string{"registered formats which accept, decline or fail as the scenario says", "system calls on files (simulated kernel)", "clock, runtime randomness"}
}

var declines = []string{"decline", "decline", "wrap", "wrap2", "wraperr", "wraperr1", "wraperrfirst", "wraperr3", "wrapwraperr", "wraperrwrap", "join", "is", "unwrap", "declineslice"}
var failures = []string{"error", "error", "errorwrap", "errorwraperr", "eof", "unknown", "unknownwrap", "otheris", "lookalike", "mention", "slice", "path", "scantype"}

func (t *regRunner) generate(index int) *plan.Scenario {
	r := (&toolRunner{id: t.id}).scenarioRand(index)
	sc := &plan.Scenario{Prop: t.id, Index: index, Tool: r.Pick("stubs", "stubs", "full"), Seed: r.U64()>>16 | 1}
	if r.P(6) {
		sc.Mode = "debug"
	}
	if sc.Tool == "full" {
		for k := r.Range(1, 3); k > 0; k-- {
			f := gen.RandFile(r, fmt.Sprintf("in/f%d~", k), gen.Tiny, "xls", "xlsx", "tsv", "csv")
			f.Path = fmt.Sprintf("in/f%d.%s", k, f.Kind)
			if r.P(5) {
				f.Path = fmt.Sprintf("in/f%d", k) + gen.OddExt(r)
			}
			if r.P(3) {
				gen.AddDamage(r, &f)
			}
			if r.P(8) {
				f = gen.FileSpec{Path: f.Path, Kind: "raw", Raw: []byte(r.Pick("", "one line\n", "a\tb\nc\td\n", "a,b\n1,2\n", "\x00\x01", "PK\x03\x04", "\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1"))}
			}
			if f.Check() != nil {
				f.Damage = nil
				if f.Text != nil {
					f.Text.NoFinal = false
				}
			}
			sc.Files = append(sc.Files, f)
		}
		if r.P(4) {
			sc.Kern.Faults = append(sc.Kern.Faults, scen.Fault{Op: r.Pick("open", "read", "pread", "fstat", "seek"), Path: sc.Files[0].Path, Kind: r.Pick("EIO", "EACCES"), Count: -1})
		}
	}
	opens := r.Range(1, 6)
	n := r.PickInt(0, 1, 2, 3, 3, 4, 5, 6, 8, 12, 16, 30)
	fewer := r.PickInt(3, 8, 20) // how rarely a format does not decline
	span := r.PickInt(3, 10, 20, 1000)
	for i := 0; i < n; i++ {
		g := plan.Registration{Name: fmt.Sprintf("fmt%d", i), Prio: r.Intn(span)}
		if r.P(6) {
			g.Prio = -r.Intn(span)
		}
		if r.P(10) {
			g.Prio = r.PickInt(1<<31-1, -1<<31, 1<<40, -1<<40)
		}
		if r.P(15) && i > 0 {
			g.Name = sc.Set[i-1].Name
		}
		if r.P(3) {
			g.After = r.Intn(opens)
		}
		var a []string
		for k := r.PickInt(1, 1, 2, 3); k > 0; k-- {
			switch {
			case !r.P(fewer):
				a = append(a, declines[r.Intn(len(declines))])
			case r.P(2):
				a = append(a, "accept")
			default:
				a = append(a, failures[r.Intn(len(failures))])
			}
		}
		g.Answer = strings.Join(a, ",")
		sc.Set = append(sc.Set, g)
	}
	var ops []plan.Op
	for i := 0; i < opens; i++ {
		ops = append(ops, plan.Op{Op: "open", File: r.Intn(len(sc.Files) + 1)})
	}
	sc.Tasks = [][]plan.Op{ops}
	return sc
}

func (t *regRunner) one(sc *plan.Scenario) (*plan.Outcome, error) {
	bin := t.bins[sc.Tool]
	if bin == "" {
		return &plan.Outcome{Invalid: "tool"}, nil
	}
	b, err := json.Marshal(sc)
	if err != nil {
		return nil, err
	}
	var o *plan.Outcome
	text, err, slow := runProcess(bin, nil, append(b, '\n'), childEnv(), quietTime, func(line []byte) {
		x := &plan.Outcome{}
		if json.Unmarshal(line, x) == nil {
			o = x
		}
	})
	if err != nil || slow {
		if strings.HasPrefix(text, "worker:") {
			return nil, fmt.Errorf("%s", text)
		}
		return nil, &crash{index: sc.Index, text: firstLines(text), slow: slow}
	}
	if o == nil {
		return nil, fmt.Errorf("no outcome")
	}
	return o, nil
}

func (t *regRunner) prefix(from, index int) (*plan.Outcome, error) { return t.one(t.generate(index)) }

func (t *regRunner) batch(from, to int) ([]*plan.Outcome, error) {
	var outs []*plan.Outcome
	for i := from; i < to; i++ {
		sc := t.generate(i)
		o, err := t.one(sc)
		if err != nil {
			if c, ok := err.(*crash); ok {
				c.done = outs
			}
			return outs, err
		}
		if o.V != nil || i == from {
			o.Scen = sc
		}
		outs = append(outs, o)
	}
	return outs, nil
}
