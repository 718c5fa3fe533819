package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/sim/build"
	"verif.local/sim/gen"
	"verif.local/sim/plan"
	"verif.local/sim/scen"
)

// toolRunner runs the command-line tools: every execution is a fresh process
// with its own simulated disk; scenarios are generated and judged here.
type toolRunner struct {
	id    string
	dir   string
	tools []string
	races bool
	bins  map[string]string
	mu    sync.Mutex
	logN  int
}

func newTool(races bool, tools ...string) func(id string) runner {
	return func(id string) runner {
		return &toolRunner{id: id, dir: runnerDir(id), tools: tools, races: races, bins: map[string]string{}}
	}
}

func (t *toolRunner) build() error {
	for _, tool := range t.tools {
		cfg := build.Config{Repo: repo, Sim: filepath.Join(root, "sim"), Dir: t.dir, Tool: tool}
		b, err := build.Build(cfg)
		if err != nil {
			return err
		}
		t.bins[tool] = b.Path
		if t.races {
			cfg.Race = true
			if b, err = build.Build(cfg); err != nil {
				return err
			}
			t.bins[tool+".race"] = b.Path
		}
	}
	return nil
}

func (t *toolRunner) describe() (real, stub []string) {
	real = []string{"the tools' main packages (" + strings.Join(t.tools, ", ") + ") and every package of the repository they use, compiled from the current tree; yield points inserted by rewriting", "Go standard library: flag, fmt, log, bufio, os, io, regexp, archive/zip, encoding"}
	stub = []string{"system calls on files (simulated disk: files, descriptors, faults, capacity, partial and interrupted transfers, death of the process)", "clock", "goroutine scheduling, channels and sync primitives of the repository (seeded scheduler, one task at a time)", "number of processors", "runtime randomness (map order, hash seeds, math/rand)"}
	if t.races {
		real = append(real, "Go race detector in a part of the runs")
	}
	return
}

const (
	toolSteps  = 20_000_000 // of one run
	aloneSteps = 6_000_000  // of a damaged input alone
	toolOut    = 256 << 20  // bytes written
	aloneOut   = 8 << 20
)

// exec performs one execution.
func (t *toolRunner) exec(in *plan.ToolIn) (*plan.ToolOut, error) {
	name := in.Tool
	race := in.Run.Race && t.races
	if race {
		name += ".race"
	}
	bin := t.bins[name]
	if bin == "" {
		return nil, fmt.Errorf("no tool %q", name)
	}
	env, log := childEnv(), ""
	if race {
		t.mu.Lock()
		t.logN++
		log = filepath.Join(t.dir, fmt.Sprintf("race.%d", t.logN))
		t.mu.Unlock()
		env = childEnv("GORACE=atexit_sleep_ms=0 halt_on_error=0 exitcode=0 log_path=" + log)
	}
	b, err := json.Marshal(in)
	if err != nil {
		return nil, err
	}
	if d := os.Getenv("SIM_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s.%d", d, time.Now().UnixNano()), b, 0644)
	}
	var out *plan.ToolOut
	var bad error
	text, err, slow := runProcess(bin, nil, append(b, '\n'), env, quietTime, func(line []byte) {
		o := &plan.ToolOut{}
		if e := json.Unmarshal(line, o); e != nil {
			bad = fmt.Errorf("unreadable answer of a tool process: %v", e)
			return
		}
		out = o
	})
	if log != "" {
		m, _ := filepath.Glob(log + ".*")
		for _, f := range m {
			if b, e := os.ReadFile(f); e == nil && out != nil && out.Races > 0 {
				out.Res.Panic = raceText(string(b))
			}
			os.Remove(f)
		}
	}
	if err != nil || slow {
		if strings.HasPrefix(text, "worker:") {
			return nil, fmt.Errorf("%s", text)
		}
		return nil, &crash{text: firstLines(text), slow: slow}
	}
	if bad == nil && out == nil {
		bad = fmt.Errorf("a tool process said nothing")
	}
	return out, bad
}

// job is one scenario being judged.
type job struct {
	t      *toolRunner
	sc     *plan.Scenario
	o      *plan.Outcome
	files  []plan.ToolFile
	specs  map[string]*gen.FileSpec // by path
	solos  map[string]*solo
	points bool           // collect
	pts    [][]scen.Point // the schedules taken
}

func viol(class, format string, args ...any) *plan.Violation {
	m := fmt.Sprintf(format, args...)
	if len(m) > 1500 {
		m = m[:1500] + "..."
	}
	return &plan.Violation{Class: class, Msg: m}
}

func (j *job) exec(tool string, run plan.ToolRun, files []plan.ToolFile) (*plan.ToolOut, error) {
	if run.Sched.Cap == 0 || run.Sched.Cap > toolSteps {
		run.Sched.Cap = toolSteps
	}
	if run.Kern.MaxOut <= 0 || run.Kern.MaxOut > toolOut {
		run.Kern.MaxOut = toolOut
	}
	if len(run.Sched.Points) > 0 && !run.Sched.Replay {
		run.Sched.Points = nil
	}
	out, err := j.t.exec(&plan.ToolIn{Tool: tool, Files: files, Run: run, Pool: j.sc.Pool, Sched: j.points})
	if err != nil {
		return nil, err
	}
	o := j.o
	o.Runs++
	o.Steps += out.Res.Steps
	o.SimNS += out.Clock
	o.Sys += out.Sys
	o.Sw += out.Res.Switches
	o.Status = out.Res.Status
	o.Inter = o.Inter*31 + out.Res.Hash
	for k, v := range out.Faults {
		o.Faults[k] += v
	}
	h := fnv.New64a()
	for _, f := range out.Files {
		h.Write([]byte(f.Path))
		h.Write(f.Data)
		h.Write([]byte{0})
	}
	h.Write(out.Stdout)
	h.Write([]byte(out.Res.Status))
	o.Digest = o.Digest*31 + h.Sum64()
	o.Key = o.Key*31 + (out.IOHash ^ h.Sum64() ^ out.Res.Hash*7)
	return out, nil
}

// crashed reports an execution which did not run to its end.
func crashed(what string, out *plan.ToolOut) *plan.Violation {
	switch out.Res.Status {
	case "ok", "exit":
		if out.Races > 0 {
			return viol("data race", "%s", out.Res.Panic)
		}
		return nil
	case "hang":
		return viol("hang", "%s does not terminate (%d steps)", what, out.Res.Steps)
	case "deadlock":
		return viol("deadlock", "%s blocks for ever: %s", what, out.Res.Waiting)
	case "panic":
		return viol("panic", "%s panics: %s", what, firstLines(out.Res.Panic))
	}
	return viol(out.Res.Status, "%s ends as %q", what, out.Res.Status)
}

// solo is the conversion of one input alone.
type solo struct {
	out    *plan.ToolOut
	header string
	recs   []string          // status lines behind the file name
	files  map[string][]byte // output
}

// split an argument list
func parseArgs(args []string) (flags, fns []string) {
	for i, a := range args {
		if !strings.HasPrefix(a, "-") {
			return args[:i], args[i:]
		}
	}
	return args, nil
}

func flagValue(flags []string, name, def string) string {
	for _, f := range flags {
		if v, ok := strings.CutPrefix(f, "-"+name+"="); ok {
			def = v
		} else if f == "-"+name {
			def = "true"
		}
	}
	return def
}

func baseOf(fn string) string {
	return filepath.Base(strings.TrimSuffix(fn, filepath.Ext(fn)))
}

var allowedFlag = regexp.MustCompile(`^-(p|v|[rwb]=false|i=[a-z]+\.txt|l=[a-z]+\.log)$`)

// shape checks that the scenario is within the property's conditions.
func (j *job) shape() error {
	sc := j.sc
	if len(sc.Runs) == 0 || len(sc.Tasks) > 0 {
		return fmt.Errorf("runs")
	}
	if j.t.bins[sc.Tool] == "" {
		return fmt.Errorf("tool")
	}
	j.specs = map[string]*gen.FileSpec{}
	j.solos = map[string]*solo{}
	for i := range sc.Files {
		f := &sc.Files[i]
		if strings.HasPrefix(f.Path, "results") || strings.ContainsAny(f.Path, "\t\n") {
			return fmt.Errorf("input path")
		}
		b, err := f.Bytes()
		if err != nil {
			return err
		}
		j.specs[f.Path] = f
		j.files = append(j.files, plan.ToolFile{Path: f.Path, Data: b})
	}
	for i := range sc.Runs {
		flags, fns := parseArgs(sc.Runs[i].Args)
		for _, f := range flags {
			if !allowedFlag.MatchString(f) {
				return fmt.Errorf("flag")
			}
		}
		if sc.Tool == "grater" && (len(fns) == 0 || len(flags) > 1 || len(flags) == 1 && flags[0] != "-v") {
			return fmt.Errorf("arguments")
		}
		seen := map[string]bool{}
		for _, fn := range fns {
			if fn == "" || seen[baseOf(fn)] || strings.ContainsAny(fn, "\t\n") || strings.HasPrefix(fn, "-") || filepath.Clean(fn) != fn {
				return fmt.Errorf("file names")
			}
			seen[baseOf(fn)] = true
		}
		if sc.Tool == "grate2tsv" {
			for _, fn := range fns {
				if f := j.specs[fn]; f != nil && f.Kind != "corpus" && !f.Damaged() {
					names := map[string]bool{}
					for k := range f.Sheets {
						n := sanitize.ReplaceAllString(f.Sheets[k].Name, "_")
						if names[n] {
							return fmt.Errorf("tables with one output name")
						}
						names[n] = true
					}
				}
			}
		}
	}
	return nil
}

var sanitize = regexp.MustCompile("[^a-zA-Z0-9]+")
var stamp = regexp.MustCompile(`(?m)^\d\d\d\d-\d\d-\d\d \d\d:\d\d:\d\d\t`)

// records splits the status file: what stands before the first line with a
// time, and those lines without time and end of line.
func records(b []byte) (head string, recs []string, open bool) {
	s := string(b)
	at := stamp.FindAllStringIndex(s, -1)
	if len(at) == 0 {
		return s, nil, false
	}
	head = s[:at[0][0]]
	for i, p := range at {
		end := len(s)
		if i+1 < len(at) {
			end = at[i+1][0]
		}
		r := s[p[1]:end]
		if !strings.HasSuffix(r, "\n") {
			open = true
		}
		recs = append(recs, strings.TrimSuffix(r, "\n"))
	}
	return
}

func find(files []plan.ToolFile, p string) []byte {
	for i := range files {
		if files[i].Path == p {
			return files[i].Data
		}
	}
	return nil
}

// outputs are the files which were not there before, but for the status file
// and the log.
func outputs(out *plan.ToolOut, before []plan.ToolFile, info string) map[string][]byte {
	was := map[string]bool{}
	for i := range before {
		was[before[i].Path] = true
	}
	m := map[string][]byte{}
	for i := range out.Files {
		f := &out.Files[i]
		if !f.Dir && f.Path != info && !strings.HasSuffix(f.Path, ".log") && !was[f.Path] {
			m[f.Path] = f.Data
		}
	}
	return m
}

// untouched: the inputs are as they were.
func untouched(before, after []plan.ToolFile) *plan.Violation {
	for i := range before {
		if f := &before[i]; !f.Dir && !bytes.Equal(find(after, f.Path), f.Data) {
			return viol("input changed", "the input %s was changed", f.Path)
		}
	}
	return nil
}

// alone converts one file by itself, undisturbed.
func (j *job) alone(flags []string, fn string) (*solo, *plan.Violation, error) {
	key := j.sc.Tool + "\x00" + strings.Join(flags, "\x00") + "\x00" + fn
	if s := j.solos[key]; s != nil {
		return s, nil, nil
	}
	run := plan.ToolRun{Args: append(append([]string(nil), flags...), fn), CPUs: 2, Seed: 7}
	out, err := j.exec(j.sc.Tool, run, j.files)
	if err != nil {
		return nil, nil, err
	}
	if v := crashed("converting "+fn+" alone", out); v != nil {
		return nil, v, nil
	}
	s := &solo{out: out}
	if j.sc.Tool == "grate2tsv" {
		info := flagValue(flags, "i", "results.txt")
		s.files = outputs(out, j.files, info)
		head, recs, open := records(find(out.Files, info))
		s.header = head
		if open || strings.Count(head, "\n") != 1 {
			return nil, viol("status", "status file of %s alone: %.300q", fn, find(out.Files, info)), nil
		}
		for _, r := range recs {
			rest, ok := strings.CutPrefix(r, fn+"\t")
			if !ok {
				return nil, viol("status", "converting %s alone reports %q", fn, r), nil
			}
			s.recs = append(s.recs, rest)
		}
	}
	j.solos[key] = s
	return s, nil, nil
}

// disk is what the file system holds before the converter is started: the
// inputs, and what an earlier use has left where outputs of these inputs go.
func (j *job) disk(flags, fns []string) ([]plan.ToolFile, *plan.Violation, error) {
	files := append([]plan.ToolFile(nil), j.files...)
	for _, st := range j.sc.Stale {
		if st.Len < 0 || st.Len > 1<<20 || find(files, st.Path) != nil {
			continue
		}
		for _, fn := range fns {
			s, v, err := j.alone(flags, fn)
			if v != nil || err != nil {
				return nil, v, err
			}
			if _, ok := s.files[st.Path]; ok {
				b := make([]byte, st.Len)
				for i := range b {
					b[i] = "left over\n"[i%10]
				}
				files = append(files, plan.ToolFile{Path: st.Path, Data: b})
				j.o.Probes["leftover where an output goes"]++
				break
			}
		}
	}
	return files, nil, nil
}

// randStale leaves something in the place of some outputs of a run.
func randStale(r *gen.Rand, out *plan.ToolOut) (l []plan.Stale) {
	if out == nil {
		return nil
	}
	for i := range out.Files {
		f := &out.Files[i]
		if !f.Dir && strings.HasPrefix(f.Path, "results/") && r.P(2) {
			n := len(f.Data)
			l = append(l, plan.Stale{Path: f.Path, Len: max(0, r.PickInt(0, 1, n/2, n-1, n, n+1, n+100, 2*n+5000))})
		}
	}
	return l
}

// endless: a damaged input, alone, takes longer than the budget (a damaged
// size of a table may ask for billions of blank cells, which is work without
// end for the simulator, but does end).
func (j *job) endless(flags, fns []string) (bool, error) {
	for _, fn := range fns {
		f := j.specs[fn]
		if f == nil || !f.Damaged() {
			continue
		}
		run := plan.ToolRun{Args: append(append([]string(nil), flags...), fn), CPUs: 2, Seed: 7, Sched: scen.Sched{Cap: aloneSteps}, Kern: scen.Kern{MaxOut: aloneOut}}
		out, err := j.exec(j.sc.Tool, run, j.files)
		if err != nil {
			return false, err
		}
		if out.Res.Status == "hang" {
			j.o.Trivial = true
			j.o.Probes["damaged input with an enormous table (not judged)"]++
			return true, nil
		}
	}
	return false, nil
}

// outName finds the output file of a table.
func (s *solo) outName(fn, table string) string {
	n := sanitize.ReplaceAllString(table, "_")
	if table == fn {
		n = "main"
	}
	suffix := "/" + baseOf(fn) + "." + n + ".tsv"
	for p := range s.files {
		if strings.HasSuffix(p, suffix) {
			return p
		}
	}
	return ""
}

// fields of a status line behind the file name
func fields(rec string) (sheet, rows, cols, e string, ok bool) {
	p := strings.SplitN(rec, "\t", 4)
	if len(p) != 4 {
		return
	}
	return p[0], p[1], p[2], p[3], true
}

var blanks = regexp.MustCompile("[ \n\r\t]+")

// reference compares a file's own conversion with what the file stores.
func (j *job) reference(flags []string, fn string, s *solo) *plan.Violation {
	f := j.specs[fn]
	if f == nil || f.Damaged() {
		return nil
	}
	if f.Kind != "xls" && f.Kind != "xlsx" && f.Kind != "tsv" {
		return nil
	}
	var want []gen.Table
	for _, t := range f.Expect() {
		if !t.Hidden {
			want = append(want, t)
		}
	}
	if j.sc.Tool == "grater" {
		var w []string
		for _, t := range want {
			w = append(w, normLines(joinRows(t.Rows))...)
		}
		if d := sameLines(normLines(string(s.out.Stdout)), w); d != "" {
			return viol("content", "%s alone: %s", fn, d)
		}
		return nil
	}
	if len(s.recs) != len(want) {
		return viol("content", "%s alone: %d status lines for %d tables: %.500q", fn, len(s.recs), len(want), s.recs)
	}
	squeeze, trim := flagValue(flags, "r", "true") == "true", flagValue(flags, "w", "true") == "true"
	skip := flagValue(flags, "b", "true") == "true"
	for i, t := range want {
		sheet, rows, _, e, ok := fields(s.recs[i])
		if !ok || sheet != t.Name {
			return viol("content", "%s alone: status line %q instead of one for table %q", fn, s.recs[i], t.Name)
		}
		if e != "-" {
			return viol("content", "%s alone: table %q is reported with %q", fn, t.Name, e)
		}
		if flagValue(flags, "p", "") != "" {
			continue
		}
		n := 0 // rows
		var w []string
		for _, r := range t.Rows {
			var c []string
			blank := true
			for _, x := range r {
				if squeeze {
					x = blanks.ReplaceAllString(x, " ")
				}
				if trim {
					x = strings.TrimSpace(x)
				}
				c = append(c, x)
				blank = blank && x == ""
			}
			if !blank {
				n++
				for _, l := range strings.Split(strings.Join(c, "\t"), "\n") {
					if l = strings.TrimRight(l, "\t"); l != "" || skip {
						w = append(w, l)
					}
				}
			}
		}
		p := s.outName(fn, t.Name)
		if p == "" && len(w) > 0 {
			return viol("content", "%s alone: no output for table %q", fn, t.Name)
		}
		var g []string
		for _, l := range strings.Split(string(s.files[p]), "\n") {
			g = append(g, strings.TrimRight(l, "\t"))
		}
		if g[len(g)-1] != "" {
			return viol("content", "%s alone: the last row of table %q is not ended", fn, t.Name)
		}
		g = g[:len(g)-1]
		if !skip {
			all := g
			g = nil
			for _, l := range all {
				if l != "" {
					g = append(g, l)
				}
			}
		}
		if d := sameLines(g, w); d != "" {
			return viol("content", "%s alone: table %q: %s", fn, t.Name, d)
		}
		if skip && rows != strconv.Itoa(n) {
			return viol("content", "%s alone: table %q: %s rows are reported, there are %d", fn, t.Name, rows, n)
		}
	}
	return nil
}

func joinRows(rows [][]string) string {
	var b strings.Builder
	for _, r := range rows {
		b.WriteString(strings.Join(r, "\t"))
		b.WriteByte('\n')
	}
	return b.String()
}

// normLines drops what the tools may or may not print: blank cells at the
// end of a row and blank rows.
func normLines(s string) (l []string) {
	for _, x := range strings.Split(s, "\n") {
		if x = strings.TrimRight(x, "\t\r "); x != "" {
			l = append(l, x)
		}
	}
	return
}

func sameLines(got, want []string) string {
	for i := range got {
		if i >= len(want) {
			return fmt.Sprintf("line %d is too much: %.200q", i, got[i])
		}
		if got[i] != want[i] {
			return fmt.Sprintf("line %d is %.200q, not %.200q", i, got[i], want[i])
		}
	}
	if len(got) < len(want) {
		return fmt.Sprintf("%d lines instead of %d; missing %.200q", len(got), len(want), want[len(got)])
	}
	return ""
}

// grouped sorts status lines by file and checks that they belong together.
func grouped(recs []string, fns []string) (map[string][]string, *plan.Violation) {
	m := map[string][]string{}
	last := ""
	for _, r := range recs {
		fn, rest, _ := strings.Cut(r, "\t")
		known := false
		for _, f := range fns {
			known = known || f == fn
		}
		if !known {
			return nil, viol("status", "a status line belongs to no input: %q", r)
		}
		if fn != last && m[fn] != nil {
			return nil, viol("status order", "the status lines of %s are not together: %.600q", fn, recs)
		}
		m[fn] = append(m[fn], rest)
		last = fn
	}
	return m, nil
}

func sameSet(a, b []string) bool {
	x, y := append([]string(nil), a...), append([]string(nil), b...)
	sort.Strings(x)
	sort.Strings(y)
	return strings.Join(x, "\x00") == strings.Join(y, "\x00")
}

// names lists what is in one but not in the other.
func missing(got, want map[string][]byte) string {
	var l []string
	for p := range want {
		if _, ok := got[p]; !ok {
			l = append(l, "missing "+p)
		}
	}
	for p := range got {
		if _, ok := want[p]; !ok {
			l = append(l, "unexpected "+p)
		}
	}
	sort.Strings(l)
	if len(l) > 4 {
		l = l[:4]
	}
	return strings.Join(l, ", ")
}

// scenarioRand is the generator of one scenario.
func (t *toolRunner) scenarioRand(index int) *gen.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", t.id, seed, index)
	return gen.NewRand(h.Sum64())
}

func (t *toolRunner) generate(index int) *plan.Scenario {
	sc := toolMakers[t.id](t.scenarioRand(index), t)
	sc.Prop, sc.Index = t.id, index
	return sc
}

func (t *toolRunner) prefix(from, index int) (*plan.Outcome, error) { return t.one(t.generate(index)) }

func (t *toolRunner) one(sc *plan.Scenario) (*plan.Outcome, error) {
	o, _, err := t.judge(sc, false)
	return o, err
}

func (t *toolRunner) judge(sc *plan.Scenario, points bool) (o *plan.Outcome, j *job, err error) {
	o = &plan.Outcome{Index: sc.Index, Faults: map[string]int64{}, Probes: map[string]int64{}}
	j = &job{t: t, sc: sc, o: o, points: points}
	if err := sc.Check(); err != nil {
		o.Invalid = err.Error()
		return o, j, nil
	}
	if err := j.shape(); err != nil {
		o.Invalid = err.Error()
		return o, j, nil
	}
	o.V, err = toolChecks[t.id](j)
	if c, ok := err.(*crash); ok {
		c.index = sc.Index
	}
	return o, j, err
}

func (t *toolRunner) batch(from, to int) ([]*plan.Outcome, error) {
	var outs []*plan.Outcome
	for i := from; i < to; i++ {
		sc := t.generate(i)
		o, j, err := t.judge(sc, false)
		if c, ok := err.(*crash); ok {
			c.done = outs
			return outs, c
		}
		if err != nil {
			return outs, err
		}
		if o.V != nil || i == from {
			o.Scen = sc
		}
		if o.V != nil {
			_, j, _ = t.judge(sc, true)
		}
		if o.V != nil && len(j.pts) == len(sc.Runs) {
			p := sc.Clone()
			for k := range p.Runs {
				p.Runs[k].Sched.Replay, p.Runs[k].Sched.Points = true, j.pts[k]
			}
			if o2, _, err := t.judge(p, false); err == nil && o2.V != nil && o2.V.Class == o.V.Class {
				o.Scen = p
			}
		}
		outs = append(outs, o)
	}
	return outs, nil
}
