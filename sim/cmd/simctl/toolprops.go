package main

import (
	"bytes"
	"fmt"
	"path/filepath"
	"strings"

	"verif.local/sim/gen"
	"verif.local/sim/plan"
	"verif.local/sim/scen"
)

var toolMakers = map[string]func(r *gen.Rand, t *toolRunner) *plan.Scenario{"P11": makeP11, "P12": makeP12, "P13": makeP13, "P14": makeP14, "P16": makeP16}
var toolChecks = map[string]func(j *job) (*plan.Violation, error){"P11": checkP11, "P12": checkP12, "P13": checkP13, "P14": checkP14, "P16": checkP16}

// inputs makes n files with distinct bases and, per file, distinct output names.
func inputs(r *gen.Rand, n int, kinds ...string) (fs []gen.FileSpec, fns []string) {
	dirs := []string{"in/", "in/", "in/deep/er/", "", "/data/in/"}
	names := []string{"report", "my file", "v1.2", "größe", "a%sb", "x", "table (1)", "_", "Q3"}
	for i := 0; i < n; i++ {
		size := r.PickInt(gen.Tiny, gen.Tiny, gen.Small, gen.Small, gen.Medium)
		if r.P(120) {
			size = gen.Large
		}
		dir := dirs[r.Intn(len(dirs))]
		base := names[r.Intn(len(names))] + fmt.Sprint(i)
		f := gen.RandFile(r, dir+base+"~", size, kinds...)
		ext := "." + f.Kind
		if r.P(8) {
			ext = r.Pick(gen.OddExt(r), "_tar.gz")
			if ext == "" && strings.Contains(base, ".") {
				ext = ".x"
			}
		}
		f.Path = dir + base + ext
		if f.Text != nil && f.Check() != nil {
			f.Text.NoFinal = false
		}
		seen := map[string]bool{}
		for k := range f.Sheets {
			s := sanitize.ReplaceAllString(f.Sheets[k].Name, "_")
			if seen[s] {
				f.Sheets[k].Name = fmt.Sprintf("u%d", k)
				s = f.Sheets[k].Name
			}
			seen[s] = true
		}
		fs = append(fs, f)
		fns = append(fns, f.Path)
	}
	return
}

// manySheets gives a workbook a lot of small tables.
func manySheets(r *gen.Rand, f *gen.FileSpec, n int) {
	f.Sheets = nil
	for i := 0; i < n; i++ {
		s := gen.Sheet{Name: fmt.Sprintf("many%d", i)}
		for k := 0; k < 3; k++ {
			s.Cells = append(s.Cells, gen.Cell{R: k, C: i % 3, K: "n", N: float64(i*10 + k)})
		}
		f.Sheets = append(f.Sheets, s)
	}
}

func shuffle(r *gen.Rand, l []string) []string {
	var o []string
	for _, i := range r.Perm(len(l)) {
		o = append(o, l[i])
	}
	return o
}

func randSched(r *gen.Rand) scen.Sched {
	s := scen.Sched{Seed: r.U64()>>16 | 1, Mean: int64(r.PickInt(1, 3, 10, 30, 100, 400, 2000))}
	if r.P(3) {
		s.Starve = 1 + r.Intn(6)
	}
	gen.RandStall(r, &s)
	return s
}

func randCPUs(r *gen.Rand) int { return r.PickInt(1, 2, 3, 4, 4, 6, 8, 8, 16, 64) }

func randFlags(r *gen.Rand) (flags []string) {
	if r.P(10) {
		flags = append(flags, "-r=false")
	}
	if r.P(10) {
		flags = append(flags, "-b=false")
	}
	if r.P(12) {
		flags = append(flags, "-w=false")
	}
	if r.P(12) {
		flags = append(flags, "-i=info.txt")
	}
	if r.P(12) {
		flags = append(flags, "-l=work.log")
	}
	return
}

func corpusInput(r *gen.Rand) gen.FileSpec {
	n := r.Pick("basic.xls", "basic.xlsx", "basic.tsv", "basic2.xls", "basic2.xlsx", "multi_test.xls", "multi_test.xlsx", "merged.xls", "merged.xlsx")
	f := gen.FileSpec{Path: "in/" + n, Kind: "corpus", Corpus: n}
	if f.Check() != nil {
		return gen.FileSpec{}
	}
	if _, err := f.Build(); err != nil {
		return gen.FileSpec{}
	}
	return f
}

var allKinds = []string{"xls", "xls", "xlsx", "xlsx", "xlsx", "tsv", "csv"}

// bad adds an input which cannot be converted, and its name.
func bad(r *gen.Rand, fs []gen.FileSpec, i int) ([]gen.FileSpec, string) {
	name := fmt.Sprintf("in/bad%d", i)
	switch r.Intn(6) {
	case 0:
		return fs, name + ".xls" // missing
	case 1:
		f := gen.FileSpec{Path: fmt.Sprintf("dir%d/inside", i), Kind: "raw", Raw: []byte("a\tb\n")}
		return append(fs, f), fmt.Sprintf("dir%d", i) // a directory
	case 2:
		return append(fs, gen.FileSpec{Path: name + ".xlsx", Kind: "raw", Raw: []byte("just one line of text\n")}), name + ".xlsx"
	case 3:
		return append(fs, gen.FileSpec{Path: name + ".bin", Kind: "raw", Raw: []byte{0, 1, 2, 3, 0xff, 0xfe}}), name + ".bin"
	case 4:
		return append(fs, gen.FileSpec{Path: name + ".csv", Kind: "raw"}), name + ".csv" // empty
	}
	f := gen.RandFile(r, name+"~", gen.Tiny, "xls", "xlsx")
	f.Path = name + "." + f.Kind
	for k := r.Range(1, 3); k > 0; k-- {
		gen.AddDamage(r, &f)
	}
	if f.Check() != nil {
		f.Damage = nil
		f.Damage = append(f.Damage, gen.Damage{Op: "trunc", At: 600})
	}
	return append(fs, f), f.Path
}

func makeP11(r *gen.Rand, t *toolRunner) *plan.Scenario {
	sc := &plan.Scenario{Tool: "grate2tsv", Pool: r.Pick("", "lifo", "fifo", "new", "random")}
	n := r.PickInt(1, 2, 2, 3, 3, 4, 4, 5, 6, 8)
	fs, fns := inputs(r, n, allKinds...)
	if r.P(40) {
		// more tables than the cleaner's queue holds
		for i := range fs {
			if fs[i].Kind == "xlsx" {
				manySheets(r, &fs[i], r.Range(40, 70))
				if fs[i].Check() != nil {
					fs[i] = gen.RandFile(r, fs[i].Path, gen.Tiny, "xlsx")
				}
			}
		}
	}
	for k := r.Intn(3); k > 0 && r.P(2); k-- {
		var fn string
		fs, fn = bad(r, fs, k)
		fns = append(fns, fn)
	}
	if f := corpusInput(r); r.P(12) && f.Path != "" {
		fs, fns = append(fs, f), append(fns, f.Path)
	}
	sc.Files = fs
	flags := randFlags(r)
	if r.P(12) {
		flags = append(flags, "-p")
	}
	if r.P(5) && flagValue(flags, "p", "") == "" {
		sc.Stale = randStale(r, t.undisturbed(sc, plan.ToolRun{Args: append(append([]string(nil), flags...), fns...), CPUs: 2, Seed: 7}))
	}
	for k := r.Range(2, 4); k > 0; k-- {
		run := plan.ToolRun{Args: append(append([]string(nil), flags...), shuffle(r, fns)...), CPUs: randCPUs(r), Seed: r.U64()>>16 | 1, Sched: randSched(r)}
		if r.P(3) {
			run.Kern.Delivery.Chunks = []int{r.Range(1, 5000), 0, r.Range(1, 600)}
		}
		if r.P(4) {
			run.Kern.Delivery.Eintr = []int{r.Range(1, 9), r.Range(1, 30)}
		}
		if r.P(8) {
			run.Kern.Faults = append(run.Kern.Faults, scen.Fault{Op: "write", Nth: r.Intn(20), Count: r.Range(1, 4), Kind: "short", Arg: int64(r.Range(1, 300))})
		}
		if r.P(8) {
			run.Kern.Faults = append(run.Kern.Faults, scen.Fault{Op: r.Pick("write", "create", "open"), Nth: r.Intn(12), Count: r.Range(1, 3), Kind: "EINTR"})
		}
		if r.P(6) {
			kind, by := "jump", int64(r.Intn(100000))*1e9
			if r.P(3) {
				kind = "stall"
			} else if r.P(3) {
				by = -by
			}
			run.Kern.Faults = append(run.Kern.Faults, scen.Fault{Op: "any", Nth: r.Intn(60), Kind: kind, Arg: by})
		}
		run.Race = t.races && r.P(7)
		sc.Runs = append(sc.Runs, run)
	}
	return sc
}

// soft: only faults which change nothing.
func soft(k *scen.Kern) bool {
	for _, f := range k.Faults {
		if f.Kind != "short" && f.Kind != "EINTR" && f.Kind != "jump" && f.Kind != "stall" {
			return false
		}
	}
	return k.MaxFDs == 0 && k.DiskFree == 0
}

func checkP11(j *job) (*plan.Violation, error) {
	if big, err := j.endless(parseArgs(j.sc.Runs[0].Args)); big || err != nil {
		return nil, err
	}
	for i := range j.sc.Runs {
		run := &j.sc.Runs[i]
		if !soft(&run.Kern) || run.Sched.Kill != 0 || j.sc.Tool != "grate2tsv" {
			j.o.Invalid = "faults"
			return nil, nil
		}
		flags, fns := parseArgs(run.Args)
		if len(j.sc.Stale) > 0 && flagValue(flags, "p", "") != "" {
			j.o.Invalid = "leftovers while pretending"
			return nil, nil
		}
		disk, v, err := j.disk(flags, fns)
		if v != nil || err != nil {
			return v, err
		}
		out, err := j.exec(j.sc.Tool, *run, disk)
		if err != nil {
			return nil, err
		}
		j.pts = append(j.pts, out.Res.Points)
		if v := crashed("the converter", out); v != nil {
			return v, nil
		}
		if out.Res.Exit != 0 {
			return viol("exit", "the converter exits with %d: %.300s", out.Res.Exit, out.Stderr), nil
		}
		if v, err := j.complete(flags, fns, out); v != nil || err != nil {
			return v, err
		}
	}
	return nil, nil
}

// complete: the batch left exactly what the files alone leave.
func (j *job) complete(flags, fns []string, out *plan.ToolOut) (*plan.Violation, error) {
	if v := untouched(j.files, out.Files); v != nil {
		return v, nil
	}
	info := flagValue(flags, "i", "results.txt")
	got := outputs(out, j.files, info)
	want := map[string][]byte{}
	head, recs, open := records(find(out.Files, info))
	groups, v := grouped(recs, fns)
	if v != nil {
		return v, nil
	}
	if open {
		return viol("status", "the last status line is not ended: %.300q", recs[len(recs)-1]), nil
	}
	for _, fn := range fns {
		s, v, err := j.alone(flags, fn)
		if v != nil || err != nil {
			return v, err
		}
		if v := j.reference(flags, fn, s); v != nil {
			return v, nil
		}
		for p, b := range s.files {
			if want[p] != nil {
				j.o.Invalid = "outputs of the same name"
				return nil, nil
			}
			want[p] = b
			if want[p] == nil {
				want[p] = []byte{}
			}
		}
		if head != s.header {
			return viol("status", "the status file begins with %.200q instead of %.200q", head, s.header), nil
		}
		if !sameSet(groups[fn], s.recs) {
			return viol("status", "status lines of %s: %.500q; alone: %.500q", fn, groups[fn], s.recs), nil
		}
		if len(s.recs) == 0 && j.specs[fn] == nil {
			return viol("status", "no status line for %s", fn), nil
		}
	}
	if d := missing(got, want); d != "" {
		return viol("output", "%s", d), nil
	}
	for p := range want {
		if !bytes.Equal(got[p], want[p]) {
			return viol("output", "%s differs from what its file alone gives: %.300q / %.300q", p, around(got[p], want[p]), around(want[p], got[p])), nil
		}
	}
	if flagValue(flags, "p", "") != "" && len(got) > 0 {
		return viol("output", "output although it is only pretended"), nil
	}
	return nil, nil
}

// around shows where a differs from b.
func around(a, b []byte) []byte {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	i -= 20
	if i < 0 {
		i = 0
	}
	e := i + 120
	if e > len(a) {
		e = len(a)
	}
	return []byte(fmt.Sprintf("[%d bytes, from %d] %s", len(a), i, a[i:e]))
}

var writeKinds = []string{"ENOSPC", "ENOSPC", "EIO", "EDQUOT", "EFBIG", "EROFS"}

func makeP12(r *gen.Rand, t *toolRunner) *plan.Scenario {
	sc := &plan.Scenario{Tool: "grate2tsv", Pool: r.Pick("", "lifo", "random", "fifo")}
	fs, fns := inputs(r, r.Range(1, 5), "xls", "xlsx", "xlsx", "tsv", "csv")
	sc.Files = fs
	flags := randFlags(r)
	run := plan.ToolRun{Args: append(append([]string(nil), flags...), shuffle(r, fns)...), CPUs: randCPUs(r), Seed: r.U64()>>16 | 1, Sched: randSched(r)}
	if r.P(4) {
		run.Sched.Mean = 0
	}
	// what would be written
	prof, total, usual := t.profile(sc, run)
	if r.P(4) {
		sc.Stale = randStale(r, usual)
	}
	k := &run.Kern
	for n := r.Range(1, 3); n > 0; n-- {
		f := scen.Fault{Path: ".tsv", Kind: writeKinds[r.Intn(len(writeKinds))]}
		switch r.Intn(9) {
		case 0, 1, 2:
			f.Op, f.Nth = "write", r.Intn(int(prof["write"])+1)
		case 3:
			f.Op, f.Nth, f.Kind = "create", r.Intn(int(prof["create"])+1), r.Pick("EACCES", "ENOSPC", "EMFILE", "EROFS", "EIO", "EISDIR")
		case 4:
			f.Op, f.Nth, f.Kind, f.Path = "mkdir", r.Intn(int(prof["mkdir"])+1), r.Pick("EACCES", "ENOSPC", "EROFS", "EIO"), ""
		case 5:
			k.DiskFree, k.DiskDir = 1+int64(r.Intn(total+1)), "results/"
			continue
		case 6:
			// a short write, and then the disk is full
			f.Op, f.Nth, f.Kind, f.Arg = "write", r.Intn(int(prof["write"])+1), "short", int64(r.Range(1, 4000))
			k.Faults = append(k.Faults, f)
			f.Nth, f.Kind, f.Arg = f.Nth+1, "ENOSPC", 0
		case 7:
			f.Op, f.Nth, f.Kind, f.Arg = "write", r.Intn(int(prof["write"])+1), "short", int64(r.Range(1, 4000))
		default:
			f.Op, f.Nth, f.Kind = r.Pick("write", "create"), r.Intn(int(prof["write"])+1), "EINTR"
			f.Count = r.Range(1, 4)
		}
		if f.Count == 0 {
			f.Count = r.PickInt(1, 1, 1, 2, 5, -1)
		}
		if f.Op != "mkdir" && r.P(3) && f.Kind != "EINTR" {
			// one file only
			fn := fns[r.Intn(len(fns))]
			if s := j0(sc, fn); s != "" {
				f.Path, f.Nth = s, r.Intn(2)
			}
		}
		k.Faults = append(k.Faults, f)
	}
	if len(k.Faults) > 6 {
		k.Faults = k.Faults[:6]
	}
	sc.Runs = []plan.ToolRun{run}
	return sc
}

// j0 is the end of the name of one of a file's outputs.
func j0(sc *plan.Scenario, fn string) string {
	for i := range sc.Files {
		if f := &sc.Files[i]; f.Path == fn && len(f.Sheets) > 0 {
			if f.Text != nil {
				return ""
			}
			s := f.Sheets[len(f.Sheets)/2].Name
			return "." + sanitize.ReplaceAllString(s, "_") + ".tsv"
		}
	}
	return ""
}

// profile counts the system calls of an undisturbed run, and the bytes of output.
func (t *toolRunner) profile(sc *plan.Scenario, run plan.ToolRun) (map[string]int64, int, *plan.ToolOut) {
	out := t.undisturbed(sc, run)
	if out == nil {
		return map[string]int64{}, 1000, nil
	}
	n := 0
	for i := range out.Files {
		if strings.HasPrefix(out.Files[i].Path, "results/") {
			n += len(out.Files[i].Data)
		}
	}
	return out.Ops, n, out
}

func (t *toolRunner) undisturbed(sc *plan.Scenario, run plan.ToolRun) *plan.ToolOut {
	o := &plan.Outcome{Faults: map[string]int64{}, Probes: map[string]int64{}}
	j := &job{t: t, sc: sc, o: o}
	sc.Runs = []plan.ToolRun{run}
	defer func() { sc.Runs = nil }()
	if j.shape() != nil {
		return nil
	}
	run.Kern.Faults, run.Kern.DiskFree, run.Kern.MaxFDs = nil, 0, 0
	run.Race = false
	out, err := j.exec(sc.Tool, run, j.files)
	if err != nil {
		return nil
	}
	return out
}

// hit: a failure was delivered to the path or a directory it needs.
func hit(out *plan.ToolOut, p string) bool {
	for _, f := range out.Failures {
		op, q, _ := strings.Cut(f, " ")
		if q == p || (op == "mkdir" && strings.HasPrefix(p, q+"/")) {
			return true
		}
	}
	return false
}

func checkP12(j *job) (*plan.Violation, error) {
	if len(j.sc.Runs) != 1 || j.sc.Tool != "grate2tsv" {
		j.o.Invalid = "shape"
		return nil, nil
	}
	run := &j.sc.Runs[0]
	flags, fns := parseArgs(run.Args)
	if flagValue(flags, "p", "") != "" || run.Sched.Kill != 0 || run.Kern.MaxFDs != 0 || (run.Kern.DiskFree != 0 && run.Kern.DiskDir != "results/") {
		j.o.Invalid = "shape"
		return nil, nil
	}
	for _, f := range run.Kern.Faults {
		write := (f.Op == "write" || f.Op == "create") && strings.HasSuffix(f.Path, ".tsv") || f.Op == "mkdir"
		if _, isErr := errnoNames[f.Kind]; !write || (!isErr && f.Kind != "short") {
			j.o.Invalid = "fault"
			return nil, nil
		}
	}
	for _, fn := range fns {
		if j.specs[fn] == nil || j.specs[fn].Damaged() {
			j.o.Invalid = "input"
			return nil, nil
		}
	}
	disk := j.files
	if run.Kern.DiskFree == 0 {
		var v *plan.Violation
		var err error
		if disk, v, err = j.disk(flags, fns); v != nil || err != nil {
			return v, err
		}
	}
	out, err := j.exec(j.sc.Tool, *run, disk)
	if err != nil {
		return nil, err
	}
	j.pts = append(j.pts, out.Res.Points)
	j.o.Trivial = len(out.Failures) == 0
	if v := crashed("the converter", out); v != nil {
		return v, nil
	}
	if v := untouched(j.files, out.Files); v != nil {
		return v, nil
	}
	info := flagValue(flags, "i", "results.txt")
	head, recs, open := records(find(out.Files, info))
	groups, v := grouped(recs, fns)
	if v != nil {
		return v, nil
	}
	if open {
		return viol("status", "the last status line is not ended: %.300q", recs[len(recs)-1]), nil
	}
	got := outputs(out, j.files, info)
	for _, fn := range fns {
		s, v, err := j.alone(flags, fn)
		if v != nil || err != nil {
			return v, err
		}
		if v := j.reference(flags, fn, s); v != nil {
			return v, nil
		}
		if head != s.header {
			return viol("status", "the status file begins with %.200q instead of %.200q", head, s.header), nil
		}
		if v := j.honest(fn, s, groups[fn], got, func(p string) bool { return hit(out, p) }, true); v != nil {
			return v, nil
		}
	}
	return nil, nil
}

// honest judges the status lines of one file whose outputs may have failed.
func (j *job) honest(fn string, s *solo, recs []string, got map[string][]byte, hit func(string) bool, all bool) *plan.Violation {
	anyHit := false
	for p := range s.files {
		anyHit = anyHit || hit(p)
	}
	if len(recs) == 1 && len(s.recs) > 0 && !sameSet(recs, s.recs) {
		if sheet, _, _, e, ok := fields(recs[0]); ok && sheet == "-" && e != "-" {
			// the whole file is given up
			if !anyHit {
				return viol("unaffected", "%s is reported as failed (%s) although none of its outputs was hit", fn, e)
			}
			return nil
		}
	}
	left := map[string][]string{} // by table
	for _, r := range s.recs {
		sheet, _, _, _, _ := fields(r)
		left[sheet] = append(left[sheet], r)
	}
	for _, r := range recs {
		sheet, _, _, e, ok := fields(r)
		want := left[sheet]
		if !ok || len(want) == 0 {
			return viol("status", "%s: a status line too much: %q", fn, r)
		}
		left[sheet] = want[1:]
		p := s.outName(fn, sheet)
		if e == "-" {
			if r != want[0] {
				return viol("status", "%s: status line %q instead of %q", fn, r, want[0])
			}
			if p == "" {
				continue
			}
			if b, ok := got[p]; !ok || !bytes.Equal(b, s.files[p]) {
				return viol("lost output", "table %q of %s is reported without error, but %s has %d of %d bytes", sheet, fn, p, len(b), len(s.files[p]))
			}
			continue
		}
		if !hit(p) {
			return viol("unaffected", "table %q of %s is reported as failed (%s) although nothing hit its output", sheet, fn, e)
		}
		j.o.Probes["failed table reported"]++
	}
	if !all {
		return nil
	}
	for sheet, l := range left {
		if len(l) > 0 {
			return viol("status", "%s: no status line for table %q", fn, sheet)
		}
	}
	return nil
}

var errnoNames = map[string]bool{"ENOSPC": true, "EIO": true, "EDQUOT": true, "EFBIG": true, "EROFS": true, "EACCES": true, "EMFILE": true, "ENFILE": true, "EISDIR": true, "EINTR": true, "EPERM": true, "ENOMEM": true}

func makeP13(r *gen.Rand, t *toolRunner) *plan.Scenario {
	sc := &plan.Scenario{Tool: "grate2tsv", Pool: r.Pick("", "lifo", "random")}
	fs, fns := inputs(r, r.Range(1, 5), "xls", "xlsx", "xlsx", "tsv", "csv")
	if r.P(5) {
		var fn string
		fs, fn = bad(r, fs, 1)
		fns = append(fns, fn)
	}
	sc.Files = fs
	flags := randFlags(r)
	one := func() plan.ToolRun {
		return plan.ToolRun{Args: append(append([]string(nil), flags...), shuffle(r, fns)...), CPUs: randCPUs(r), Seed: r.U64()>>16 | 1, Sched: randSched(r)}
	}
	kill := one()
	prof := t.undisturbed(sc, kill)
	if r.P(4) {
		sc.Stale = randStale(r, prof)
	}
	if prof == nil {
		prof = &plan.ToolOut{Ops: map[string]int64{}}
	}
	doom := func(run *plan.ToolRun) {
		if r.P(2) {
			run.Sched.Kill = 1 + int64(r.U64()>>11)%(prof.Res.Steps+1)
			return
		}
		f := scen.Fault{Kind: "kill"}
		switch r.Intn(6) {
		case 0:
			f.Op, f.Path, f.Nth, f.Arg = "write", ".tsv", r.Intn(int(prof.Ops["write"])+1), int64(r.PickInt(0, 1, 17, 512, 4096, 1<<20))
		case 1:
			f.Op, f.Path, f.Nth = "write", ".txt", r.Intn(int(prof.Ops["write"])+1)
			if r.P(2) {
				f.Arg = 1 << 20 // after it
			}
		case 2:
			f.Op, f.Nth = "close", r.Intn(int(prof.Ops["close"])+1)
		case 3:
			f.Op, f.Nth = "create", r.Intn(int(prof.Ops["create"])+1)
		default:
			f.Op, f.Nth = "any", r.Intn(int(prof.Sys)+1)
		}
		run.Kern.Faults = append(run.Kern.Faults, f)
	}
	var runs []plan.ToolRun
	if r.P(6) {
		runs = append(runs, one())
	}
	doom(&kill)
	runs = append(runs, kill)
	for r.P(4) && len(runs) < 5 {
		k := one()
		doom(&k)
		runs = append(runs, k)
	}
	runs = append(runs, one())
	sc.Runs = runs
	return sc
}

func checkP13(j *job) (*plan.Violation, error) {
	n := len(j.sc.Runs)
	if n < 2 || j.sc.Tool != "grate2tsv" {
		j.o.Invalid = "shape"
		return nil, nil
	}
	flags, fns := parseArgs(j.sc.Runs[0].Args)
	if flagValue(flags, "p", "") != "" {
		j.o.Invalid = "pretending"
		return nil, nil
	}
	for i := range j.sc.Runs {
		fl, fs := parseArgs(j.sc.Runs[i].Args)
		k := &j.sc.Runs[i].Kern
		if strings.Join(fl, " ") != strings.Join(flags, " ") || !sameSet(fs, fns) || k.MaxFDs != 0 || k.DiskFree != 0 {
			j.o.Invalid = "different runs"
			return nil, nil
		}
		for _, f := range k.Faults {
			if f.Kind != "kill" || (f.Arg > 0 && f.Arg < 1<<19 && f.Path != ".tsv") {
				j.o.Invalid = "fault"
				return nil, nil
			}
		}
	}
	if l := &j.sc.Runs[n-1]; l.Sched.Kill != 0 || len(l.Kern.Faults) > 0 {
		j.o.Invalid = "the last run does not end"
		return nil, nil
	}
	if big, err := j.endless(flags, fns); big || err != nil {
		return nil, err
	}
	solos := map[string]*solo{}
	header := ""
	for _, fn := range fns {
		s, v, err := j.alone(flags, fn)
		if v != nil || err != nil {
			return v, err
		}
		if v := j.reference(flags, fn, s); v != nil {
			return v, nil
		}
		solos[fn], header = s, s.header
	}
	info := flagValue(flags, "i", "results.txt")
	files, v, err := j.disk(flags, fns)
	if v != nil || err != nil {
		return v, err
	}
	j.o.Trivial = true
	for i := range j.sc.Runs {
		last := i == n-1
		before := find(files, info)
		out, err := j.exec(j.sc.Tool, j.sc.Runs[i], files)
		if err != nil {
			return nil, err
		}
		j.pts = append(j.pts, out.Res.Points)
		what := fmt.Sprintf("run %d", i+1)
		if out.Res.Status != "killed" || last {
			if v := crashed(what, out); v != nil {
				return v, nil
			}
			if out.Res.Exit != 0 {
				return viol("exit", "%s exits with %d: %.300s", what, out.Res.Exit, out.Stderr), nil
			}
			last = true // it was not interrupted
		} else {
			j.o.Trivial = false
			j.o.Probes["runs killed"]++
		}
		if v := untouched(j.files, out.Files); v != nil {
			return v, nil
		}
		after := find(out.Files, info)
		if !bytes.HasPrefix(after, before) {
			return viol("history", "%s does not keep the earlier status lines: %.300q / %.300q", what, before, after), nil
		}
		head, recs, open := records(after[len(before):])
		if len(before) > 0 {
			if head != "" {
				return viol("header", "%s adds %.200q to the status file", what, head), nil
			}
		} else if head != header && (last || head != "") {
			return viol("header", "%s begins the status file with %.200q", what, head), nil
		}
		if open && last {
			return viol("status", "%s ends with an incomplete status line", what), nil
		}
		if open {
			recs = recs[:len(recs)-1]
		}
		got := outputs(out, j.files, info)
		groups, v := grouped(recs, fns)
		if v != nil {
			return v, nil
		}
		for _, fn := range fns {
			s := solos[fn]
			if v := truthful(fn, s, groups[fn], got); v != nil {
				v.Msg = what + ": " + v.Msg
				return v, nil
			}
			if !last {
				if len(groups[fn]) > 0 {
					j.o.Probes["status lines before the death"]++
				}
				continue
			}
			if !sameSet(groups[fn], s.recs) {
				return viol("status", "%s: status lines of %s: %.500q; alone: %.500q", what, fn, groups[fn], s.recs), nil
			}
			for p, b := range s.files {
				if !bytes.Equal(got[p], b) {
					return viol("output", "%s leaves %s incomplete: %d of %d bytes", what, p, len(got[p]), len(b)), nil
				}
			}
		}
		if last {
			for p := range got {
				known := false
				for _, s := range solos {
					_, ok := s.files[p]
					known = known || ok
				}
				if !known {
					return viol("output", "%s leaves %s", what, p), nil
				}
			}
		}
		files = out.Files
	}
	return nil, nil
}

// truthful: every status line is one the file alone gives, and those without an
// error name complete output.
func truthful(fn string, s *solo, recs []string, got map[string][]byte) *plan.Violation {
	left := map[string]int{}
	for _, r := range s.recs {
		left[r]++
	}
	for _, r := range recs {
		if left[r]--; left[r] < 0 {
			return viol("status", "%s: status line %q; alone: %.500q", fn, r, s.recs)
		}
		sheet, _, _, e, ok := fields(r)
		if !ok || e != "-" {
			continue
		}
		p := s.outName(fn, sheet)
		if p == "" {
			continue
		}
		if b, ok := got[p]; !ok || !bytes.Equal(b, s.files[p]) {
			return viol("lost output", "table %q of %s is reported without error, but %s has %d of %d bytes", sheet, fn, p, len(b), len(s.files[p]))
		}
	}
	return nil
}

func makeP14(r *gen.Rand, t *toolRunner) *plan.Scenario {
	sc := &plan.Scenario{Tool: r.Pick("grater", "grate2tsv"), Pool: r.Pick("", "lifo", "random")}
	fs, fns := inputs(r, r.Range(2, 5), allKinds...)
	for k := r.Intn(3); k > 0; k-- {
		var fn string
		fs, fn = bad(r, fs, k)
		fns = append(fns, fn)
	}
	if f := corpusInput(r); r.P(10) && f.Path != "" {
		fs, fns = append(fs, f), append(fns, f.Path)
	}
	run := plan.ToolRun{CPUs: randCPUs(r), Seed: r.U64()>>16 | 1, Sched: randSched(r)}
	if r.P(12) {
		// a long list of inputs, most of them bad, in a process which may
		// not have many files open
		n := r.PickInt(14, 18, 22, 26, 60)
		good := r.PickInt(30, 30, 80)
		for k := 0; k < n; k++ {
			var fn string
			switch {
			case r.Pct(good):
				var l []gen.FileSpec
				var ns []string
				l, ns = inputs(r, 1, allKinds...)
				fn = strings.TrimSuffix(ns[0], filepath.Ext(ns[0])) + fmt.Sprintf("n%d", k) + filepath.Ext(ns[0])
				l[0].Path = fn
				if b, err := l[0].Bytes(); err != nil || len(b) > 20000 {
					continue
				}
				fs = append(fs, l[0])
			case r.P(2):
				fn = fmt.Sprintf("in/absent%d.xls", k)
			default:
				fs, fn = bad(r, fs, 10+k)
			}
			fns = append(fns, fn)
		}
		if sc.Tool == "grater" && r.Pct(70) {
			run.Kern.MaxFDs = r.PickInt(12, 12, 14, 18)
		}
	}
	sc.Files = fs
	victims := r.Perm(len(fns))
	for k := r.PickInt(0, 1, 1, 1, 2, 2); k > 0; k-- {
		fn := fns[victims[k-1]]
		p := plan.ToolRun{Args: []string{fn}, CPUs: 2, Seed: 7}
		prof := map[string]int64{}
		if out := t.undisturbed(sc, p); out != nil {
			prof = out.Ops
		}
		f := scen.Fault{Path: fn, Op: r.Pick("open", "read", "read", "pread", "pread", "pread", "seek", "fstat"), Kind: r.Pick("EIO", "EIO", "EACCES", "ESTALE", "EMFILE", "ETIMEDOUT")}
		f.Nth = r.Intn(int(prof[f.Op]) + 1)
		f.Count = r.PickInt(1, 1, 2, -1)
		run.Kern.Faults = append(run.Kern.Faults, f)
	}
	if r.P(4) {
		run.Kern.Delivery.Chunks = []int{r.Range(1, 5000), 0, r.Range(1, 600)}
	}
	if r.P(6) {
		run.Kern.Delivery.Eintr = []int{r.Range(1, 9), r.Range(1, 30)}
	}
	run.Args = shuffle(r, fns)
	sc.Runs = []plan.ToolRun{run}
	return sc
}

func checkP14(j *job) (*plan.Violation, error) {
	if len(j.sc.Runs) != 1 {
		j.o.Invalid = "shape"
		return nil, nil
	}
	run := &j.sc.Runs[0]
	flags, fns := parseArgs(run.Args)
	if len(flags) > 0 || len(fns) == 0 || run.Sched.Kill != 0 || run.Kern.MaxFDs != 0 && (run.Kern.MaxFDs < 12 || j.sc.Tool != "grater") || run.Kern.DiskFree != 0 {
		j.o.Invalid = "shape"
		return nil, nil
	}
	faulty := map[string]bool{}
	for _, f := range run.Kern.Faults {
		n := 0
		for _, fn := range fns {
			if strings.HasSuffix(fn, f.Path) {
				n++
			}
		}
		if n != 1 || f.Path == "" || (f.Op != "open" && f.Op != "read" && f.Op != "pread" && f.Op != "seek" && f.Op != "fstat") || f.Kind == "shrink" || f.Kind == "replace" || f.Kind == "kill" {
			j.o.Invalid = "fault"
			return nil, nil
		}
	}
	if big, err := j.endless(flags, fns); big || err != nil {
		return nil, err
	}
	out, err := j.exec(j.sc.Tool, *run, j.files)
	if err != nil {
		return nil, err
	}
	j.pts = append(j.pts, out.Res.Points)
	for _, f := range out.Failures {
		_, p, _ := strings.Cut(f, " ")
		p, _, _ = strings.Cut(p, " @")
		if run.Kern.MaxFDs > 0 {
			// running out of descriptors is no excuse
			hit := false
			for _, f := range run.Kern.Faults {
				hit = hit || strings.HasSuffix(p, f.Path)
			}
			if !hit {
				continue
			}
		}
		faulty[p] = true
		faulty[strings.TrimPrefix(p, "/")] = true
	}
	bads := len(faulty)
	if v := crashed("the tool", out); v != nil {
		return v, nil
	}
	if v := untouched(j.files, out.Files); v != nil {
		return v, nil
	}
	solos := make([]*solo, len(fns))
	for i, fn := range fns {
		s, v, err := j.alone(flags, fn)
		if v != nil || err != nil {
			return v, err
		}
		solos[i] = s
		if v := j.reference(flags, fn, s); v != nil {
			return v, nil
		}
		if j.specs[fn] == nil {
			bads++
			if len(s.recs) == 0 && len(s.out.Stderr) == 0 {
				return viol("unaccounted", "nothing is reported about %s, which is missing", fn), nil
			}
		} else if j.specs[fn].Damaged() || j.specs[fn].Kind == "raw" {
			bads++
		}
	}
	j.o.Trivial = bads == 0
	if j.sc.Tool == "grater" {
		return j.printed(fns, solos, faulty, out), nil
	}
	head, recs, open := records(find(out.Files, "results.txt"))
	groups, v := grouped(recs, fns)
	if v != nil {
		return v, nil
	}
	if open || head != solos[0].header {
		return viol("status", "the status file is incomplete: %.200q ... %.200q", head, recs), nil
	}
	got := outputs(out, j.files, "results.txt")
	for i, fn := range fns {
		s, rs := solos[i], groups[fn]
		if !faulty[filepath.Clean(fn)] {
			if !sameSet(rs, s.recs) {
				return viol("status", "status lines of %s: %.500q; alone: %.500q", fn, rs, s.recs), nil
			}
			for p, b := range s.files {
				if g, ok := got[p]; !ok || !bytes.Equal(g, b) {
					return viol("output", "%s differs from what its file alone gives (%d of %d bytes)", p, len(g), len(b)), nil
				}
			}
			continue
		}
		if len(rs) == 1 && !sameSet(rs, s.recs) {
			if sheet, _, _, e, ok := fields(rs[0]); ok && sheet == "-" && e != "-" {
				j.o.Probes["failed input reported"]++
				continue
			}
		}
		if f := j.specs[fn]; f == nil || f.Kind == "raw" || f.Damaged() {
			continue // damaged and failing
		}
		if v := j.honest(fn, s, rs, got, func(string) bool { return true }, true); v != nil {
			return v, nil
		}
	}
	return nil, nil
}

// printed judges the output of the plain extractor.
func (j *job) printed(fns []string, solos []*solo, faulty map[string]bool, out *plan.ToolOut) *plan.Violation {
	clean := true
	lines := 0 // of error reports there have to be
	var want []byte
	for i, fn := range fns {
		s := solos[i]
		if len(s.out.Stderr) > 0 {
			lines++
		}
		want = append(want, s.out.Stdout...)
		clean = clean && !faulty[filepath.Clean(fn)]
	}
	n := bytes.Count(out.Stderr, []byte("\n"))
	if clean {
		if !bytes.Equal(out.Stdout, want) {
			return viol("output", "standard output differs from the files' own, one after the other: %.300q / %.300q", around(out.Stdout, want), around(want, out.Stdout))
		}
		if n < lines {
			return viol("unaccounted", "%d error reports for %d bad inputs: %.500q", n, lines, out.Stderr)
		}
		return nil
	}
	// the tables of failing inputs may be missing; then there is an error report
	got := normLines(string(out.Stdout))
	type state struct{ at, errs int }
	at := map[state]bool{{0, 0}: true}
	for i, fn := range fns {
		next := map[state]bool{}
		s := solos[i]
		if !faulty[filepath.Clean(fn)] {
			w := normLines(string(s.out.Stdout))
			e := 0
			if len(s.out.Stderr) > 0 {
				e = 1
			}
			for st := range at {
				if hasLines(got, st.at, w) {
					next[state{st.at + len(w), st.errs + e}] = true
				}
			}
		} else {
			tables := j.tablesOf(fn, s)
			if tables == nil {
				// nobody knows where its tables begin: any of its lines may be left out
				w := normLines(string(s.out.Stdout))
				for st := range at {
					if len(w) == 0 {
						next[st] = true
					} else if hasLines(got, st.at, w) {
						next[state{st.at + len(w), st.errs}] = true
					}
					k := st.at
					next[state{k, st.errs + 1}] = true
					for _, line := range w {
						if k < len(got) && got[k] == line {
							k++
							next[state{k, st.errs + 1}] = true
						}
					}
				}
				at = next
				continue
			}
			for st := range at {
				cur := map[state]bool{st: true}
				for _, w := range tables {
					more := map[state]bool{}
					for c := range cur {
						more[state{c.at, c.errs | 1<<20}] = true // left out
						if len(w) == 0 {
							more[c] = true
						} else if hasLines(got, c.at, w) {
							more[state{c.at + len(w), c.errs}] = true
						}
					}
					cur = more
				}
				for c := range cur {
					if c.errs >= 1<<20 {
						c.errs = c.errs&^(1<<20) + 1
					}
					next[c] = true
				}
			}
		}
		at = next
	}
	least := -1
	for st := range at {
		if st.at == len(got) && (least < 0 || st.errs < least) {
			least = st.errs
		}
	}
	if least < 0 {
		return viol("output", "standard output is not made of the complete tables of the inputs: %.600q; alone: %.600q", out.Stdout, want)
	}
	if n < least {
		return viol("unaccounted", "%d error reports for at least %d incomplete inputs: %.500q", n, least, out.Stderr)
	}
	j.o.Probes["failed input reported"]++
	return nil
}

func hasLines(got []string, at int, want []string) bool {
	if at+len(want) > len(got) {
		return false
	}
	for i := range want {
		if got[at+i] != want[i] {
			return false
		}
	}
	return true
}

// tablesOf gives the lines of each table of an input, nil when that is not known.
func (j *job) tablesOf(fn string, s *solo) (l [][]string) {
	f := j.specs[fn]
	if f != nil && (f.Kind == "corpus" || f.Damaged() && (f.Kind == "xls" || f.Kind == "xlsx")) {
		return nil
	}
	l = [][]string{}
	if f != nil && !f.Damaged() && (f.Kind == "xls" || f.Kind == "xlsx" || f.Kind == "tsv") {
		for _, t := range f.Expect() {
			if !t.Hidden {
				l = append(l, normLines(joinRows(t.Rows)))
			}
		}
		return
	}
	return [][]string{normLines(string(s.out.Stdout))}
}

// makeP16 makes what the tools print or record impossible to write.
func makeP16(r *gen.Rand, t *toolRunner) *plan.Scenario {
	sc := &plan.Scenario{Tool: r.Pick("grater", "grate2tsv"), Pool: r.Pick("", "lifo", "random")}
	fs, fns := inputs(r, r.Range(1, 4), allKinds...)
	if r.P(4) {
		var fn string
		fs, fn = bad(r, fs, 1)
		fns = append(fns, fn)
	}
	sc.Files = fs
	var flags []string
	path := "<stdout>"
	if sc.Tool == "grate2tsv" {
		flags = randFlags(r)
		path = flagValue(flags, "i", "results.txt")
	} else if r.P(5) {
		flags = []string{"-v"}
	}
	one := func() plan.ToolRun {
		return plan.ToolRun{Args: append(append([]string(nil), flags...), shuffle(r, fns)...), CPUs: randCPUs(r), Seed: r.U64()>>16 | 1, Sched: randSched(r)}
	}
	run := one()
	writes, size := 1, 0
	if out := t.undisturbed(sc, run); out != nil {
		b := out.Stdout
		if sc.Tool == "grate2tsv" {
			b = find(out.Files, path)
		}
		writes, size = bytes.Count(b, []byte("\n")), len(b)
	}
	if sc.Tool == "grate2tsv" && r.P(3) {
		sc.Runs = append(sc.Runs, one())
	}
	k := &run.Kern
	f := scen.Fault{Path: path, Op: "write", Kind: writeKinds[r.Intn(len(writeKinds))], Nth: r.Intn(writes + 1), Count: r.PickInt(1, 1, 2, 5, -1)}
	if r.P(4) {
		f.Nth = max(0, writes-1)
	}
	switch r.Intn(8) {
	case 0:
		// a short write, and then nothing more
		short := f
		short.Kind, short.Arg, short.Count = "short", int64(r.Range(1, 60)), 1
		f.Nth++
		k.Faults = append(k.Faults, short)
	case 1:
		f.Kind, f.Arg = "short", int64(r.Range(1, 60))
	case 2:
		f.Kind, f.Count = "EINTR", r.Range(1, 4)
	case 3:
		if sc.Tool == "grate2tsv" {
			f.Op, f.Kind, f.Nth = "create", r.Pick("EACCES", "ENOSPC", "EMFILE", "EROFS", "EIO", "EISDIR"), 0
		}
	case 4:
		if sc.Tool == "grate2tsv" {
			f.Op, f.Kind, f.Nth = "close", r.Pick("EIO", "ENOSPC", "EDQUOT"), 0
		}
	case 5:
		if sc.Tool == "grate2tsv" {
			k.DiskFree, k.DiskDir = 1+int64(r.Intn(size+1)), path
			f.Kind = ""
		}
	}
	if f.Kind != "" {
		k.Faults = append(k.Faults, f)
	}
	sc.Runs = append(sc.Runs, run)
	return sc
}

func checkP16(j *job) (*plan.Violation, error) {
	n := len(j.sc.Runs)
	if n < 1 || n > 2 || n == 2 && j.sc.Tool == "grater" {
		j.o.Invalid = "shape"
		return nil, nil
	}
	run := &j.sc.Runs[n-1]
	flags, fns := parseArgs(run.Args)
	info := flagValue(flags, "i", "results.txt")
	path := info
	if j.sc.Tool == "grater" {
		path = "<stdout>"
	}
	for i := range j.sc.Runs {
		r := &j.sc.Runs[i]
		fl, _ := parseArgs(r.Args)
		if r.Sched.Kill != 0 || r.Kern.MaxFDs != 0 || (r.Kern.DiskFree != 0 && (r.Kern.DiskDir != info || path != info)) || i < n-1 && len(r.Kern.Faults) > 0 || flagValue(fl, "i", "results.txt") != info || flagValue(fl, "p", "") != "" {
			j.o.Invalid = "shape"
			return nil, nil
		}
	}
	for _, f := range run.Kern.Faults {
		op := f.Op == "write" || path == info && (f.Op == "create" || f.Op == "close")
		if _, isErr := errnoNames[f.Kind]; f.Path != path || !op || !isErr && f.Kind != "short" {
			j.o.Invalid = "fault"
			return nil, nil
		}
	}
	if big, err := j.endless(flags, fns); big || err != nil {
		return nil, err
	}
	disk := j.files
	if n == 2 {
		out, err := j.exec(j.sc.Tool, j.sc.Runs[0], disk)
		if err != nil {
			return nil, err
		}
		j.pts = append(j.pts, out.Res.Points)
		if v := crashed("the tool", out); v != nil {
			return v, nil
		}
		disk = out.Files
	}
	out, err := j.exec(j.sc.Tool, *run, disk)
	if err != nil {
		return nil, err
	}
	j.pts = append(j.pts, out.Res.Points)
	if v := crashed("the tool", out); v != nil {
		return v, nil
	}
	if v := untouched(j.files, out.Files); v != nil {
		return v, nil
	}
	hit, started := len(out.Failures) > 0, true
	for _, f := range out.Failures {
		op, p, _ := strings.Cut(f, " ")
		if p != path {
			return nil, fmt.Errorf("failure of %q", f)
		}
		started = started && op != "create" && op != "open"
	}
	j.o.Trivial = !hit
	if hit {
		if out.Res.Exit == 0 {
			return viol("silent", "%s could not be written (%s), the exit status is 0 and standard error has %.200q", path, out.Failures[0], out.Stderr), nil
		}
		if len(out.Stderr) == 0 && (flagValue(flags, "l", "") == "" || len(find(out.Files, flagValue(flags, "l", ""))) == 0) {
			return viol("silent", "%s could not be written (%s), the exit status is %d but nothing is said about it", path, out.Failures[0], out.Res.Exit), nil
		}
		j.o.Probes["failure reported"]++
	} else if out.Res.Exit != 0 {
		return viol("exit", "nothing failed, but the exit status is %d: %.300q", out.Res.Exit, out.Stderr), nil
	}
	if j.sc.Tool == "grater" {
		var want []byte
		for _, fn := range fns {
			s, v, err := j.alone(flags, fn)
			if v != nil || err != nil {
				return v, err
			}
			if len(flags) == 0 {
				if v := j.reference(flags, fn, s); v != nil {
					return v, nil
				}
			}
			want = append(want, s.out.Stdout...)
		}
		last := run.Kern.Faults
		if !hit && !bytes.Equal(out.Stdout, want) || hit && len(last) > 0 && last[len(last)-1].Count < 0 && !bytes.HasPrefix(want, out.Stdout) {
			return viol("output", "standard output differs from the files' own, one after the other: %.300q / %.300q", around(out.Stdout, want), around(want, out.Stdout)), nil
		}
		return nil, nil
	}
	if old := find(disk, info); !bytes.HasPrefix(find(out.Files, info), old) {
		return viol("status", "earlier status lines are gone: %.300q", find(out.Files, info)), nil
	} else if n == 2 {
		// the lines of this run only, behind the header
		b := find(out.Files, info)
		h, _, _ := bytes.Cut(old, []byte("\n"))
		b = append(append(append([]byte(nil), h...), '\n'), b[len(old):]...)
		for i := range out.Files {
			if f := &out.Files[i]; f.Path == info {
				f.Data = b
			}
		}
	}
	if !hit {
		return j.complete(flags, fns, out)
	}
	if !started {
		return nil, nil
	}
	// the outputs do not suffer, and what is recorded is true
	got := outputs(out, j.files, info)
	b := find(out.Files, info)
	_, recs, _ := records(b[:bytes.LastIndexByte(b, '\n')+1])
	for _, fn := range fns {
		s, v, err := j.alone(flags, fn)
		if v != nil || err != nil {
			return v, err
		}
		for p, b := range s.files {
			if g, ok := got[p]; !ok || !bytes.Equal(g, b) {
				return viol("output", "%s has %d of %d bytes although only %s could not be written", p, len(g), len(b), path), nil
			}
		}
		left := append([]string(nil), s.recs...)
	next:
		for _, rec := range recs {
			rest, ok := strings.CutPrefix(rec, fn+"\t")
			if !ok {
				continue
			}
			for i := range left {
				if left[i] == rest {
					left = append(left[:i], left[i+1:]...)
					continue next
				}
			}
			return viol("status", "%s: status line %.300q; alone: %.500q", fn, rest, s.recs), nil
		}
	}
	return nil, nil
}
