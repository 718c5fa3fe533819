package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path"
	"runtime"
	"strings"
	"time"
	_ "time/tzdata"

	"verif.local/sim/gen"
	"verif.local/sim/plan"
)

func init() { properties["P08"] = &property{makeP08, checkP08} }

// mixedText is delimited text whose lines disagree about the number of columns.
func mixedText(r *gen.Rand, p string) gen.FileSpec {
	var sb strings.Builder
	sep := r.Pick(",", "\t", ",", "\t", "|")
	counts := make([]int, r.Range(1, 5))
	for i := range counts {
		counts[i] = r.PickInt(0, 1, 1, 2, 3, 4, 7)
	}
	rows := r.PickInt(1, 5, 11, 12, 26, 27, 60, 130, 140, 300)
	dominant := r.Intn(len(counts))
	share := r.PickInt(0, 50, 79, 80, 81, 90)
	var exact []int
	if r.P(2) {
		// exact numbers of lines, around what decides about the format
		counts = []int{r.PickInt(1, 2, 2, 3, 7), r.PickInt(1, 3, 4, 5), r.PickInt(0, 1, 6)}
		n := []int{r.PickInt(24, 25, 26, 27, 30, 104, 140, 140, 300, 300), r.PickInt(0, 5, 24, 25, 26, 27, 30, 30), r.PickInt(0, 0, 0, 1, 26)}
		rows = 0
		for k, m := range n {
			for ; m > 0; m-- {
				exact = append(exact, k)
				rows++
			}
		}
		for i, k := range r.Perm(len(exact)) {
			exact[i], exact[k] = exact[k], exact[i]
		}
	}
	for i := 0; i < rows; i++ {
		k := r.Intn(len(counts))
		if r.Pct(share) {
			k = dominant
		}
		if exact != nil {
			k = exact[i]
		}
		for c := 0; c < counts[k]; c++ {
			if c > 0 {
				sb.WriteString(sep)
			}
			fmt.Fprintf(&sb, "r%dc%d", i, c)
			if exact == nil && r.P(200) {
				sb.WriteByte('"')
			}
			if exact == nil && r.P(3000) {
				sb.WriteByte(0)
			}
		}
		sb.WriteString("\n")
	}
	return gen.FileSpec{Path: p, Kind: "raw", Raw: []byte(sb.String())}
}

func makeP08(r *gen.Rand, thorough bool) *plan.Scenario {
	sc := &plan.Scenario{Prop: "P08", Seed: r.U64()>>16 | 1}
	one := func(p string, size int) gen.FileSpec {
		switch {
		case r.P(7):
			return mixedText(r, p+".txt")
		case r.P(15):
			f := corpusFile(r, "", "xls", "xlsx", "tsv")
			f.Path = p + "." + kindOf(&f)
			return f
		}
		f := gen.RandOdd(r, p, size, "xls", "xls", "xlsx", "xlsx", "xlsx", "csv", "tsv")
		if f.XLSX != nil {
			if r.P(2) {
				f.XLSX.SST = r.Range(1, 3)
			}
			if r.P(2) {
				f.XLSX.Styles = r.Range(1, 3)
			}
			if f.Check() != nil {
				f.XLSX.SST, f.XLSX.Styles = 0, 0
			}
		}
		if r.P(3) {
			for k := r.Range(1, 2); k > 0; k-- {
				gen.AddDamage(r, &f)
			}
		}
		return f
	}
	f := one("in/file", r.PickInt(0, 1, 1, 2))
	g := f
	g.Path = r.Pick("other/place/", "", "x.y/") + path.Base(f.Path)
	if r.P(4) {
		// under another name
		g.Path = r.Pick("other/place/", "", "x.y/") + "copy of it" + gen.OddExt(r)
	}
	sc.Files = []gen.FileSpec{f, g}
	n := r.Intn(4)
	for i := 0; i < n; i++ {
		sc.Files = append(sc.Files, one(fmt.Sprintf("before/f%d", i), r.Intn(2)))
	}
	opener := ""
	if k := kindOf(&f); r.P(4) && (k == "xls" || k == "xlsx" || k == "csv" || k == "tsv") {
		opener = k
	} else if k == "raw" {
		opener = r.Pick("", "csv", "csv", "tsv", "tsv")
	}
	ops := []plan.Op{{Op: "open", Opener: opener}, {Op: "readall", Obs: r.Pick("st", "stf", allObs)}}
	for k := r.Intn(3); k > 0; k-- {
		ops = append(ops, plan.Op{Op: "get", Name: r.Intn(5) - 1}, plan.Op{Op: "drain", Obs: "stf"})
	}
	ops = append(ops, plan.Op{Op: "close"})
	sc.Tasks = [][]plan.Op{ops}
	for k := r.Intn(5); k > 0; k-- {
		fi := r.Intn(len(sc.Files))
		b := []plan.Op{{Op: "open", File: fi}}
		switch r.Intn(3) {
		case 0:
			b = append(b, plan.Op{Op: "readall", Obs: "stf"})
		case 1:
			b = append(b, plan.Op{Op: "get"}, plan.Op{Op: "next", N: 2}, plan.Op{Op: "mutate", Obs: "stf"})
		}
		if r.Pct(80) {
			b = append(b, plan.Op{Op: "close"})
		}
		sc.Before = append(sc.Before, b)
	}
	if len(sc.Before) > 0 && r.P(6) {
		sc.Mode = "fresh"
	}
	sc.Pool = r.Pick("lifo", "lifo", "fifo", "random")
	sc.Kern.Start = int64(r.Intn(4_000_000_000))
	if r.P(4) {
		sc.Kern.Delivery = randDelivery(r, 200000)
	}
	return sc
}

func checkP08(e *env, o *plan.Outcome) *plan.Violation {
	sc := e.sc
	if len(sc.Tasks) != 1 || len(sc.Files) < 2 || string(e.data[0]) != string(e.data[1]) || len(sc.Kern.Faults) > 0 || sc.Kern.MaxFDs > 0 {
		o.Invalid = "shape"
		return nil
	}
	for _, op := range sc.Tasks[0] {
		switch op.Op {
		case "damage", "shrink", "restore", "forget", "cfbopen":
			o.Invalid = "operation"
			return nil
		}
		if op.File != 0 {
			o.Invalid = "file"
			return nil
		}
	}
	cap := stepBudget(len(e.data[0]))
	reading := func(file int, seed uint64) []rec {
		ops := append([]plan.Op(nil), sc.Tasks[0]...)
		for i := range ops {
			ops[i].File = file
		}
		s := &env{sc: &plan.Scenario{Files: sc.Files, Tasks: [][]plan.Op{ops}, Seed: seed}, data: e.data, names: e.names, maxTab: 20000}
		s.sc.Sched.Cap = cap
		if file == 1 {
			s.sc.Kern, s.sc.Debug = sc.Kern, sc.Debug
		}
		if file == 1 {
			defer elsewhere(seed)()
		}
		s.run()
		if file == 0 {
			e.res, e.recs = s.res, s.recs
			e.account(o)
		} else {
			o.Runs++
			o.Inter = o.Inter*31 + s.res.Hash
		}
		if file == 1 {
			// text files have one table, which is named like the file
			renamed(s.recs[0], path.Base(sc.Files[1].Path), path.Base(sc.Files[0].Path))
		}
		return s.recs[0]
	}
	if sc.Mode == "fresh" {
		// in a new process, with and without the earlier activity
		n := *sc
		n.Before = nil
		a, err := freshReading(&n)
		if err == nil {
			var b []rec
			if b, err = freshReading(sc); err == nil {
				o.Runs += 2
				o.Probes["in new processes"]++
				if d := sameRecs(b, a); d != "" {
					return viol("history", "the same bytes, in a process which worked on other files before: %s", d)
				}
			}
		}
		if err != nil {
			o.Probes["new process failed"]++
		}
	}
	first := reading(0, sc.Seed)
	for i := range first {
		if first[i].Hang || first[i].Panic != "" {
			return nil // another property's business
		}
	}
	if len(first) > 0 && first[0].IsErr {
		o.Probes["file refused"]++
	} else {
		o.Probes["file read"]++
	}
	for i := range first {
		if first[i].Op == "open" {
			// where the file lies must not matter, so its own name alone may appear
			first[i].File = 0
		}
	}
	for k := uint64(1); k <= 4; k++ {
		if k == 3 && len(sc.Before) > 0 {
			b := &env{sc: &plan.Scenario{Files: sc.Files, Tasks: sc.Before, Seed: sc.Seed + 77}, data: e.data, names: e.names, maxTab: 5000}
			b.sc.Sched.Cap = 100_000_000 * int64(len(sc.Before))
			b.run()
			o.Probes["after earlier activity"]++
		}
		again := reading(1, sc.Seed+k*1_000_003)
		if d := sameRecs(again, first); d != "" {
			what := "another order of random choices"
			if k >= 3 {
				what = "another order of random choices, after other files"
			}
			return viol("outcome", "the same bytes, with %s: %s", what, d)
		}
	}
	return nil
}

// renamed replaces the name of a file where it stands for a table.
func renamed(l []rec, from, to string) {
	if from == to {
		return
	}
	for i := range l {
		rc := &l[i]
		names := append([]string(nil), rc.Names...)
		for k := range names {
			if names[k] == from {
				names[k] = to
			}
		}
		if rc.Names != nil {
			rc.Names = names
		}
		if rc.Name == from {
			rc.Name = to
		}
		if rc.Tab != nil && rc.Tab.Name == from {
			t := *rc.Tab
			t.Name = to
			rc.Tab = &t
		}
	}
}

var zones = func() (l []*time.Location) {
	for _, n := range []string{"America/New_York", "Europe/Berlin", "America/Sao_Paulo", "Asia/Kolkata", "Pacific/Apia", "Australia/Lord_Howe", "Africa/Cairo", "Asia/Tokyo", "Europe/London", "America/St_Johns"} {
		z, err := time.LoadLocation(n)
		if err != nil {
			panic(err)
		}
		l = append(l, z)
	}
	return
}()

// elsewhere makes the process one of another place: time zone, language,
// number of processors. The result undoes that.
func elsewhere(seed uint64) func() {
	local, cpus := time.Local, runtime.SimNumCPU
	vars := []string{"LANG", "LC_ALL", "TZ", "HOME", "TMPDIR", "GRATE_DEBUG"}
	was := map[string]string{}
	r := gen.NewRand(seed)
	for _, v := range vars {
		if s, ok := os.LookupEnv(v); ok {
			was[v] = s
		}
		if r.P(2) {
			os.Setenv(v, r.Pick("", "C", "de_DE.UTF-8", "tr_TR", "/nowhere", "1", "Asia/Tokyo"))
		}
	}
	time.Local = zones[r.Intn(len(zones))]
	runtime.SimNumCPU = r.PickInt(1, 2, 3, 8, 64)
	return func() {
		time.Local, runtime.SimNumCPU = local, cpus
		for _, v := range vars {
			if s, ok := was[v]; ok {
				os.Setenv(v, s)
			} else {
				os.Unsetenv(v)
			}
		}
	}
}

// freshReading executes a scenario's earlier activity and its first reading in a process of its own.
func freshReading(sc *plan.Scenario) ([]rec, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	in, err := json.Marshal(sc)
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(self, "fresh")
	cmd.Stdin = bytes.NewReader(in)
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	var l []rec
	err = json.Unmarshal(out, &l)
	return l, err
}

func freshMain() error {
	var sc plan.Scenario
	if err := json.NewDecoder(os.Stdin).Decode(&sc); err != nil {
		return err
	}
	e, err := prepare(&sc)
	if err != nil {
		return err
	}
	resetPools(sc.Pool, sc.Seed)
	if len(sc.Before) > 0 {
		b := &env{sc: &plan.Scenario{Files: sc.Files, Tasks: sc.Before, Seed: sc.Seed + 77}, data: e.data, names: e.names, maxTab: 5000}
		b.sc.Sched.Cap = 100_000_000 * int64(len(sc.Before))
		b.run()
	}
	s := &env{sc: &plan.Scenario{Files: sc.Files, Tasks: sc.Tasks, Seed: sc.Seed}, data: e.data, names: e.names, maxTab: 20000}
	s.sc.Sched.Cap = stepBudget(len(e.data[0]))
	s.run()
	return json.NewEncoder(os.Stdout).Encode(s.recs[0])
}
