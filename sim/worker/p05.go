package main

import (
	"fmt"
	"strings"

	"verif.local/sim/gen"
	"verif.local/sim/plan"
	"verif.local/sim/rt"
	"verif.local/sim/scen"
)

func init() { properties["P05"] = &property{makeP05, checkP05} }

func randSched(r *gen.Rand, tasks int) (s scen.Sched) {
	s.Seed = r.U64()>>16 | 1
	s.Mean = int64(r.PickInt(2, 3, 5, 10, 30, 100, 300, 1000, 3000, 10000))
	if r.P(6) {
		s.Starve = 1 + r.Intn(tasks)
	}
	gen.RandStall(r, &s)
	return
}

// pairFile is a file for a thread of its own: small, so that much of the work overlaps.
func pairFile(r *gen.Rand, path string) gen.FileSpec {
	if r.P(25) {
		f := corpusFile(r, "", "xls", "xlsx", "tsv")
		f.Path = path + "." + kindOf(&f)
		return f
	}
	return gen.RandOdd(r, path, r.PickInt(0, 0, 1, 1, 2), "xls", "xls", "xls", "xlsx", "xlsx", "csv", "tsv")
}

// threadOps is what one thread does with its files.
func threadOps(r *gen.Rand, files []gen.FileSpec, mine []int) (ops []plan.Op) {
	obs := func() string { return r.Pick("s", "st", "stf", allObs, allObs, "c", "k") }
	for n := r.Range(1, 3); n > 0; n-- {
		fi := mine[r.Intn(len(mine))]
		f := &files[fi]
		if r.P(8) {
			ops = append(ops, plan.Op{Op: "cfbopen", S: 9, File: fi}, plan.Op{Op: "cfblist", S: 9}, plan.Op{Op: "stream", S: 9}, plan.Op{Op: "sfull", N: 3000})
			continue
		}
		opener := openerFor(r, f)
		if r.P(4) {
			opener = ""
		}
		ops = append(ops, plan.Op{Op: "open", File: fi, Opener: opener})
		switch r.Intn(3) {
		case 0:
			ops = append(ops, plan.Op{Op: "readall", Obs: obs()})
		case 1:
			nt := len(f.Sheets) + 1
			for k := r.Range(1, 4); k > 0; k-- {
				t := r.Intn(3)
				ops = append(ops, plan.Op{Op: "get", T: t, Name: r.Intn(nt)})
				for j := r.Intn(4); j > 0; j-- {
					ops = append(ops, plan.Op{Op: "next", T: r.Intn(3), N: r.Range(1, 3)}, plan.Op{Op: r.Pick("obs", "hold"), T: t, Obs: obs()})
				}
				ops = append(ops, plan.Op{Op: "drain", T: t, Obs: obs()})
			}
		default:
			ops = append(ops, plan.Op{Op: "list"}, plan.Op{Op: "get", T: 1}, plan.Op{Op: "drain", T: 1, Obs: obs()})
		}
		if r.Pct(80) {
			ops = append(ops, plan.Op{Op: "close"})
		}
	}
	return
}

func makeP05(r *gen.Rand, thorough bool) *plan.Scenario {
	sc := &plan.Scenario{Prop: "P05", Seed: r.U64()>>16 | 1, Race: rt.RaceBuild}
	nt := r.PickInt(2, 2, 2, 3, 4)
	var mine [][]int
	for t := 0; t < nt; t++ {
		var l []int
		for k := r.PickInt(1, 1, 2); k > 0; k-- {
			f := pairFile(r, fmt.Sprintf("in/t%d%c", t, 'a'+len(l)))
			if r.P(6) {
				gen.AddDamage(r, &f)
			}
			l = append(l, len(sc.Files))
			sc.Files = append(sc.Files, f)
		}
		mine = append(mine, l)
	}
	faults := r.P(3)
	if !faults && r.P(3) {
		// the same files, opened by everybody
		var all []int
		for i := range sc.Files {
			all = append(all, i)
		}
		for t := range mine {
			mine[t] = all
		}
	}
	for t := 0; t < nt; t++ {
		sc.Tasks = append(sc.Tasks, threadOps(r, sc.Files, mine[t]))
	}
	if faults {
		for k := r.Range(1, 3); k > 0; k-- {
			f := scen.Fault{Op: r.Pick("open", "read", "read", "pread", "pread", "seek", "fstat", "close", "any"), Nth: r.Intn(12), Kind: hardKinds[r.Intn(len(hardKinds))], Path: sc.Files[r.Intn(len(sc.Files))].Path}
			if r.P(4) {
				f.Count = -1
			}
			sc.Kern.Faults = append(sc.Kern.Faults, f)
		}
	} else if r.P(2) {
		sc.Kern.Delivery = randDelivery(r, 200000)
	}
	sc.Sched = randSched(r, nt)
	sc.Pool = r.Pick("lifo", "lifo", "fifo", "random", "new")
	return sc
}

func sameTab(a, b *table) string {
	if (a == nil) != (b == nil) {
		return "a table in one case only"
	}
	if a == nil {
		return ""
	}
	if d := sameTable(a, b, "stf"); d != "" {
		return d
	}
	if len(a.Scans) != len(b.Scans) {
		return fmt.Sprintf("%d scanned rows instead of %d", len(a.Scans), len(b.Scans))
	}
	for i := range a.Scans {
		if a.Scans[i] != b.Scans[i] {
			return fmt.Sprintf("scan %d gives %.200q, not %.200q", i, a.Scans[i], b.Scans[i])
		}
	}
	if a.Cut != b.Cut {
		return "longer in one case"
	}
	return ""
}

// sameRec compares what one operation gave in two executions.
func sameRec(a, b *rec) string {
	say := func(what string, x, y any) string {
		return fmt.Sprintf("%s %s: %s %.300v, not %.300v", a.Op, a.Name, what, x, y)
	}
	switch {
	case a.Op != b.Op || a.Name != b.Name:
		return fmt.Sprintf("%s %q instead of %s %q", a.Op, a.Name, b.Op, b.Name)
	case a.Panic != b.Panic && (a.Panic == "" || b.Panic == ""):
		return say("panics:", fmt.Sprintf("%.500q", a.Panic), fmt.Sprintf("%.500q", b.Panic))
	case a.Hang != b.Hang:
		return say("hangs:", a.Hang, b.Hang)
	case a.Skip != b.Skip:
		return say("happens:", !a.Skip, !b.Skip)
	case a.IsErr != b.IsErr:
		return say("error", fmt.Sprintf("%q", a.Err), fmt.Sprintf("%q", b.Err))
	case a.Row != b.Row:
		return say("gives", a.Row, b.Row)
	case a.N != b.N || a.Bool != b.Bool || a.Pos != b.Pos:
		return say("count/more/position", fmt.Sprint(a.N, a.Bool, a.Pos), fmt.Sprint(b.N, b.Bool, b.Pos))
	case string(a.Data) != string(b.Data):
		return say("bytes", fmt.Sprintf("%.60x", a.Data), fmt.Sprintf("%.60x", b.Data))
	}
	if !a.IsErr {
		if d := sameNames(a.Names, b.Names); d != "" {
			return a.Op + ": " + d
		}
	}
	if d := sameTab(a.Tab, b.Tab); d != "" {
		return fmt.Sprintf("%s %s: %s", a.Op, a.Name, d)
	}
	return ""
}

func sameRecs(a, b []rec) string {
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("%d operations instead of %d", len(a), len(b))
		}
		if d := sameRec(&a[i], &b[i]); d != "" {
			return fmt.Sprintf("operation %d: %s", i, d)
		}
	}
	if len(a) != len(b) {
		return fmt.Sprintf("%d operations instead of %d", len(a), len(b))
	}
	return ""
}

func checkP05(e *env, o *plan.Outcome) *plan.Violation {
	sc := e.sc
	if len(sc.Tasks) < 1 || len(sc.Files) == 0 {
		o.Invalid = "shape"
		return nil
	}
	if sc.Kern.MaxFDs != 0 || sc.Limit != 0 {
		o.Invalid = "limits are shared by nature"
		return nil
	}
	// faults strike files of one task only, so that each task meets them alone too
	owner := map[string]int{}
	shared := map[string]bool{}
	for t, l := range sc.Tasks {
		for _, op := range l {
			switch op.Op {
			case "open", "cfbopen":
			case "damage", "shrink", "restore", "forget":
				o.Invalid = "operation"
				return nil
			default:
				continue
			}
			p := e.path(op.File)
			if w, ok := owner[p]; ok && w != t {
				shared[p] = true
			}
			owner[p] = t
		}
	}
	for _, f := range sc.Kern.Faults {
		if f.Path == "" || shared[f.Path] || f.Kind == "shrink" || f.Kind == "replace" {
			o.Invalid = "fault"
			return nil
		}
		for p := range owner {
			if p != f.Path && strings.HasSuffix(p, f.Path) {
				o.Invalid = "fault path"
				return nil
			}
		}
	}
	if len(sc.Kern.Faults) > 0 && (len(sc.Kern.Delivery.Chunks) > 0 || len(sc.Kern.Delivery.Eintr) > 0) {
		o.Invalid = "read sizes are not per task"
		return nil
	}
	e.maxTab = 3000
	if sc.Sched.Cap == 0 {
		sc.Sched.Cap = 150_000_000 * int64(len(sc.Tasks))
	}
	races := rt.RaceErrors()
	e.run()
	e.account(o)
	o.Trivial = len(sc.Tasks) < 2 || e.res.Switches < 3
	if n := rt.RaceErrors(); n > races {
		return viol("data race", "%d data races", n-races)
	}
	for t := range sc.Tasks {
		s := &env{sc: &plan.Scenario{Files: sc.Files, Kern: sc.Kern, Tasks: [][]plan.Op{sc.Tasks[t]}, Seed: sc.Seed}, data: e.data, names: e.names, maxTab: e.maxTab}
		resetPools(sc.Pool, sc.Seed)
		s.run()
		o.Runs++
		bad := false
		for i := range s.recs[0] {
			r := &s.recs[0][i]
			if r.Hang {
				return nil // not finishing alone is another property's business
			}
			if r.Panic != "" {
				bad = true
			}
			if r.IsErr {
				o.Probes["error in a thread"]++
			}
		}
		if bad {
			o.Probes["panic in a thread"]++
		}
		if d := sameRecs(e.recs[t], s.recs[0]); d != "" {
			return viol("cross-talk", "task %d with others, not alone: %s", t, d)
		}
		for _, h := range e.held[t] {
			for i := range h.copy {
				if h.slice[i] != h.copy[i] {
					return viol("cross-talk", "task %d: a row it holds changed from %q to %q", t, h.copy[i], h.slice[i])
				}
			}
		}
	}
	if e.res.Status == "deadlock" && e.res.MainLeft > 0 {
		return viol("deadlock", "no task can proceed: %s", e.res.Waiting)
	}
	return nil
}
