package main

import (
	"strconv"
	"strings"

	"verif.local/sim/gen"
	"verif.local/sim/plan"
	"verif.local/sim/rt"
	"verif.local/sim/scen"
)

func init() {
	properties["P02"] = &property{makeP02, checkP02}
	properties["P06"] = &property{makeP06, checkP06}
}

// profile counts the system calls of an undisturbed run.
func profile(sc *plan.Scenario) (map[string]int64, int) {
	e, err := prepare(sc.Clone())
	if err != nil {
		return nil, 0
	}
	k := e.sc.Kern
	k.Faults, k.MaxFDs = nil, 0
	e.maxTab = 20000
	e.sc.Kern = k
	e.run()
	size := 0
	for _, d := range e.data {
		size += len(d)
	}
	return rt.OpCounts(), size
}

var hardKinds = []string{"EIO", "EIO", "EIO", "EACCES", "ESTALE", "ENOMEM", "EINVAL", "ETIMEDOUT", "EPERM", "ENXIO", "EBADF", "EISDIR"}

// randHardFault places a failure among the calls which were seen to happen.
func randHardFault(r *gen.Rand, prof map[string]int64, ops ...string) scen.Fault {
	f := scen.Fault{Op: ops[r.Intn(len(ops))]}
	for try := 0; try < 10 && prof[f.Op] == 0 && f.Op != "any"; try++ {
		f.Op = ops[r.Intn(len(ops))]
	}
	n := int(prof[f.Op])
	if f.Op == "any" {
		n = 0
		for _, v := range prof {
			n += int(v)
		}
	}
	switch r.Intn(3) {
	case 0:
		f.Nth = r.Intn(n + 1)
	case 1:
		f.Nth = r.Intn(8)
	default:
		f.Nth = n - 1 - r.Intn(6)
	}
	if f.Nth < 0 {
		f.Nth = 0
	}
	switch r.Intn(6) {
	case 0:
		f.Count = r.Range(2, 6)
	case 1:
		f.Count = -1
	}
	f.Kind = hardKinds[r.Intn(len(hardKinds))]
	if f.Op == "open" && r.P(2) {
		f.Kind = r.Pick("EMFILE", "ENFILE", "EACCES", "ELOOP", "ENAMETOOLONG", "ENOENT")
	}
	return f
}

func makeP02(r *gen.Rand, thorough bool) *plan.Scenario {
	sc := &plan.Scenario{Prop: "P02", Seed: r.U64()>>16 | 1}
	var f gen.FileSpec
	switch {
	case r.P(25):
		f = corpusFile(r, "in/", "xls", "xlsx", "tsv")
	case r.P(12):
		f = mixedText(r, "in/file.txt")
	default:
		f = gen.RandOdd(r, "in/file", r.Intn(3), "xls", "xls", "xlsx", "xlsx", "xlsx", "csv", "tsv")
	}
	sc.Files = []gen.FileSpec{f}
	size := 10000
	if b, err := f.Bytes(); err == nil {
		size = len(b)
	}
	if r.Pct(60) {
		sc.Kern.Delivery = randDelivery(r, size)
	}
	op := openerFor(r, &f)
	if f.Kind == "raw" {
		op = r.Pick("", "", "csv", "tsv")
	}
	nt := len(f.Sheets)
	one := func() []plan.Op {
		ops := []plan.Op{{Op: "open", Opener: op}}
		if r.P(3) && kindOf(&f) == "xls" {
			ops = append(ops, plan.Op{Op: "cfbopen", S: 5})
		}
		if r.P(2) || f.Kind == "raw" {
			ops = append(ops, plan.Op{Op: "readall", Obs: "st"})
		} else {
			for _, k := range r.Perm(nt) {
				ops = append(ops, plan.Op{Op: "get", Name: k, T: k % 32}, plan.Op{Op: "drain", T: k % 32, Obs: "st"})
			}
			ops = append(ops, plan.Op{Op: "list"})
		}
		// and again, now that the failure may have passed
		for k := r.Intn(3); k > 0; k-- {
			ops = append(ops, plan.Op{Op: "readall", Obs: "st"})
		}
		return append(ops, plan.Op{Op: "close"})
	}
	ops := one()
	for k := r.Intn(3); k > 0; k-- {
		ops = append(ops, one()...)
	}
	sc.Tasks = [][]plan.Op{ops}
	prof, _ := profile(sc)
	for k := r.Range(1, 2); k > 0; k-- {
		sc.Kern.Faults = append(sc.Kern.Faults, randHardFault(r, prof, "open", "read", "read", "read", "pread", "pread", "pread", "seek", "seek", "fstat", "stat", "any"))
	}
	if r.P(4) {
		sc.Kern.Faults = append(sc.Kern.Faults, randSoftFault(r))
	}
	return sc
}

// strict: a failure of one of these has to surface in the call it hits.
// Bytes from unused on (behind the directory of an archive) are only ever
// read ahead, so that nothing depends on them.
func strictFailure(fails []string, unused int64) string {
	for _, f := range fails {
		switch op, _, _ := strings.Cut(f, " "); op {
		case "pread":
			if _, at, ok := strings.Cut(f, " @"); ok && unused > 0 {
				if n, err := strconv.ParseInt(at, 10, 64); err == nil && n >= unused {
					continue
				}
			}
			return f
		case "open", "read", "seek":
			return f
		}
	}
	return ""
}

// readAhead is where the part of an archive starts which no reader needs: the
// directory is read until something else follows, and that is recognised after
// at most one more entry's header.
func readAhead(f *gen.FileSpec) int64 {
	if f.Kind != "xlsx" {
		return 0
	}
	b, err := f.Build()
	if err != nil {
		return 0
	}
	for _, m := range b.Marks {
		if m.What == "end" {
			return int64(m.Off) + 46
		}
	}
	return 0
}

func checkP02(e *env, o *plan.Outcome) *plan.Violation {
	sc := e.sc
	if len(sc.Files) != 1 || len(sc.Tasks) != 1 || sc.Files[0].Damaged() {
		o.Invalid = "shape"
		return nil
	}
	k := kindOf(&sc.Files[0])
	opener := ""
	for _, op := range sc.Tasks[0] {
		if op.File != 0 || (op.Op == "cfbopen" && k != "xls") || op.Op == "damage" || op.Op == "shrink" {
			o.Invalid = "operation"
			return nil
		}
		if op.Op == "open" {
			opener = op.Opener
			if (opener != "" && opener != k && !(k == "raw" && (opener == "csv" || opener == "tsv"))) || (k == "csv" && opener == "") || k == "cfb" {
				o.Invalid = "opener"
				return nil
			}
		}
	}
	for _, f := range sc.Kern.Faults {
		if f.Kind == "shrink" || f.Kind == "replace" {
			o.Invalid = "fault"
			return nil
		}
	}
	t := truthOf(e, 0, opener)
	refused := t.base != nil && t.base.IsErr // no format wants it
	unused := readAhead(&sc.Files[0])
	e.run()
	e.account(o)
	if v := e.crashed(); v != nil {
		return v
	}
	l := e.recs[0]
	var hard int64
	o.Trivial = true
	for i := range l {
		r := &l[i]
		if r.Skip {
			continue
		}
		hard += r.Hard
		if hard > 0 {
			o.Trivial = false
		}
		switch r.Op {
		case "open", "get", "list", "cfbopen":
			if s := strictFailure(r.Fail, unused); s != "" {
				o.Probes["failure during "+r.Op]++
				if !r.IsErr {
					return viol("swallowed", "%s %s succeeds although %q failed during the call", r.Op, r.Name, s)
				}
				if r.NotIn && r.Op == "open" && r.Name != "" {
					return viol("disguised", "%s open answers %q although %q failed", r.Name, r.Err, s)
				}
			}
			if r.IsErr && hard == 0 && !refused {
				return viol("spurious", "%s %s fails and nothing had failed: %s", r.Op, r.Name, r.Err)
			}
			if r.Op == "list" && !r.IsErr {
				if d := sameNames(r.Names, t.names); d != "" {
					return viol("names", "%s", d)
				}
			}
			if r.Op == "get" && !r.IsErr && hard > 0 {
				o.Probes["get succeeds after a failure"]++
			}
			if r.Op == "open" && !r.IsErr && hard > 0 {
				o.Probes["open succeeds after a failure"]++
			}
		case "drain":
			g := getOf(l, i)
			if g == nil || g.IsErr {
				continue
			}
			if d := t.table(g.Name, r.Tab, r.Obs); d != "" {
				return viol("data", "table %q: %s", g.Name, d)
			}
		}
	}
	return nil
}

func makeP06(r *gen.Rand, thorough bool) *plan.Scenario {
	sc := &plan.Scenario{Prop: "P06", Seed: r.U64()>>16 | 1}
	nf := r.Range(1, 3)
	for i := 0; i < nf; i++ {
		f := randAny(r, "in/"+string(rune('a'+i)), r.Intn(2))
		if (f.Kind == "xls" || f.Kind == "xlsx") && r.P(20) {
			f.Sheets = nil
		}
		if r.Pct(50) {
			for k := r.Range(1, 2); k > 0; k-- {
				gen.AddDamage(r, &f)
			}
		}
		sc.Files = append(sc.Files, f)
	}
	var ops []plan.Op
	cycle := func(s int) {
		file := r.Intn(nf + 1)
		if r.Pct(85) {
			file = r.Intn(nf)
		}
		opener := ""
		if r.P(3) {
			opener = r.Pick("xls", "xlsx", "csv", "tsv")
		} else if file < nf && r.P(3) {
			opener = openerFor(r, &sc.Files[file])
		}
		if r.P(12) {
			ops = append(ops, plan.Op{Op: "cfbopen", S: s + 8, File: file})
			return
		}
		ops = append(ops, plan.Op{Op: "open", S: s, File: file, Opener: opener})
		switch r.Intn(4) {
		case 0:
			ops = append(ops, plan.Op{Op: "readall", S: s, Obs: "s", N: 4})
		case 1:
			ops = append(ops, plan.Op{Op: "get", S: s, T: s, Name: r.Intn(3) - 1}, plan.Op{Op: "next", T: s, N: 2})
		case 2:
			ops = append(ops, plan.Op{Op: "list", S: s})
		}
	}
	for k := r.Range(1, 8); k > 0; k-- {
		if r.P(4) {
			cycle(0)
			cycle(1)
			if r.P(2) {
				ops = append(ops, plan.Op{Op: "close", S: 0}, plan.Op{Op: "close", S: 1})
			} else {
				ops = append(ops, plan.Op{Op: "close", S: 1}, plan.Op{Op: "close", S: 0})
			}
		} else {
			cycle(0)
			ops = append(ops, plan.Op{Op: "close", S: 0})
			if r.P(6) {
				ops = append(ops, plan.Op{Op: "get", S: 0}, plan.Op{Op: "close", S: 0})
			}
		}
	}
	sc.Tasks = [][]plan.Op{ops}
	if r.P(3) {
		sc.Kern.MaxFDs = r.Range(1, 5)
	}
	if r.P(3) {
		sc.Kern.Delivery = randDelivery(r, 200000)
	}
	prof, _ := profile(sc)
	for k := r.Intn(4); k > 0; k-- {
		sc.Kern.Faults = append(sc.Kern.Faults, randHardFault(r, prof, "open", "read", "read", "pread", "pread", "seek", "fstat", "stat", "close", "close", "any"))
	}
	sc.Limit = 1 << 30
	return sc
}

func checkP06(e *env, o *plan.Outcome) *plan.Violation {
	sc := e.sc
	if len(sc.Tasks) != 1 || len(sc.Files) == 0 {
		o.Invalid = "shape"
		return nil
	}
	live := map[int]bool{}
	for _, op := range sc.Tasks[0] {
		if op.Op == "open" {
			if live[op.S] {
				o.Invalid = "source dropped without closing it"
				return nil
			}
			live[op.S] = true
		}
		if op.Op == "close" {
			live[op.S] = false
		}
		if op.Op == "forget" {
			o.Invalid = "operation"
			return nil
		}
	}
	e.maxTab = 20000
	e.run()
	e.account(o)
	// panics and hangs belong to other properties; a task which can never go on belongs here
	if e.res.Status == "deadlock" {
		return viol("task", "a background task waits forever: %s", e.res.Waiting)
	}
	held := map[int]int{} // descriptors attributed to each source
	before := 0
	o.Trivial = true
	for i := range e.recs[0] {
		r := &e.recs[0][i]
		if r.Skip {
			continue
		}
		if r.Panic != "" {
			return nil
		}
		d := r.FDs - before
		before = r.FDsLater
		if r.Alive > 1 && (r.Op == "close" || (r.IsErr && (r.Op == "open" || r.Op == "cfbopen"))) {
			return viol("task", "%d background tasks run on after %s", r.Alive-1, r.Op)
		}
		switch r.Op {
		case "cfbopen":
			if d != 0 {
				return viol("descriptor", "cfb.Open (error: %v) keeps %d descriptors", r.IsErr, d)
			}
			o.Trivial = false
		case "open":
			held[r.S] += d
			if r.IsErr {
				o.Trivial = false
				o.Probes["failed open"]++
				if held[r.S] != 0 {
					return viol("descriptor", "open (%s) of %s failed (%s) and keeps %d descriptors", r.Name, e.path(r.File), r.Err, held[r.S])
				}
			}
		case "close":
			held[r.S] += d
			o.Trivial = false
			if r.Hard > 0 {
				o.Probes["failed close"]++
			}
			if held[r.S] != 0 {
				return viol("descriptor", "after close (error: %v) of %s %d descriptors are held", r.IsErr, e.path(r.File), held[r.S])
			}
		default:
			held[r.S] += d
		}
	}
	return nil
}

// randAny is a random file, rarely from the corpus.
func randAny(r *gen.Rand, path string, size int) gen.FileSpec {
	if r.P(20) {
		f := corpusFile(r, "", "xls", "xlsx", "tsv")
		f.Path = path + "." + kindOf(&f)
		return f
	}
	if r.P(25) {
		return mixedText(r, path+".txt")
	}
	return gen.RandOdd(r, path, size, "xls", "xls", "xlsx", "xlsx", "csv", "tsv")
}
