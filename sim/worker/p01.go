package main

import (
	"verif.local/sim/gen"
	"verif.local/sim/plan"
	"verif.local/sim/scen"
)

func init() { properties["P01"] = &property{makeP01, checkP01} }

func randSize(r *gen.Rand) int {
	switch k := r.Intn(20); {
	case k < 5:
		return gen.Tiny
	case k < 14:
		return gen.Small
	case k < 19:
		return gen.Medium
	}
	return gen.Large
}

func makeP01(r *gen.Rand, thorough bool) *plan.Scenario {
	sc := &plan.Scenario{Prop: "P01", Seed: r.U64()>>16 | 1}
	var f gen.FileSpec
	if r.P(25) {
		f = corpusFile(r, "in/", "xls", "xlsx", "tsv")
	} else {
		f = gen.RandFile(r, "in/file", randSize(r), "xls", "xls", "xls", "xlsx", "xlsx", "xlsx", "csv", "tsv")
	}
	if r.P(25) {
		gen.AtEdge(r, &f)
	}
	if r.P(40) {
		gen.Scale(r, &f)
	}
	sc.Files = []gen.FileSpec{f}
	size := 10000
	if b, err := f.Bytes(); err == nil {
		size = len(b)
	}
	sc.Kern.Delivery = randDelivery(r, size)
	for k := r.Intn(3); k > 0; k-- {
		sc.Kern.Faults = append(sc.Kern.Faults, randSoftFault(r))
	}
	sc.Tasks = [][]plan.Op{readOps(r, &f, openerFor(r, &f), len(f.Sheets))}
	return sc
}

// randSoftFault is something the reader has to cope with unnoticed.
func randSoftFault(r *gen.Rand) scen.Fault {
	op := r.Pick("read", "read", "pread", "open", "any")
	nth := r.Intn(6)
	if r.P(2) {
		nth = r.Intn(60)
	}
	switch r.Intn(3) {
	case 0:
		if op != "read" && op != "pread" {
			op = "read"
		}
		return scen.Fault{Op: op, Nth: nth, Count: r.Range(1, 3), Kind: "short", Arg: int64(r.PickInt(1, 2, 3, 5, 8, 100, 511, 513))}
	case 1:
		if op == "any" {
			op = "read"
		}
		return scen.Fault{Op: op, Nth: nth, Count: r.Range(1, 5), Kind: "EINTR"}
	}
	kind := "jump"
	if r.P(3) {
		kind = "stall"
	}
	return scen.Fault{Op: op, Nth: nth, Kind: kind, Arg: int64(r.Intn(1000)) * 3600_000_000_000}
}

// readOps reads a whole file, in one of several ways.
func readOps(r *gen.Rand, f *gen.FileSpec, opener string, nt int) (ops []plan.Op) {
	ops = append(ops, plan.Op{Op: "open", Opener: opener})
	switch r.Intn(3) {
	case 0:
		// by name, in any order, hidden ones too
		for _, k := range r.Perm(nt) {
			ops = append(ops, plan.Op{Op: "get", Name: k}, plan.Op{Op: "drain", Obs: "st"})
		}
		ops = append(ops, plan.Op{Op: "list"})
	case 1:
		// all fetched, then read backwards
		for k := 0; k < nt && k < 30; k++ {
			ops = append(ops, plan.Op{Op: "get", T: k, Name: k})
		}
		for k := nt - 1; k >= 0; k-- {
			if k < 30 {
				ops = append(ops, plan.Op{Op: "drain", T: k, Obs: "st"})
			}
		}
		ops = append(ops, plan.Op{Op: "readall", Obs: "st"})
	default:
		ops = append(ops, plan.Op{Op: "readall", Obs: "st"})
	}
	return append(ops, plan.Op{Op: "close"})
}

func checkP01(e *env, o *plan.Outcome) *plan.Violation {
	if len(e.sc.Files) != 1 || len(e.sc.Tasks) != 1 || len(e.sc.Tasks[0]) == 0 || e.sc.Tasks[0][0].Op != "open" || e.sc.Tasks[0][0].File != 0 || e.sc.Files[0].Damaged() {
		o.Invalid = "shape"
		return nil
	}
	op := &e.sc.Tasks[0][0]
	if k := kindOf(&e.sc.Files[0]); (op.Opener != "" && op.Opener != k) || (k == "csv" && op.Opener == "") || k == "raw" || k == "cfb" {
		o.Invalid = "opener"
		return nil
	}
	for _, f := range e.sc.Kern.Faults {
		if f.Kind != "short" && f.Kind != "EINTR" && f.Kind != "jump" && f.Kind != "stall" {
			o.Invalid = "not a soft fault"
			return nil
		}
	}
	t := truthOf(e, 0, op.Opener)
	if t.base != nil && t.base.IsErr {
		return viol("refused", "%s is refused: %s", e.sc.Files[0].Path, t.base.Err)
	}
	e.run()
	e.account(o)
	o.Trivial = len(o.Faults) == 0 && e.sc.Files[0].XLS == nil && e.sc.Files[0].XLSX == nil
	if v := e.crashed(); v != nil {
		return v
	}
	l := e.recs[0]
	for i := range l {
		r := &l[i]
		if r.Skip {
			continue
		}
		switch r.Op {
		case "open", "get", "list", "close":
			if r.IsErr {
				return viol(r.Op+" fails", "%s %s fails on a valid file: %s", r.Op, r.Name, r.Err)
			}
			if r.Op == "list" {
				if d := sameNames(r.Names, t.names); d != "" {
					return viol("names", "%s", d)
				}
				if r.Row != t.hid && kindOf(&e.sc.Files[r.File]) == "xls" {
					return viol("hidden names", "%q are listed as hidden, not %q", r.Row, t.hid)
				}
			}
		case "drain":
			g := getOf(l, i)
			if g == nil {
				continue
			}
			if d := t.table(g.Name, r.Tab, r.Obs); d != "" {
				return viol("data", "table %q: %s", g.Name, d)
			}
		}
	}
	return nil
}
