package main

import (
	"strings"

	"verif.local/sim/gen"
	"verif.local/sim/plan"
	"verif.local/sim/rt"
	"verif.local/sim/scen"
)

func init() {
	properties["P03"] = &property{makeP03, checkP03}
	properties["P04"] = &property{makeP04, checkP04}
}

func makeP03(r *gen.Rand, thorough bool) *plan.Scenario {
	sc := &plan.Scenario{Prop: "P03", Seed: r.U64()>>16 | 1}
	var f gen.FileSpec
	switch {
	case r.P(12):
		f = corpusFile(r, "in/", "xls", "xls", "xlsx", "tsv")
	default:
		f = gen.RandOdd(r, "in/file", r.Intn(3), "xls", "xls", "xls", "xls", "xlsx", "xlsx", "xlsx", "csv", "tsv")
	}
	if (f.Kind == "xls" || f.Kind == "xlsx") && r.P(60) {
		f.Sheets = nil
	}
	inner := f.Kind == "xls" && len(f.Sheets) > 0 && r.P(3)
	if inner {
		// one record, which may well be reached
		gen.AddInner(r, &f)
	} else {
		for k := r.PickInt(1, 1, 1, 2, 2, 3, 5); k > 0; k-- {
			gen.AddWild(r, &f)
		}
	}
	sc.Files = []gen.FileSpec{f}
	opener := ""
	if r.P(2) {
		opener = kindOf(&f)
	}
	if r.P(10) {
		opener = r.Pick("xls", "xlsx", "csv", "tsv")
	}
	if kindOf(&f) == "xls" && !inner && r.P(4) {
		ops := []plan.Op{{Op: "cfbopen"}, {Op: "cfblist"}, {Op: "stream", T: 0}}
		for k := r.Range(1, 6); k > 0; k-- {
			if r.P(2) {
				ops = append(ops, plan.Op{Op: "sread", N: r.PickInt(0, 1, 64, 512, 5000)})
			} else {
				ops = append(ops, plan.Op{Op: "sseek", N: r.PickInt(0, 1, -1, 512, 100000, -600), W: r.Intn(3)})
			}
		}
		sc.Tasks = [][]plan.Op{ops}
	} else {
		ops := []plan.Op{{Op: "open", Opener: opener}}
		if r.P(3) {
			// damaged further while it is open
			g := f
			g.Damage = nil
			gen.AddWild(r, &g)
			if len(g.Damage) > 0 {
				ops = append(ops, plan.Op{Op: "damage", Dmg: &g.Damage[0]})
			}
		}
		ops = append(ops, plan.Op{Op: "readall", Obs: r.Pick("stf", allObs, allObs, "sc", "k")})
		for k := r.Intn(3); k > 0; k-- {
			ops = append(ops, plan.Op{Op: "get", Name: r.Intn(4) - 1}, plan.Op{Op: "drain", Obs: allObs})
		}
		if r.P(2) {
			ops = append(ops, plan.Op{Op: "close"}, plan.Op{Op: "get", Name: 0}, plan.Op{Op: "list"}, plan.Op{Op: "drain", Obs: "s"})
		}
		sc.Tasks = [][]plan.Op{ops}
	}
	if r.P(5) {
		sc.Kern.Delivery = randDelivery(r, 200000)
	}
	if r.P(6) {
		prof, size := profile(&plan.Scenario{Prop: "P03", Files: sc.Files, Tasks: sc.Tasks, Limit: 256 << 20, Sched: scen.Sched{Cap: 300_000_000}})
		if r.P(2) {
			sc.Kern.Faults = append(sc.Kern.Faults, scen.Fault{Op: r.Pick("read", "pread"), Nth: r.Intn(int(prof["read"]+prof["pread"]) + 1), Kind: "shrink", Arg: int64(r.Intn(size + 1))})
		} else {
			sc.Kern.Faults = append(sc.Kern.Faults, randHardFault(r, prof, "read", "pread", "seek", "open"))
		}
	}
	return sc
}

// budgets: generous multiples of what undamaged files of the size need.
func stepBudget(size int) int64  { return 150_000_000 + 4000*int64(size) }
func allocBudget(size int) int64 { return 192<<20 + 400*int64(size) }

func checkP03(e *env, o *plan.Outcome) *plan.Violation {
	sc := e.sc
	if len(sc.Tasks) != 1 || len(sc.Files) != 1 {
		o.Invalid = "shape"
		return nil
	}
	size := len(e.data[0])
	sc.Sched.Cap = stepBudget(size)
	sc.Limit = allocBudget(size)
	e.maxTab = 200_000
	e.run()
	e.account(o)
	l := e.recs[0]
	if len(l) > 0 && (l[0].Op == "open" || l[0].Op == "cfbopen") {
		if l[0].IsErr {
			o.Probes["refused at open"]++
		} else {
			o.Probes["opened in spite of damage"]++
		}
	}
	for i := range l {
		if l[i].Op == "get" && l[i].IsErr {
			o.Probes["table refused"]++
		}
		if l[i].Op == "drain" && l[i].Tab != nil {
			o.Probes["table read"]++
			if l[i].Tab.Cut {
				o.Probes["table larger than observed"]++
			}
		}
	}
	return e.crashed()
}

func makeP04(r *gen.Rand, thorough bool) *plan.Scenario {
	sc := &plan.Scenario{Prop: "P04", Seed: r.U64()>>16 | 1}
	var f gen.FileSpec
	if r.P(15) {
		f = corpusFile(r, "in/", "xls", "xlsx")
	} else {
		f = gen.RandFile(r, "in/file", r.Intn(3), "xls", "xlsx")
	}
	b, err := f.Build()
	if err != nil {
		panic(err)
	}
	k := kindOf(&f)
	n := len(b.Data)
	lo := 8
	if k == "xlsx" {
		lo = 4
	}
	cut := func() int {
		at := 0
		switch r.Intn(7) {
		case 0:
			at = lo + r.Intn(n-lo)
		case 1:
			at = r.Intn(n) / 512 * 512
		case 2:
			at = lo + r.Intn(600)
		case 3:
			at = n - 1 - r.Intn(700)
		case 4, 5:
			if len(b.Marks) > 0 {
				m := b.Marks[r.Intn(len(b.Marks))]
				at = m.Off + r.PickInt(0, m.Len, m.Len/2, 1, 4)
			}
		case 6:
			// power-of-two and buffer sizes
			at = r.PickInt(16, 24, 64, 511, 512, 513, 1024, 1536, 2048, 4096, 8192, 32768, 65536)
		}
		if at < lo {
			at = lo
		}
		if at >= n {
			at = n - 1
		}
		return at
	}
	opener := r.Pick("", "", k)
	sc.Files = []gen.FileSpec{f}
	read := func() (ops []plan.Op) {
		if r.P(3) {
			nt := len(f.Sheets)
			for _, i := range r.Perm(nt) {
				ops = append(ops, plan.Op{Op: "get", Name: i}, plan.Op{Op: "drain", Obs: "st"})
			}
			ops = append(ops, plan.Op{Op: "list"})
			return
		}
		return []plan.Op{{Op: "readall", Obs: "st"}}
	}
	open := plan.Op{Op: "open", Opener: opener}
	var ops []plan.Op
	switch r.Intn(6) {
	case 0, 1, 2:
		sc.Mode = "cut"
		ops = append(ops, plan.Op{Op: "shrink", N: cut()}, open)
		ops = append(ops, read()...)
	case 3:
		sc.Mode = "shrinks"
		// at some moment during the work
		ops = append(ops, open)
		ops = append(ops, read()...)
		ops = append(ops, read()...)
		sc.Tasks = [][]plan.Op{ops}
		prof, _ := profile(sc)
		op := r.Pick("read", "pread", "seek", "fstat")
		if k == "xlsx" {
			op = r.Pick("read", "pread", "pread", "pread")
		}
		sc.Kern.Faults = []scen.Fault{{Op: op, Nth: r.Intn(int(prof[op]) + 1), Kind: "shrink", Arg: int64(cut())}}
	case 4:
		sc.Mode = "shrinks"
		ops = append(ops, open)
		if r.P(2) {
			ops = append(ops, plan.Op{Op: "list"})
		}
		ops = append(ops, plan.Op{Op: "shrink", N: cut()})
		ops = append(ops, read()...)
		ops = append(ops, read()...)
	default:
		sc.Mode = "torn"
		if k != "xlsx" || len(b.Marks) == 0 {
			sc.Mode = "cut"
			ops = append(ops, plan.Op{Op: "shrink", N: cut()}, open)
			ops = append(ops, read()...)
			break
		}
		var parts []gen.Mark
		for _, m := range b.Marks {
			if len(m.What) > 5 && m.What[:5] == "part " && m.Len > 0 {
				parts = append(parts, m)
			}
		}
		m := parts[r.Intn(len(parts))]
		if r.P(3) {
			// the shared strings
			for k := 0; k < 20 && !strings.Contains(m.What, "hared"); k++ {
				m = parts[r.Intn(len(parts))]
			}
		}
		d := gen.Damage{At: m.Off + r.Intn(m.Len)}
		switch r.Intn(5) {
		case 0:
			d.Op, d.Val = "flip", uint32(r.Intn(8))
		case 1:
			d.Op, d.Len = "zero", r.PickInt(1, 16, 512)
		case 2:
			d.Op, d.Len, d.Val = "fill", r.PickInt(1, 4, 64), uint32(r.Intn(256))
		case 3:
			p2 := parts[r.Intn(len(parts))]
			d.Op, d.From, d.Len = "copy", p2.Off+r.Intn(p2.Len), r.PickInt(4, 64, 512)
		case 4:
			d.Op, d.Len, d.Val = "set", 1, uint32('0'+r.Intn(10))
			if r.P(2) {
				// something which is text still
				d.Op, d.Len, d.Val = r.Pick("fill", "set"), r.PickInt(1, 1, 2), uint32('a'+r.Intn(26))
				for k := 0; k < 200; k++ {
					at := m.Off + r.Intn(m.Len)
					if c := b.Data[at]; c >= 'a' && c <= 'z' || c >= '0' && c <= '9' {
						d.At = at
						if r.P(3) || b.Data[at-1] == '>' {
							break
						}
					}
				}
			}
		}
		// only this part's content is hit
		if d.Len > m.Off+m.Len-d.At {
			d.Len = m.Off + m.Len - d.At
		}
		if r.P(3) {
			ops = append(ops, open, plan.Op{Op: "damage", Dmg: &d})
		} else {
			ops = append(ops, plan.Op{Op: "damage", Dmg: &d}, open)
		}
		ops = append(ops, read()...)
	}
	if r.P(4) {
		ops = append(ops, plan.Op{Op: "close"})
	}
	sc.Tasks = [][]plan.Op{ops}
	if r.P(3) {
		sc.Kern.Delivery = randDelivery(r, n)
	}
	return sc
}

func checkP04(e *env, o *plan.Outcome) *plan.Violation {
	sc := e.sc
	if len(sc.Files) != 1 || len(sc.Tasks) != 1 || sc.Files[0].Damaged() {
		o.Invalid = "shape"
		return nil
	}
	k := kindOf(&sc.Files[0])
	lo := 8
	switch k {
	case "xls":
	case "xlsx":
		lo = 4
	default:
		o.Invalid = "kind"
		return nil
	}
	opener := ""
	for _, op := range sc.Tasks[0] {
		switch op.Op {
		case "open":
			opener = op.Opener
			if opener != "" && opener != k {
				o.Invalid = "opener"
				return nil
			}
		case "shrink":
			if op.N < lo {
				o.Invalid = "cut too short"
				return nil
			}
		case "damage":
			if sc.Mode != "torn" || op.Dmg == nil || k != "xlsx" || !insidePart(&sc.Files[0], op.Dmg) {
				o.Invalid = "damage"
				return nil
			}
		}
		if op.File != 0 {
			o.Invalid = "file"
			return nil
		}
	}
	for _, f := range sc.Kern.Faults {
		if f.Kind != "shrink" || int(f.Arg) < lo {
			o.Invalid = "fault"
			return nil
		}
	}
	t := truthOf(e, 0, opener)
	e.run()
	e.account(o)
	if v := e.crashed(); v != nil {
		return v
	}
	l := e.recs[0]
	for i := range l {
		r := &l[i]
		if r.Skip {
			continue
		}
		switch r.Op {
		case "open":
			if r.IsErr {
				o.Probes["refused at open"]++
			} else {
				o.Probes["opened"]++
			}
		case "list":
			if !r.IsErr {
				if d := sameNames(r.Names, t.names); d != "" {
					return viol("names", "%s", d)
				}
			}
		case "get":
			if r.IsErr {
				o.Probes["table refused"]++
			} else {
				o.Probes["table delivered"]++
			}
		case "drain":
			g := getOf(l, i)
			if g == nil || g.IsErr {
				continue
			}
			if d := t.table(g.Name, r.Tab, r.Obs); d != "" {
				return viol("data", "table %q: %s", g.Name, d)
			}
		}
	}
	o.Trivial = rt.FaultCounts()["none"] > 0
	return nil
}

// insidePart: the damage hits only the packed content of one part and keeps the length.
func insidePart(f *gen.FileSpec, d *gen.Damage) bool {
	b, err := f.Build()
	if err != nil {
		return false
	}
	switch d.Op {
	case "flip", "zero", "fill", "copy", "set":
	default:
		return false
	}
	n := d.Len
	if d.Op == "flip" {
		n = 1
	}
	for _, m := range b.Marks {
		if len(m.What) > 5 && m.What[:5] == "part " && d.At >= m.Off && d.At+n <= m.Off+m.Len {
			return true
		}
	}
	return false
}
