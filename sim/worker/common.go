package main

import (
	"fmt"
	"hash/fnv"
	"strings"

	"verif.local/sim/gen"
	"verif.local/sim/plan"
	"verif.local/sim/rt"
)

type property struct {
	make  func(r *gen.Rand, thorough bool) *plan.Scenario
	check func(e *env, o *plan.Outcome) *plan.Violation
}

var properties = map[string]*property{}

func viol(class, format string, args ...any) *plan.Violation {
	m := fmt.Sprintf(format, args...)
	if len(m) > 1500 {
		m = m[:1500] + "..."
	}
	return &plan.Violation{Class: class, Msg: m}
}

// evaluate runs one explicit scenario and judges it.
func evaluate(sc *plan.Scenario) (o *plan.Outcome) {
	o = &plan.Outcome{Index: sc.Index, Faults: map[string]int64{}, Probes: map[string]int64{}}
	if err := sc.Check(); err != nil {
		o.Invalid = err.Error()
		return
	}
	e, err := prepare(sc)
	if err != nil {
		o.Invalid = err.Error()
		return
	}
	resetPools(sc.Pool, sc.Seed)
	o.V = properties[sc.Prop].check(e, o)
	return
}

// account adds a finished run to the outcome.
func (e *env) account(o *plan.Outcome) {
	o.Runs++
	o.Steps += e.res.Steps
	o.SimNS += rt.Clock()
	o.Sys += rt.SysCalls()
	o.Sw += e.res.Switches
	o.Status = e.res.Status
	o.Inter = o.Inter*31 + e.res.Hash
	for k, v := range rt.FaultCounts() {
		o.Faults[k] += v
	}
	h := fnv.New64a()
	for _, d := range e.data {
		h.Write(d)
		h.Write([]byte{0})
	}
	d := e.digest()
	o.Key = o.Key*31 + (rt.IOHash() ^ h.Sum64() ^ e.res.Hash*7 ^ d*13)
	o.Digest = o.Digest*31 + d
	if e.res.Points != nil && len(e.sc.Tasks) > 1 {
		o.Points = e.res.Points
	}
}

// base is what a source delivers on its own, undisturbed.
type base struct {
	IsErr bool
	Err   string
	Impl  string
	Names []string
	Hid   string // hidden tables
	Tabs  map[string]*table
}

const allObs = "stfckixmw"

// scanObs are the observers of allObs whose answers are kept as scans.
const scanObs = "ckixmw"

// baseline reads a file alone with all observers.
func baseline(e *env, file int, opener string) *base {
	b := &base{Tabs: map[string]*table{}}
	ops := []plan.Op{{Op: "open", File: file, Opener: opener}, {Op: "readall", Obs: allObs}}
	for k := range e.names[file] {
		ops = append(ops, plan.Op{Op: "get", Name: k}, plan.Op{Op: "drain", Obs: allObs})
	}
	ops = append(ops, plan.Op{Op: "close"})
	recs := solo(e, ops)
	for i := range recs {
		r := &recs[i]
		if r.Skip {
			continue
		}
		if r.Panic != "" {
			b.IsErr, b.Err = true, "panic: "+r.Panic
			return b
		}
		switch r.Op {
		case "open":
			b.IsErr, b.Err, b.Impl = r.IsErr, r.Err, r.Row
			if r.IsErr {
				return b
			}
		case "list":
			b.Names, b.Hid = r.Names, r.Row
		case "drain":
			if i > 0 && recs[i-1].Op == "get" && !recs[i-1].IsErr {
				if b.Tabs[recs[i-1].Name] == nil {
					r.Tab.Name = recs[i-1].Name
					b.Tabs[recs[i-1].Name] = r.Tab
				}
			}
		}
	}
	return b
}

func quoteRow(r []string) string {
	s := fmt.Sprintf("%.300q", strings.Join(r, "|"))
	return s
}

func sameRows(what string, got, want [][]string) string {
	for i := range got {
		if i >= len(want) {
			return fmt.Sprintf("%s: row %d is not stored: %s", what, i, quoteRow(got[i]))
		}
		if len(got[i]) != len(want[i]) {
			return fmt.Sprintf("%s: row %d has %d cells instead of %d: %s, not %s", what, i, len(got[i]), len(want[i]), quoteRow(got[i]), quoteRow(want[i]))
		}
		for j := range got[i] {
			if got[i][j] != want[i][j] {
				return fmt.Sprintf("%s: row %d column %d is %.200q, not %.200q", what, i, j, got[i][j], want[i][j])
			}
		}
	}
	if len(got) < len(want) {
		return fmt.Sprintf("%s: %d rows instead of %d; missing row %s", what, len(got), len(want), quoteRow(want[len(got)]))
	}
	return ""
}

// sameTable compares the observed aspects with those of an undisturbed reading.
func sameTable(got, want *table, obs string) string {
	if got.Err != want.Err {
		return fmt.Sprintf("Err() is %q, not %q", got.Err, want.Err)
	}
	if strings.Contains(obs, "s") {
		if d := sameRows("text", got.Rows, want.Rows); d != "" {
			return d
		}
	}
	if strings.Contains(obs, "t") {
		if d := sameRows("types", got.Types, want.Types); d != "" {
			return d
		}
	}
	if strings.Contains(obs, "f") {
		if d := sameRows("formats", got.Formats, want.Formats); d != "" {
			return d
		}
	}
	return ""
}

// sameModel compares with the reference model.
func sameModel(got *table, want *gen.Table, obs string) string {
	if !strings.Contains(obs, "s") {
		return ""
	}
	rows, types := gen.Normalise(got.Rows, got.Types)
	if d := sameRows("text", rows, want.Rows); d != "" {
		return d
	}
	if strings.Contains(obs, "t") {
		return sameRows("types", types, want.Types)
	}
	return ""
}

func sameNames(got, want []string) string {
	if len(got) != len(want) {
		return fmt.Sprintf("tables %q instead of %q", got, want)
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("tables %q instead of %q", got, want)
		}
	}
	return ""
}

// truth is what a file stores: by the model where there is one, otherwise by
// an undisturbed reading.
type truth struct {
	names []string
	hid   string
	model map[string]*gen.Table
	base  *base
}

func truthOf(e *env, file int, opener string) *truth {
	t := &truth{model: map[string]*gen.Table{}}
	f := &e.sc.Files[file]
	if m := f.Expect(); m != nil && !f.Damaged() && (f.XLSX == nil || f.XLSX.SST < 2 && f.XLSX.Styles < 2) {
		for i := range m {
			nm := m[i].Name
			if f.Kind == "csv" || f.Kind == "tsv" {
				nm = sheetNames(f)[0]
			}
			t.model[nm] = &m[i]
			if !m[i].Hidden {
				t.names = append(t.names, nm)
			} else {
				if t.hid != "" {
					t.hid += "\x00"
				}
				t.hid += nm
			}
		}
	} else {
		t.base = baseline(e, file, opener)
		t.names, t.hid = t.base.Names, t.base.Hid
	}
	return t
}

func (t *truth) table(name string, got *table, obs string) string {
	if t.base != nil {
		b := t.base.Tabs[name]
		if b == nil {
			return "no such table is stored"
		}
		return sameTable(got, b, obs)
	}
	m := t.model[name]
	if m == nil {
		return "no such table is stored"
	}
	return sameModel(got, m, obs)
}

// crashed reports a panic or a hang in any task as a violation.
func (e *env) crashed() *plan.Violation {
	for ti, l := range e.recs {
		for i := range l {
			r := &l[i]
			if r.Panic == "" {
				continue
			}
			switch {
			case r.Hang:
				return viol("hang", "task %d: %s %s does not end (%d steps)", ti, r.Op, r.Name, r.Steps)
			case strings.HasPrefix(r.Panic, "simulator: allocation budget"):
				return viol("alloc", "task %d: %s %s allocates out of proportion: %s", ti, r.Op, r.Name, r.Panic)
			default:
				return viol("panic", "task %d: %s %s panics: %s", ti, r.Op, r.Name, r.Panic)
			}
		}
	}
	switch e.res.Status {
	case "panic":
		return viol("panic", "task %d panics: %s", e.res.PanicTask, e.res.Panic)
	case "hang":
		return viol("hang", "the run does not end (%d steps)", e.res.Steps)
	case "deadlock":
		if e.res.MainLeft == 0 {
			break // the calls all returned; what they left behind is another property's matter
		}
		return viol("deadlock", "no task can proceed: %s", e.res.Waiting)
	}
	return nil
}

// last returns the record of the call which produced the table drained at i.
func getOf(l []rec, i int) *rec {
	for k := i - 1; k >= 0; k-- {
		if l[k].Op == "get" && l[k].T == l[i].T && !l[k].Skip {
			return &l[k]
		}
	}
	return nil
}

// randDelivery shapes reads.
func randDelivery(r *gen.Rand, size int) (d rt.Delivery) {
	if r.Pct(80) {
		n := r.Range(1, 4)
		small := size < 100_000
		for i := 0; i < n; i++ {
			c := r.PickInt(0, 1, 2, 3, 5, 7, 8, 13, 64, 100, 511, 512, 513, 1000, 4095, 4096, 4097)
			if !small && c > 0 && c < 64 {
				c *= 101
			}
			d.Chunks = append(d.Chunks, c)
		}
	}
	if r.Pct(50) {
		n := r.Range(1, 3)
		for i := 0; i < n; i++ {
			d.Eintr = append(d.Eintr, r.PickInt(1, 1, 2, 3, 5, 10, 50))
		}
	}
	return
}

var corpus = []string{"basic.tsv", "basic.xls", "basic.xlsx", "basic2.tsv", "basic2.xls", "basic2.xlsx", "multi_test.tsv", "multi_test.xls", "multi_test.xlsx", "testing.tsv", "testing.xls"}

func corpusFile(r *gen.Rand, dir string, kinds ...string) gen.FileSpec {
	for {
		c := corpus[r.Intn(len(corpus))]
		for _, k := range kinds {
			if strings.HasSuffix(c, "."+k) {
				return gen.FileSpec{Path: dir + c, Kind: "corpus", Corpus: c}
			}
		}
	}
}

// kindOf names the format of a file.
func kindOf(f *gen.FileSpec) string {
	if f.Kind != "corpus" {
		return f.Kind
	}
	return f.Corpus[strings.LastIndexByte(f.Corpus, '.')+1:]
}

// openerFor picks how to open a file.
func openerFor(r *gen.Rand, f *gen.FileSpec) string {
	k := kindOf(f)
	if k == "csv" {
		return "csv" // the tab-separated format claims many of them first
	}
	if r.P(2) {
		return k
	}
	return ""
}
