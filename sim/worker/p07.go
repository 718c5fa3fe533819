package main

import (
	"fmt"
	"strings"

	"verif.local/sim/gen"
	"verif.local/sim/plan"
)

func init() { properties["P07"] = &property{makeP07, checkP07} }

func makeP07(r *gen.Rand, thorough bool) *plan.Scenario {
	sc := &plan.Scenario{Prop: "P07", Seed: r.U64()>>16 | 1}
	nf := r.PickInt(1, 1, 2, 3)
	for i := 0; i < nf; i++ {
		p := fmt.Sprintf("in/f%d", i)
		if r.P(20) {
			f := corpusFile(r, "", "xls", "xlsx", "tsv")
			f.Path = p + "." + kindOf(&f)
			sc.Files = append(sc.Files, f)
		} else {
			sc.Files = append(sc.Files, gen.RandOdd(r, p, r.PickInt(0, 1, 1, 1, 2), "xls", "xls", "xlsx", "xlsx", "csv", "tsv"))
		}
	}
	openers := make([]string, nf)
	for i := range openers {
		openers[i] = openerFor(r, &sc.Files[i])
	}
	nsrc := r.PickInt(1, 1, 2, 3)
	nslot := r.PickInt(1, 2, 3, 4, 6)
	var ops []plan.Op
	for s := 0; s < nsrc; s++ {
		f := r.Intn(nf)
		ops = append(ops, plan.Op{Op: "open", S: s, File: f, Opener: openers[f]})
	}
	obs := func() string {
		return r.Pick("s", "t", "f", "c", "k", "i", "x", "e", "r", "st", "fs", "ts", "stf", "cs", "ks", "xs", "is", "es", "sst", "ff", "m", "w", "ws", "wk", "stfckixmwer")
	}
	steps := r.PickInt(5, 10, 20, 40, 80)
	closing := r.PickInt(0, 3, 8)
	for k := 0; k < steps; k++ {
		s, t := r.Intn(nsrc), r.Intn(nslot)
		switch w := r.Intn(100); {
		case w < 12:
			ops = append(ops, plan.Op{Op: "get", S: s, T: t, Name: r.Intn(6)})
		case w < 14:
			ops = append(ops, plan.Op{Op: "get", S: s, T: t, Name: -1})
		case w < 42:
			ops = append(ops, plan.Op{Op: "next", T: t, N: r.PickInt(1, 1, 1, 2, 3, 10, 100)})
		case w < 62:
			ops = append(ops, plan.Op{Op: "obs", T: t, Obs: obs()})
		case w < 72:
			ops = append(ops, plan.Op{Op: "hold", T: t, Obs: r.Pick("s", "t", "f", "stf")})
		case w < 80:
			ops = append(ops, plan.Op{Op: "mutate", T: t, Obs: r.Pick("s", "t", "f", "stf")})
		case w < 84:
			ops = append(ops, plan.Op{Op: "list", S: s, N: r.Intn(2)})
		case w < 92:
			ops = append(ops, plan.Op{Op: "drain", T: t, Obs: obs()})
		case w < 92+closing:
			ops = append(ops, plan.Op{Op: "close", S: s})
		default:
			f := r.Intn(nf)
			ops = append(ops, plan.Op{Op: "open", S: s, File: f, Opener: openers[f]})
		}
	}
	for t := 0; t < nslot; t++ {
		if r.P(2) {
			ops = append(ops, plan.Op{Op: "drain", T: t, Obs: "stf"})
		}
	}
	sc.Tasks = [][]plan.Op{ops}
	sc.Pool = r.Pick("lifo", "lifo", "fifo", "random")
	if r.P(4) {
		sc.Kern.Delivery = randDelivery(r, 200000)
	}
	return sc
}

// snapshot is a table as it has to appear, with every observer.
type snapshot struct {
	t     *table
	model *gen.Table
	empty string
}

func (s *snapshot) row(obs byte, pos int) (string, bool) {
	join := func(l [][]string) (string, bool) {
		if pos >= len(l) {
			return "", false
		}
		return strings.Join(l[pos], "\x00"), true
	}
	switch obs {
	case 's':
		return join(s.t.Rows)
	case 't':
		return join(s.t.Types)
	case 'f':
		return join(s.t.Formats)
	case 'c', 'k', 'i', 'x', 'm', 'w':
		if k := pos*len(scanObs) + strings.IndexByte(scanObs, obs); k < len(s.t.Scans) {
			return s.t.Scans[k], true
		}
	case 'r':
		return "<nil>", true
	}
	return "", false
}

func checkP07(e *env, o *plan.Outcome) *plan.Violation {
	sc := e.sc
	if len(sc.Tasks) != 1 || len(sc.Kern.Faults) > 0 || sc.Kern.MaxFDs > 0 {
		o.Invalid = "shape"
		return nil
	}
	for i := range sc.Files {
		f := &sc.Files[i]
		if k := kindOf(f); f.Damaged() || k == "raw" || k == "cfb" {
			o.Invalid = "file"
			return nil
		}
	}
	openers := map[int]string{}
	for _, op := range sc.Tasks[0] {
		switch op.Op {
		case "open":
			if op.File >= len(sc.Files) {
				o.Invalid = "no such file"
				return nil
			}
			k := kindOf(&sc.Files[op.File])
			if (op.Opener != "" && op.Opener != k) || (k == "csv" && op.Opener == "") {
				o.Invalid = "opener"
				return nil
			}
			openers[op.File] = op.Opener
		case "damage", "shrink", "restore", "readall", "cfbopen", "forget":
			o.Invalid = "operation"
			return nil
		case "obs", "hold", "mutate", "drain":
			for _, c := range op.Obs {
				if !strings.ContainsRune("stfckixmwer", c) {
					o.Invalid = "observer"
					return nil
				}
			}
		}
	}
	// what every file holds, read in the plain way
	snaps := map[string]*snapshot{}
	names := map[int][]string{}
	hid := map[int]string{}
	for f, op := range openers {
		b := baseline(e, f, op)
		if b.IsErr {
			return viol("refused", "%s is refused: %s", e.path(f), b.Err)
		}
		t := truthOf(e, f, op)
		hid[f] = b.Hid
		for nm, tab := range b.Tabs {
			s := &snapshot{t: tab}
			if t.base == nil {
				s.model = t.model[nm]
				if s.model == nil {
					return viol("names", "%s: table %q is not stored", e.path(f), nm)
				}
				if d := sameModel(tab, s.model, "st"); d != "" {
					return viol("baseline", "%s table %q: %s", e.path(f), nm, d)
				}
			}
			snaps[fmt.Sprint(f, nm)] = s
		}
		names[f] = t.names
	}
	resetPools(sc.Pool, sc.Seed)
	e.run()
	e.account(o)
	if v := e.crashed(); v != nil {
		return v
	}
	type cursor struct {
		s    *snapshot
		pos  int
		done bool
		name string
	}
	var cur [32]*cursor
	var closed [16]bool
	l := e.recs[0]
	o.Trivial = true
	for i := range l {
		r := &l[i]
		if r.Skip {
			if r.Op == "get" {
				cur[r.T] = nil
			}
			continue
		}
		where := fmt.Sprintf("operation %d (%s)", i, r.Op)
		switch r.Op {
		case "open":
			if r.IsErr {
				return viol("refused", "%s: %s", where, r.Err)
			}
			closed[r.S] = false
		case "list":
			if r.IsErr {
				if !closed[r.S] {
					return viol("list fails", "%s: %s", where, r.Err)
				}
				continue
			}
			if closed[r.S] && len(r.Names) == 0 {
				continue
			}
			if d := sameNames(r.Names, names[r.File]); d != "" {
				return viol("names", "%s: %s", where, d)
			}
			if r.Row != hid[r.File] && !(closed[r.S] && r.Row == "") {
				return viol("names", "%s: %q are listed as hidden, not %q", where, r.Row, hid[r.File])
			}
		case "get":
			cur[r.T] = nil
			if r.IsErr {
				if r.Name != "no such table" && !closed[r.S] {
					return viol("get fails", "%s %q: %s", where, r.Name, r.Err)
				}
				if closed[r.S] {
					o.Probes["get refused after close"]++
				}
				continue
			}
			if closed[r.S] {
				o.Probes["get works after close"]++
			}
			nm := r.Name
			if k := kindOf(&sc.Files[r.File]); k == "csv" || k == "tsv" {
				// there is one table, whatever its name
				nm = names[r.File][0]
			}
			s := snaps[fmt.Sprint(r.File, nm)]
			if s == nil {
				return viol("get", "%s: a table %q which is not stored", where, r.Name)
			}
			cur[r.T] = &cursor{s: s, pos: -1, name: r.Name}
		case "next":
			c := cur[r.T]
			if c == nil {
				continue
			}
			left := len(c.s.t.Rows) - 1 - c.pos
			want := sc.Tasks[0][opIndex(sc, i)].N
			if want == 0 {
				want = 1
			}
			got := want
			if got > left {
				got = left
			}
			if c.done {
				got = 0
			}
			if r.N != got || r.Bool != (got == want) {
				return viol("cursor", "%s of table %q at row %d of %d: Next answers true %d of %d times, last %v", where, c.name, c.pos, len(c.s.t.Rows), r.N, want, r.Bool)
			}
			c.pos += got
			if got < want {
				c.done = true
				o.Probes["next beyond the end"]++
			}
		case "obs", "hold", "mutate":
			c := cur[r.T]
			if c == nil || c.done {
				continue
			}
			o.Trivial = false
			if v := checkRow(c.s, c.pos, r, where+fmt.Sprintf(" of table %q row %d", c.name, c.pos)); v != nil {
				return v
			}
		case "drain":
			c := cur[r.T]
			if c == nil {
				continue
			}
			o.Trivial = false
			where += fmt.Sprintf(" of table %q from row %d", c.name, c.pos+1)
			rest := len(c.s.t.Rows) - 1 - c.pos
			if c.done {
				rest = 0
			}
			if v := checkDrain(c.s, c.pos+1, rest, r, where); v != nil {
				return v
			}
			c.done = true
		case "close":
			closed[r.S] = true
			o.Probes["close"]++
		}
	}
	for _, h := range e.held[0] {
		o.Probes["rows held to the end"]++
		for i := range h.copy {
			if h.slice[i] != h.copy[i] {
				return viol("held", "%s of a row obtained earlier changed from %q to %q", h.what, h.copy[i], h.slice[i])
			}
		}
	}
	return nil
}

// opIndex: every operation leaves exactly one record (those that leave more are not used here).
func opIndex(sc *plan.Scenario, i int) int {
	k := -1
	for j, op := range sc.Tasks[0] {
		if op.Op == "yield" {
			continue
		}
		k++
		if k == i {
			return j
		}
	}
	return 0
}

func checkRow(s *snapshot, pos int, r *rec, where string) *plan.Violation {
	used := map[byte]int{}
	for i := 0; i < len(r.Obs); i++ {
		c := r.Obs[i]
		var got string
		switch c {
		case 's':
			got = strings.Join(r.Tab.Rows[used['s']], "\x00")
		case 't':
			got = strings.Join(r.Tab.Types[used['t']], "\x00")
		case 'f':
			got = strings.Join(r.Tab.Formats[used['f']], "\x00")
		default:
			got = r.Tab.Scans[used['*']]
			used['*']++
		}
		used[c]++
		if v := s.same(c, pos, got, where); v != nil {
			return v
		}
	}
	return nil
}

func (s *snapshot) same(c byte, pos int, got, where string) *plan.Violation {
	if c == 'e' {
		if s.empty == "" {
			s.empty = got
		}
		if s.empty != got {
			return viol("empty", "%s: IsEmpty answers %s after %s", where, got, s.empty)
		}
		return nil
	}
	want, ok := s.row(c, pos)
	if !ok {
		return viol("cursor", "%s: there is no such row", where)
	}
	if got != want {
		return viol("observation", "%s: %c observes %.300q, not %.300q", where, c, got, want)
	}
	return nil
}

func checkDrain(s *snapshot, from, rest int, r *rec, where string) *plan.Violation {
	n := -1
	count := func(c byte, k int) {
		per := strings.Count(r.Obs, string(c))
		if per > 0 && n < 0 {
			n = k / per
		}
	}
	count('s', len(r.Tab.Rows))
	count('t', len(r.Tab.Types))
	count('f', len(r.Tab.Formats))
	scans := 0
	for i := 0; i < len(r.Obs); i++ {
		if strings.IndexByte("stf", r.Obs[i]) < 0 {
			scans++
		}
	}
	if n < 0 && scans > 0 {
		n = len(r.Tab.Scans) / scans
	}
	if n >= 0 && n != rest {
		return viol("cursor", "%s: %d rows follow instead of %d", where, n, rest)
	}
	if r.Tab.Err != s.t.Err {
		return viol("observation", "%s: Err is %q, not %q", where, r.Tab.Err, s.t.Err)
	}
	used := map[byte]int{}
	for k := 0; k < n; k++ {
		for i := 0; i < len(r.Obs); i++ {
			c := r.Obs[i]
			var got string
			switch c {
			case 's':
				got = strings.Join(r.Tab.Rows[used['s']], "\x00")
			case 't':
				got = strings.Join(r.Tab.Types[used['t']], "\x00")
			case 'f':
				got = strings.Join(r.Tab.Formats[used['f']], "\x00")
			default:
				got = r.Tab.Scans[used['*']]
				used['*']++
			}
			used[c]++
			if v := s.same(c, from+k, got, fmt.Sprintf("%s, row %d", where, from+k)); v != nil {
				return v
			}
		}
	}
	return nil
}
