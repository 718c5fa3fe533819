package main

import (
	"fmt"
	"strings"

	"verif.local/sim/gen"
	"verif.local/sim/plan"
)

func init() { properties["P09"] = &property{makeP09, checkP09} }

func makeP09(r *gen.Rand, thorough bool) *plan.Scenario {
	sc := &plan.Scenario{Prop: "P09", Seed: r.U64()>>16 | 1}
	var sizes []int
	nd := 0
	if r.P(4) {
		// readers over given pieces
		nt := r.Range(1, 2)
		for t := 0; t < nt; t++ {
			var ops []plan.Op
			n := r.PickInt(0, 1, 2, 3, 5, 8, 20)
			total := 0
			d := make([]byte, n)
			for i := range d {
				d[i] = byte(r.PickInt(0, 0, 1, 2, 3, 8, 20, 64, 255))
				total += int(d[i])
			}
			ops = append(ops, plan.Op{Op: "slices", T: t, N: r.Intn(1000), Data: d})
			ops = append(ops, streamOps(r, []int{total}, t)...)
			sc.Tasks = append(sc.Tasks, ops)
		}
		sc.Files = nil
	} else {
		f := gen.FileSpec{Path: "in/doc.bin", Kind: "cfb"}
		l := gen.RandCFBLayout(r, gen.Small)
		l.Extra = nil
		for k := r.Range(1, 6); k > 0; k-- {
			sz := r.PickInt(0, 1, 2, 63, 64, 65, 127, 128, 129, 511, 512, 513, 1000, 1023, 1024, 2048, 4031, 4032, 4095, 4096, 4097, 4608, 5000, 8191, 8192, 8193, 12288, 20000)
			if r.P(2) {
				sz = r.Intn(r.PickInt(100, 5000, 30000))
			}
			if r.P(60) {
				sz = r.Range(60000, 300000)
			}
			l.Extra = append(l.Extra, gen.Stream{Name: fmt.Sprintf("%sS%d", r.Pick("", "\x01", "Long name of a stream "), k), Size: sz, Seed: uint64(r.Intn(100000))})
			sizes = append(sizes, sz)
		}
		if r.P(70) {
			l.ExtraFAT = 0
			l.Far(r)
		}
		l.Nested = nil
		if r.P(3) {
			// streams of storages, some with the name of one of the root
			l.Storages += r.Range(1, 3)
			for k := range l.Extra {
				n := fmt.Sprintf("Inner %d", k)
				if r.P(2) {
					n = l.Extra[k].Name
				}
				if r.P(2) {
					l.Nested = append(l.Nested, gen.Stream{Name: n, In: r.Intn(l.Storages), Size: r.PickInt(0, 1, 64, 65, 100, 4095, 4096, 4097, 9000), Seed: uint64(r.Intn(100000))})
				}
			}
		}
		f.CFB = &l
		if f.Check() != nil {
			l.Extra, l.Nested = l.Extra[:1], nil
			sizes = sizes[:1]
		}
		sc.Files = []gen.FileSpec{f}
		nd = len(sizes)
		nt := r.PickInt(1, 1, 1, 2)
		for t := 0; t < nt; t++ {
			ops := []plan.Op{{Op: "cfbopen"}, {Op: "cfblist"}}
			ns := r.Range(1, 4)
			var open []int
			for k := 0; k < ns; k++ {
				n := r.Intn(nd)
				size := sizes[n]
				if len(l.Nested) > 0 && r.P(4) {
					n = r.Intn(len(l.Nested))
					size = l.Nested[n].Size
					n += nd
				}
				ops = append(ops, plan.Op{Op: "stream", T: k, Name: n, N: r.PickInt(0, 0, 0, 0, 0, 0, 1, 2)})
				open = append(open, size)
			}
			if r.P(8) {
				ops = append(ops, plan.Op{Op: "stream", T: 20, Name: -1})
			}
			ops = append(ops, streamOps(r, open, 0)...)
			sc.Tasks = append(sc.Tasks, ops)
		}
		if r.P(3) {
			sc.Kern.Delivery = randDelivery(r, 100000)
		}
	}
	if len(sc.Tasks) > 1 {
		sc.Sched = randSched(r, len(sc.Tasks))
	}
	return sc
}

// streamOps: any history of reads and seeks over the streams in slots from..
func streamOps(r *gen.Rand, sizes []int, from int) (ops []plan.Op) {
	for k := r.PickInt(1, 5, 20, 60); k > 0; k-- {
		i := r.Intn(len(sizes))
		n, t := sizes[i], from+i
		edge := func() int {
			b := r.PickInt(0, 0, n, n, n/2, 64, 512, 1024, 4096, n/512*512, n/64*64, r.Intn(n+1))
			return b + r.PickInt(0, 0, 0, -1, 1, 2, -64)
		}
		switch r.Intn(8) {
		case 0, 1, 2:
			ops = append(ops, plan.Op{Op: "sread", T: t, N: r.PickInt(0, 1, 2, 7, 8, 63, 64, 65, 511, 512, 513, 1000, 4096, 5000, n, n+1)})
		case 3:
			ops = append(ops, plan.Op{Op: "sread", T: t, N: r.Intn(n + 10)})
		case 4, 5:
			w := r.Intn(3)
			at := edge()
			switch w {
			case 1:
				at -= edge()
			case 2:
				at = at - n
				if r.P(4) {
					at = -at
				}
			}
			ops = append(ops, plan.Op{Op: "sseek", T: t, N: at, W: w})
		case 6:
			ops = append(ops, plan.Op{Op: "sseek", T: t, N: r.PickInt(-1, n+1, n+1000000, -1<<40, 1<<40, 0, 5), W: r.PickInt(0, 0, 1, 2, 3, 7, -1)})
		case 7:
			ops = append(ops, plan.Op{Op: "sfull", T: t, N: r.PickInt(1, 64, 512, 4096, n, n/2)})
		}
	}
	for i, n := range sizes {
		if r.P(2) {
			ops = append(ops, plan.Op{Op: "sseek", T: from + i}, plan.Op{Op: "sfull", T: from + i, N: n + 1})
		}
	}
	return
}

func checkP09(e *env, o *plan.Outcome) *plan.Violation {
	sc := e.sc
	if len(sc.Files) > 1 || len(sc.Kern.Faults) > 0 {
		o.Invalid = "shape"
		return nil
	}
	if len(sc.Files) == 1 && (sc.Files[0].CFB == nil || sc.Files[0].Damaged()) {
		o.Invalid = "file"
		return nil
	}
	for _, l := range sc.Tasks {
		for _, op := range l {
			if op.File != 0 || op.Op == "cfbopen" && len(sc.Files) == 0 {
				o.Invalid = "file"
				return nil
			}
		}
	}
	e.run()
	e.account(o)
	if v := e.crashed(); v != nil {
		return v
	}
	o.Trivial = true
	for ti, l := range e.recs {
		var content [32][]byte
		var pos [32]int
		for i := range l {
			r := &l[i]
			if r.Skip {
				continue
			}
			where := fmt.Sprintf("task %d operation %d (%s)", ti, i, r.Op)
			c := content[r.T]
			p := pos[r.T]
			op := &sc.Tasks[ti][i]
			switch r.Op {
			case "cfbopen":
				if r.IsErr {
					return viol("refused", "%s: %s", where, r.Err)
				}
			case "cfblist":
				if r.IsErr {
					return viol("refused", "%s: %s", where, r.Err)
				}
				have := map[string]int{}
				for _, n := range r.Names {
					have[n]++
				}
				for _, s := range append(append([]gen.Stream(nil), sc.Files[0].CFB.Extra...), sc.Files[0].CFB.Nested...) {
					have[s.Name]--
					if have[s.Name] < 0 {
						return viol("names", "%s: stream %q is not listed in %q", where, s.Name, r.Names)
					}
				}
			case "stream":
				content[r.T], pos[r.T] = nil, 0
				if strings.EqualFold(r.Name, "no such stream") {
					if !r.IsErr {
						return viol("stream", "%s: a stream which is not stored is opened", where)
					}
					continue
				}
				if r.IsErr {
					return viol("refused", "%s %q: %s", where, r.Name, r.Err)
				}
				cl := sc.Files[0].CFB
				for _, s := range append(append([]gen.Stream(nil), cl.Extra...), cl.Nested...) {
					if strings.EqualFold(s.Name, r.Name) && content[r.T] == nil {
						// the root's own streams come first
						content[r.T] = s.Bytes()
						if content[r.T] == nil {
							content[r.T] = []byte{}
						}
					}
				}
			case "slices":
				n := 0
				for _, k := range op.Data {
					n += int(k)
				}
				content[r.T], pos[r.T] = make([]byte, n), 0
				for k := range content[r.T] {
					content[r.T][k] = gen.Pattern(uint64(op.N), k)
				}
			case "sread":
				o.Trivial = false
				if r.Row == "overrun" {
					return viol("overrun", "%s: Read writes beyond the buffer", where)
				}
				left := len(c) - p
				switch {
				case r.N < 0 || r.N > op.N || r.N > left:
					return viol("read", "%s of %d bytes at %d of %d delivers %d", where, op.N, p, len(c), r.N)
				case op.N == 0:
					if r.IsErr && !r.Bool {
						return viol("read", "%s: empty Read at %d of %d fails: %s", where, p, len(c), r.Err)
					}
					o.Probes["empty read"]++
				case left == 0:
					if !r.Bool {
						return viol("read", "%s at the end answers %d bytes, error %q instead of io.EOF", where, r.N, r.Err)
					}
					o.Probes["read at the end"]++
				case r.N == 0:
					return viol("read", "%s of %d bytes at %d of %d delivers nothing (error %q)", where, op.N, p, len(c), r.Err)
				case r.IsErr && !(r.Bool && r.N == left):
					return viol("read", "%s of %d bytes at %d of %d fails: %s", where, op.N, p, len(c), r.Err)
				}
				if string(r.Data) != string(c[p:p+r.N]) {
					return viol("bytes", "%s of %d bytes at %d of %d: %s", where, op.N, p, len(c), differ(r.Data, c[p:p+r.N]))
				}
				pos[r.T] += r.N
			case "sfull":
				o.Trivial = false
				want := op.N
				if want > len(c)-p {
					want = len(c) - p
				}
				if r.N != want || r.IsErr != (want < op.N) || (r.IsErr && !r.Bool) {
					return viol("read", "%s of %d bytes at %d of %d delivers %d (error %q)", where, op.N, p, len(c), r.N, r.Err)
				}
				if string(r.Data) != string(c[p:p+want]) {
					return viol("bytes", "%s of %d bytes at %d of %d: %s", where, op.N, p, len(c), differ(r.Data, c[p:p+want]))
				}
				pos[r.T] += want
			case "sseek":
				base, ok := 0, true
				switch op.W {
				case 0:
				case 1:
					base = p
				case 2:
					base = len(c)
				default:
					ok = false
				}
				at := base + op.N
				if at < 0 || at > len(c) {
					ok = false
				}
				if !ok {
					o.Probes["seek refused"]++
					if !r.IsErr {
						return viol("seek", "%s to %d from %d (at %d of %d) is accepted: %d", where, op.N, op.W, p, len(c), r.Pos)
					}
					continue
				}
				if r.IsErr {
					return viol("seek", "%s to %d from %d (at %d of %d) fails: %s", where, op.N, op.W, p, len(c), r.Err)
				}
				if r.Pos != int64(at) {
					return viol("seek", "%s to %d from %d (at %d of %d) answers %d", where, op.N, op.W, p, len(c), r.Pos)
				}
				pos[r.T] = at
			}
		}
	}
	return nil
}

func differ(got, want []byte) string {
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("byte %d is %02x, not %02x", i, got[i], want[i])
		}
	}
	return "equal"
}
