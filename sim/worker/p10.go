package main

import (
	"fmt"

	"verif.local/sim/gen"
	"verif.local/sim/plan"
)

func init() { properties["P10"] = &property{makeP10, checkP10} }

func plainText(seed uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = gen.Pattern(seed, i)
	}
	return b
}

func makeP10(r *gen.Rand, thorough bool) *plan.Scenario {
	sc := &plan.Scenario{Prop: "P10", Seed: r.U64()>>16 | 1}
	if r.P(3) {
		sc.Mode = "book"
		var f gen.FileSpec
		for {
			f = gen.RandFile(r, "in/file", randSize(r), "xls")
			f.XLS.Enc = 1 + r.U64()>>40
			if f.Check() == nil {
				break
			}
		}
		sc.Files = []gen.FileSpec{f}
		sc.Tasks = [][]plan.Op{readOps(r, &f, r.Pick("", "xls"), len(f.Sheets))}
		if r.P(2) {
			sc.Kern.Delivery = randDelivery(r, 20000)
		}
		return sc
	}
	sc.Mode = "stream"
	nt := r.PickInt(1, 1, 2)
	for t := 0; t < nt; t++ {
		nd := r.PickInt(1, 1, 2)
		var ops []plan.Op
		type st struct {
			seed uint64
			enc  []byte
			at   int
		}
		ds := make([]st, nd)
		for i := range ds {
			ds[i].seed = uint64(1 + r.Intn(1_000_000))
			ops = append(ops, plan.Op{Op: "cryptnew", S: i, N: int(ds[i].seed)})
		}
		for rounds := r.PickInt(1, 1, 2, 3); rounds > 0; rounds-- {
			for i := range ds {
				n := r.PickInt(0, 1, 100, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 5000, r.Intn(6000))
				ds[i].enc = gen.RC4Encrypt(ds[i].seed, plainText(ds[i].seed+uint64(rounds), n))
				ds[i].at = 0
				// the oracle learns which plain text follows
				ops = append(ops, plan.Op{Op: "creset", S: i, N: rounds})
			}
			stopped := make([]bool, nd)
			left := nd
			for left > 0 {
				i := r.Intn(nd)
				if stopped[i] {
					continue
				}
				d := &ds[i]
				rest := len(d.enc) - d.at
				switch {
				case r.P(3):
					ops = append(ops, plan.Op{Op: "cread", S: i, N: r.PickInt(0, 1, 3, 100, 1000, 1024, 1025, 4000)})
				case r.P(20):
					ops = append(ops, plan.Op{Op: "cbytes", S: i})
				case r.P(30):
					// given up in the middle
					stopped[i] = true
					left--
				case rest == 0:
					stopped[i] = true
					left--
					if r.Pct(85) {
						ops = append(ops, plan.Op{Op: "cflush", S: i})
						for k := r.Intn(4); k > 0; k-- {
							ops = append(ops, plan.Op{Op: "cread", S: i, N: r.PickInt(1, 7, 1000, 1024)})
						}
						ops = append(ops, plan.Op{Op: "cbytes", S: i})
						if r.P(2) {
							ops = append(ops, plan.Op{Op: "cread", S: i, N: 10000}, plan.Op{Op: "cread", S: i, N: 1})
						}
					}
				default:
					n := r.PickInt(0, 1, 2, 5, 100, 511, 512, 1000, 1020, 1023, 1024, 1025, 2048, 3000, 1024-d.at%1024, r.Intn(1500))
					if n > rest {
						n = rest
					}
					ops = append(ops, plan.Op{Op: "cwrite", S: i, Data: d.enc[d.at : d.at+n]})
					d.at += n
				}
			}
		}
		sc.Tasks = append(sc.Tasks, ops)
	}
	if nt > 1 {
		sc.Sched = randSched(r, nt)
	}
	return sc
}

func checkP10(e *env, o *plan.Outcome) *plan.Violation {
	sc := e.sc
	if sc.Mode == "book" {
		if len(sc.Files) != 1 || sc.Files[0].XLS == nil || sc.Files[0].XLS.Enc == 0 {
			o.Invalid = "shape"
			return nil
		}
		v := checkP01(e, o)
		o.Trivial = false
		o.Probes["encrypted workbook"]++
		return v
	}
	if len(sc.Files) > 0 {
		o.Invalid = "shape"
		return nil
	}
	// what is written has to be a stream encrypted from its beginning
	for _, l := range sc.Tasks {
		var enc [16][]byte
		var seed [16]uint64
		var at [16]int
		var flushed [16]bool
		for _, op := range l {
			switch op.Op {
			case "cryptnew":
				if op.N < 1 {
					o.Invalid = "key"
					return nil
				}
				seed[op.S], enc[op.S], at[op.S], flushed[op.S] = uint64(op.N), gen.RC4Encrypt(uint64(op.N), plainText(uint64(op.N), 1<<14)), 0, false
			case "creset":
				if seed[op.S] == 0 || op.N < 0 {
					o.Invalid = "no key"
					return nil
				}
				enc[op.S], at[op.S], flushed[op.S] = gen.RC4Encrypt(seed[op.S], plainText(seed[op.S]+uint64(op.N), 1<<14)), 0, false
			case "cwrite":
				n := len(op.Data)
				if flushed[op.S] || at[op.S]+n > len(enc[op.S]) || string(op.Data) != string(enc[op.S][at[op.S]:at[op.S]+n]) {
					o.Invalid = "not the encrypted stream"
					return nil
				}
				at[op.S] += n
			case "cflush":
				flushed[op.S] = true
			case "cread", "cbytes":
			default:
				o.Invalid = "operation"
				return nil
			}
		}
	}
	e.run()
	e.account(o)
	if v := e.crashed(); v != nil {
		return v
	}
	o.Trivial = true
	for ti, l := range e.recs {
		var plain [16][]byte
		var seed [16]uint64
		var written, read [16]int
		var flushed [16]bool
		for i := range l {
			r := &l[i]
			if r.Skip {
				continue
			}
			op := &sc.Tasks[ti][i]
			s := op.S
			where := fmt.Sprintf("task %d operation %d (%s)", ti, i, r.Op)
			switch r.Op {
			case "cryptnew":
				if r.IsErr {
					return viol("refused", "%s: %s", where, r.Err)
				}
				seed[s] = uint64(op.N)
				plain[s], written[s], read[s], flushed[s] = plainText(seed[s], 1<<14), 0, 0, false
			case "creset":
				plain[s], written[s], read[s], flushed[s] = plainText(seed[s]+uint64(op.N), 1<<14), 0, 0, false
				o.Probes["reset"]++
			case "cwrite":
				if r.IsErr || r.N != len(op.Data) {
					return viol("write", "%s of %d bytes: %d, %s", where, len(op.Data), r.N, r.Err)
				}
				if r.Row != "" {
					return viol("write", "%s modifies the caller's data", where)
				}
				if written[s]%1024+len(op.Data) > 1024 {
					o.Probes["write across a block"]++
				}
				written[s] += len(op.Data)
			case "cflush":
				flushed[s] = true
			case "cread", "cbytes":
				n := len(r.Data)
				if r.Op == "cread" && (r.N < 0 || r.N > op.N) {
					return viol("read", "%s of %d bytes answers %d", where, op.N, r.N)
				}
				avail := written[s] - read[s]
				if n > avail {
					return viol("read", "%s: %d bytes after %d, but only %d were written", where, n, read[s], written[s])
				}
				if string(r.Data) != string(plain[s][read[s]:read[s]+n]) {
					return viol("bytes", "%s: at %d of %d written: %s", where, read[s], written[s], differ(r.Data, plain[s][read[s]:read[s]+n]))
				}
				if n > 0 {
					o.Trivial = false
				}
				whole := r.Op == "cbytes" || (op.N > 0 && n == 0)
				if flushed[s] && whole && n < avail {
					return viol("lost", "%s: %d of the %d bytes written never come out", where, avail-n, written[s])
				}
				if r.Op == "cread" && r.IsErr && !r.Bool {
					return viol("read", "%s: %s", where, r.Err)
				}
				if r.Op == "cread" {
					read[s] += n
				}
			}
		}
	}
	return nil
}
