// Package p15 judges histories of registrations and opens; each history needs
// a process of its own, since the registry cannot be emptied.
package p15

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/pbnjay/grate"
	"verif.local/sim/gen"
	"verif.local/sim/plan"
	"verif.local/sim/rt"
	"verif.local/sim/scen"
)

// Builtin is a format the package under test registers by itself.
type Builtin struct {
	Name string
	Prio int
	Open grate.OpenFunc
}

type stub struct {
	reg   plan.Registration
	order int
	calls int
	last  answer
}

type answer struct {
	kind string // accept decline fail
	src  *source
	err  error
}

type source struct{ name string }

func (s *source) List() ([]string, error)                { return []string{s.name}, nil }
func (s *source) Get(n string) (grate.Collection, error) { return nil, errors.New("stub") }
func (s *source) Close() error                           { return nil }

type isErr struct{ text string }

func (e *isErr) Error() string        { return e.text }
func (e *isErr) Is(target error) bool { return target == grate.ErrNotInFormat }

type otherIs struct{ text string }

func (e *otherIs) Error() string        { return e.text }
func (e *otherIs) Is(target error) bool { return target == grate.ErrUnknownFormat }

type unwrapErr struct{ in error }

func (e *unwrapErr) Error() string { return "wrapped by a type of its own" }
func (e *unwrapErr) Unwrap() error { return e.in }

type sliceErr struct{ parts []string } // cannot be compared

func (e sliceErr) Error() string { return strings.Join(e.parts, " ") }

type declineSlice struct {
	parts []string
}

func (e declineSlice) Error() string { return strings.Join(e.parts, " ") }
func (e declineSlice) Unwrap() error { return grate.ErrNotInFormat }

// respond makes the answer of one kind.
func respond(kind, name string, n int) answer {
	other := fmt.Errorf("%s: detail %d", name, n)
	dec := func(e error) answer { return answer{kind: "decline", err: e} }
	fail := func(e error) answer { return answer{kind: "fail", err: e} }
	switch kind {
	case "accept":
		return answer{kind: "accept", src: &source{name}}
	case "decline":
		return dec(grate.ErrNotInFormat)
	case "wrap":
		return dec(fmt.Errorf("%s: %w", name, grate.ErrNotInFormat))
	case "wrap2":
		return dec(fmt.Errorf("a: %w", fmt.Errorf("%s: %w", name, grate.ErrNotInFormat)))
	case "wraperr":
		return dec(grate.WrapErr(other, grate.ErrNotInFormat))
	case "wraperr1":
		return dec(grate.WrapErr(grate.ErrNotInFormat))
	case "wraperrfirst":
		return dec(grate.WrapErr(grate.ErrNotInFormat, other))
	case "wraperr3":
		return dec(grate.WrapErr(other, os.ErrNotExist, grate.ErrNotInFormat))
	case "wrapwraperr":
		return dec(fmt.Errorf("%s: %w", name, grate.WrapErr(other, grate.ErrNotInFormat)))
	case "wraperrwrap":
		return dec(grate.WrapErr(other, fmt.Errorf("%s: %w", name, grate.ErrNotInFormat)))
	case "join":
		return dec(errors.Join(other, grate.ErrNotInFormat))
	case "is":
		return dec(&isErr{name})
	case "unwrap":
		return dec(&unwrapErr{grate.ErrNotInFormat})
	case "declineslice":
		return dec(declineSlice{[]string{name, "declines"}})
	case "error":
		return fail(other)
	case "errorwrap":
		return fail(fmt.Errorf("%s: %w", name, os.ErrNotExist))
	case "errorwraperr":
		return fail(grate.WrapErr(other, io.ErrUnexpectedEOF))
	case "eof":
		return fail(io.EOF)
	case "unknown":
		return fail(grate.ErrUnknownFormat)
	case "unknownwrap":
		return fail(fmt.Errorf("%s: %w", name, grate.ErrUnknownFormat))
	case "otheris":
		return fail(&otherIs{name})
	case "lookalike":
		return fail(errors.New(grate.ErrNotInFormat.Error()))
	case "mention":
		return fail(fmt.Errorf("%s: %v", name, grate.ErrNotInFormat))
	case "slice":
		return fail(sliceErr{[]string{name, "fails"}})
	case "path":
		return fail(&os.PathError{Op: "open", Path: name, Err: os.ErrPermission})
	case "scantype":
		return fail(grate.ErrInvalidScanType)
	}
	return answer{}
}

// Kinds of answers.
var Kinds = []string{"accept", "decline", "wrap", "wrap2", "wraperr", "wraperr1", "wraperrfirst", "wraperr3", "wrapwraperr", "wraperrwrap", "join", "is", "unwrap", "declineslice", "error", "errorwrap", "errorwraperr", "eof", "unknown", "unknownwrap", "otheris", "lookalike", "mention", "slice", "path", "scantype"}

func same(a, b error) bool {
	if x, ok := b.(sliceErr); ok {
		y, ok := a.(sliceErr)
		return ok && len(x.parts) > 0 && len(y.parts) > 0 && &x.parts[0] == &y.parts[0]
	}
	if a == nil || reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if !reflect.TypeOf(a).Comparable() {
		return reflect.DeepEqual(a, b)
	}
	return a == b
}

func viol(class, format string, args ...any) *plan.Violation {
	return &plan.Violation{Class: class, Msg: fmt.Sprintf(format, args...)}
}

type call struct {
	s    *stub
	path string
}

// Main judges the scenario on standard input.
func Main(builtins []Builtin) {
	debug.SetGCPercent(-1)
	gen.LoadCorpus()
	var sc plan.Scenario
	o := &plan.Outcome{Faults: map[string]int64{}, Probes: map[string]int64{}}
	if err := json.NewDecoder(bufio.NewReader(os.Stdin)).Decode(&sc); err != nil {
		fmt.Fprintln(os.Stderr, "worker:", err)
		os.Exit(3)
	}
	o.Index = sc.Index
	if err := sc.Check(); err != nil {
		o.Invalid = err.Error()
	} else {
		judge(&sc, o, builtins)
	}
	b, _ := json.Marshal(o)
	os.Stdout.Write(append(b, '\n'))
	os.Exit(0)
}

func judge(sc *plan.Scenario, o *plan.Outcome, builtins []Builtin) {
	var files []rt.File
	paths := []string{}
	h := fnv.New64a()
	for i := range sc.Files {
		b, err := sc.Files[i].Bytes()
		if err != nil {
			o.Invalid = err.Error()
			return
		}
		h.Write(b)
		files = append(files, rt.File{Path: sc.Files[i].Path, Data: b})
		paths = append(paths, sc.Files[i].Path)
	}
	paths = append(paths, "no/such.file")
	if len(sc.Tasks) != 1 {
		o.Invalid = "tasks"
		return
	}
	for _, op := range sc.Tasks[0] {
		if op.Op != "open" || op.File < 0 || op.File >= len(paths) {
			o.Invalid = "operation"
			return
		}
	}
	for _, g := range sc.Set {
		for _, k := range strings.Split(g.Answer, ",") {
			if respond(k, "x", 0).kind == "" {
				o.Invalid = "answer"
				return
			}
		}
	}
	for _, f := range sc.Kern.Faults {
		if f.Nth != 0 || f.Count != -1 {
			o.Invalid = "a failure which does not last"
			return
		}
	}
	rt.SetKernel(sc.Kern, files)
	log.SetOutput(io.Discard)
	grate.Debug = sc.Mode == "debug"
	seed := sc.Seed
	if seed == 0 {
		seed = 1
	}
	runtime.SimSeed(seed)
	var v *plan.Violation
	res := rt.Run(scen.Sched{Cap: 500_000_000}, true, func() { v = history(sc, o, builtins, paths, h.Write) })
	runtime.SimSeed(1)
	o.Status, o.Runs, o.Steps, o.Sys, o.SimNS, o.Inter = res.Status, 1, res.Steps, rt.SysCalls(), rt.Clock(), res.Hash
	for k, n := range rt.FaultCounts() {
		o.Faults[k] += n
	}
	if v == nil && res.Status != "ok" {
		v = viol(res.Status, "the history ends with %s: %.600s", res.Status, res.Panic)
	}
	o.V = v
	b, _ := json.Marshal([]any{sc.Set, sc.Tasks, sc.Mode})
	h.Write(b)
	o.Key = h.Sum64() ^ rt.IOHash()
	o.Digest = o.Key
	o.Trivial = len(sc.Set)+len(builtins) < 2
}

func describe(src grate.Source, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	n, lerr := src.List()
	return fmt.Sprintf("%T %q %v", src, n, lerr)
}

func history(sc *plan.Scenario, o *plan.Outcome, builtins []Builtin, paths []string, note func([]byte) (int, error)) *plan.Violation {
	var stubs []*stub
	var calls []call
	next := 0
	register := func(opens int) *plan.Violation {
		for next < len(sc.Set) && sc.Set[next].After <= opens {
			s := &stub{reg: sc.Set[next], order: next}
			next++
			stubs = append(stubs, s)
			kinds := strings.Split(s.reg.Answer, ",")
			err := grate.Register(s.reg.Name, s.reg.Prio, func(fn string) (grate.Source, error) {
				k := kinds[min(s.calls, len(kinds)-1)]
				s.calls++
				s.last = respond(k, s.reg.Name, s.calls)
				calls = append(calls, call{s, fn})
				if s.last.err != nil {
					return nil, s.last.err
				}
				return s.last.src, nil
			})
			if err != nil {
				return viol("register", "registering %s fails: %v", s.reg.Name, err)
			}
		}
		return nil
	}
	for n, op := range sc.Tasks[0] {
		if v := register(n); v != nil {
			return v
		}
		p := paths[op.File]
		type row struct {
			prio int
			s    *stub
			b    string // outcome of a built-in format
			dec  bool
			err  error
		}
		var table []row
		for _, s := range stubs {
			table = append(table, row{prio: s.reg.Prio, s: s})
		}
		for _, b := range builtins {
			src, err := b.Open(p)
			table = append(table, row{prio: b.Prio, b: describe(src, err), dec: errors.Is(err, grate.ErrNotInFormat), err: err})
			if err == nil {
				src.Close()
			}
		}
		sort.SliceStable(table, func(i, j int) bool { return table[i].prio < table[j].prio })
		calls = nil
		src, err := grate.Open(p)
		got := describe(src, err)
		note([]byte(got))
		what := fmt.Sprintf("open %d (%s)", n, p)
		// consulted in order, each at most once, with the name as given
		seen := map[*stub]bool{}
		for i, c := range calls {
			if c.path != p {
				return viol("path", "%s: format %s is asked about %q", what, c.s.reg.Name, c.path)
			}
			if seen[c.s] {
				return viol("twice", "%s: format %s is consulted twice", what, c.s.reg.Name)
			}
			seen[c.s] = true
			if i > 0 && c.s.reg.Prio < calls[i-1].s.reg.Prio {
				return viol("order", "%s: format %s (priority %d) is consulted after %s (priority %d)", what, c.s.reg.Name, c.s.reg.Prio, calls[i-1].s.reg.Name, calls[i-1].s.reg.Prio)
			}
			if i+1 < len(calls) && c.s.last.kind != "decline" {
				return viol("continues", "%s: after format %s, which answers with %s (%v), %s is consulted", what, c.s.reg.Name, c.s.last.kind, c.s.last.err, calls[i+1].s.reg.Name)
			}
		}
		// who decides: the last one consulted, or a built-in format
		var stop *stub
		if k := len(calls); k > 0 && calls[k-1].s.last.kind != "decline" {
			stop = calls[k-1].s
		}
		if stop != nil {
			for _, r := range table {
				if r.prio >= stop.reg.Prio {
					break
				}
				if r.s != nil && !seen[r.s] {
					return viol("skipped", "%s: format %s (priority %d) is not consulted before %s (priority %d)", what, r.s.reg.Name, r.prio, stop.reg.Name, stop.reg.Prio)
				}
				if r.s == nil && !r.dec {
					return viol("skipped", "%s: a built-in format of priority %d would have decided (%s) before %s", what, r.prio, r.b, stop.reg.Name)
				}
			}
			if stop.last.kind == "accept" {
				if s, ok := src.(*source); !ok || s != stop.last.src || err != nil {
					return viol("result", "%s: format %s accepts, the result is %s", what, stop.reg.Name, got)
				}
			} else if err == nil || !same(err, stop.last.err) {
				return viol("result", "%s: format %s fails with %q (%T), the result is %s (%T)", what, stop.reg.Name, stop.last.err, stop.last.err, got, err)
			}
			o.Probes["decided by "+stop.last.kind]++
			if src != nil {
				src.Close()
			}
			continue
		}
		// no stub decided: the first built-in format which does not decline
		limit := 1 << 62
		var by *row
		for i := range table {
			if r := &table[i]; r.s == nil && !r.dec {
				by, limit = r, r.prio
				break
			}
		}
		for _, r := range table {
			if r.s != nil && r.prio < limit && !seen[r.s] {
				return viol("skipped", "%s: format %s (priority %d) is not consulted", what, r.s.reg.Name, r.prio)
			}
			if r.s != nil && r.prio > limit && seen[r.s] {
				return viol("continues", "%s: format %s (priority %d) is consulted after a built-in format has decided", what, r.s.reg.Name, r.prio)
			}
		}
		if by == nil {
			if err == nil || !errors.Is(err, grate.ErrUnknownFormat) || errors.Is(err, grate.ErrNotInFormat) {
				return viol("result", "%s: all formats decline, the result is %s", what, got)
			}
			o.Probes["unknown format"]++
			continue
		}
		if got != by.b {
			return viol("result", "%s: the built-in format of priority %d gives %s, the result is %s", what, by.prio, by.b, got)
		}
		o.Probes["decided by a built-in format"]++
		if src != nil {
			src.Close()
		}
	}
	return nil
}
