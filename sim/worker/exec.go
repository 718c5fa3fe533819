package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/commonxl"
	"github.com/pbnjay/grate/simple"
	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xls/cfb"
	"github.com/pbnjay/grate/xls/crypto"
	"github.com/pbnjay/grate/xlsx"

	"verif.local/sim/gen"
	"verif.local/sim/plan"
	"verif.local/sim/rt"
	"verif.local/sim/simsync"
)

// table is what was observed of one collection.
type table struct {
	Name    string
	Rows    [][]string
	Types   [][]string
	Formats [][]string
	Scans   []string
	Err     string // of Err() after iteration
	Cut     bool   // observation limited, not the data
}

// rec is what one operation did.
type rec struct {
	Op       string
	Name     string
	S, T     int
	File     int
	Err      string
	IsErr    bool
	NotIn    bool // the error is (or wraps) ErrNotInFormat / ErrUnknownFormat
	Skip     bool
	Hard     int64
	HardW    string // the last operation which failed during the call
	Steps    int64
	FDs      int
	Alive    int
	FDsLater int // descriptors once nothing moves any more
	Panic    string
	Hang     bool
	Names    []string
	Tab      *table
	N        int
	Pos      int64
	Data     []byte
	Bool     bool
	Row      string
	Alloc    int64
	Fail     []string
	Obs      string // what was observed of the table
}

// env is one prepared execution.
type env struct {
	sc     *plan.Scenario
	data   [][]byte   // stored bytes per file
	names  [][]string // table names per file, for Get without List
	recs   [][]rec
	res    rt.Result
	maxTab int       // cells observed per table at most (0 = all)
	held   [][]*held // per task
}

type held struct {
	task  int
	what  string
	slice []string
	copy  []string
}

func prepare(sc *plan.Scenario) (*env, error) {
	e := &env{sc: sc}
	for i := range sc.Files {
		b, err := sc.Files[i].Bytes()
		if err != nil {
			return nil, err
		}
		e.data = append(e.data, b)
		e.names = append(e.names, sheetNames(&sc.Files[i]))
	}
	return e, nil
}

func sheetNames(f *gen.FileSpec) (res []string) {
	if f.Kind == "csv" || f.Kind == "tsv" {
		return []string{filepath.Base(f.Path)}
	}
	for _, s := range f.Sheets {
		res = append(res, s.Name)
	}
	return
}

func (e *env) files() (res []rt.File) {
	for i := range e.sc.Files {
		res = append(res, rt.File{Path: e.sc.Files[i].Path, Data: e.data[i]})
	}
	return
}

func openBy(kind, path string) (grate.Source, error) {
	switch kind {
	case "xls":
		return xls.Open(path)
	case "xlsx":
		return xlsx.Open(path)
	case "csv":
		return simple.OpenCSV(path)
	case "tsv":
		return simple.OpenTSV(path)
	}
	return grate.Open(path)
}

type taskState struct {
	src  [16]grate.Source
	file [16]int
	list [16][]string
	tab  [32]grate.Collection
	row  [32]bool // positioned on a row
	doc  [16]*cfb.Document
	strm [32]io.ReadSeeker
	cry  [16]crypto.Decryptor
}

// run executes the tasks (and, first, the earlier activity) in the simulator.
func (e *env) run() {
	rt.SetKernel(e.sc.Kern, e.files())
	e.recs = make([][]rec, len(e.sc.Tasks))
	e.held = make([][]*held, len(e.sc.Tasks))
	var fns []func()
	for i := range e.sc.Tasks {
		i := i
		fns = append(fns, func() { e.task(i, e.sc.Tasks[i], &e.recs[i]) })
	}
	seed := e.sc.Seed
	if seed == 0 {
		seed = 1
	}
	grate.Debug = e.sc.Debug
	runtime.SimSeed(seed)
	if e.sc.CPUs > 0 {
		runtime.SimNumCPU = e.sc.CPUs
	}
	cfg := e.sc.Sched
	if cfg.Cap == 0 {
		cfg.Cap = 200_000_000
	}
	e.res = rt.Run(cfg, false, fns...)
	grate.Debug = false
	runtime.SimSeed(1)
}

// solo executes a list of operations alone, fault free, on a fresh kernel.
func solo(e *env, ops []plan.Op) []rec {
	s := &env{sc: &plan.Scenario{Files: e.sc.Files, Tasks: [][]plan.Op{ops}}, data: e.data, names: e.names}
	s.run()
	return s.recs[0]
}

func (e *env) task(id int, ops []plan.Op, out *[]rec) {
	st := &taskState{}
	if e.sc.Limit > 0 {
		runtime.SimAllocBudget(e.sc.Limit)
		defer runtime.SimAllocBudget(0)
	}
	for i := range ops {
		if !e.op(id, st, &ops[i], out) {
			return
		}
	}
}

// do runs one call and records it; false ends the task (panic).
func (e *env) do(r rec, out *[]rec, f func(r *rec) error) (ok bool) {
	steps, hard, nfail := rt.StepsNow(), rt.HardErrors(), len(rt.Failures())
	r.FDs = -1
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, is := p.(rt.Hang); is {
					r.Hang = true
				}
				r.Panic = fmt.Sprint(p)
				if r.Panic == "" {
					r.Panic = "panic"
				}
				// the runtime's own budget does not count here any more
				runtime.SimAllocBudget(0)
				if !r.Hang {
					r.Panic += "\n" + trace(string(debug.Stack()))
				}
			}
		}()
		if err := f(&r); err != nil {
			r.IsErr, r.Err = true, err.Error()
			r.NotIn = errors.Is(err, grate.ErrNotInFormat) || errors.Is(err, grate.ErrUnknownFormat)
		}
	}()
	r.Steps = rt.StepsNow() - steps
	r.Hard = rt.HardErrors() - hard
	if r.Hard > 0 {
		r.HardW = rt.LastHard()
		r.Fail = append([]string(nil), rt.Failures()[nfail:]...)
	}
	r.FDs = rt.OpenFDs()
	r.FDsLater = r.FDs
	if len(e.sc.Tasks) == 1 && rt.Alive() > 1 {
		// what is about to end may do so
		rt.Settle()
		r.FDsLater = rt.OpenFDs()
	}
	r.Alive = rt.Alive()
	*out = append(*out, r)
	return r.Panic == ""
}

// trace keeps the frames of the repository.
func trace(s string) string {
	lines := strings.Split(s, "\n")
	var keep []string
	for i := 0; i+1 < len(lines) && len(keep) < 6; i++ {
		if strings.Contains(lines[i+1], "/grate") || strings.Contains(lines[i], "pbnjay/grate") {
			loc := strings.TrimSpace(lines[i+1])
			if k := strings.LastIndexByte(loc, ' '); k > 0 {
				loc = loc[:k]
			}
			fn := lines[i]
			if k := strings.LastIndexByte(fn, '('); k > 0 {
				fn = fn[:k]
			}
			keep = append(keep, fn+" "+filepath.Base(loc))
			i++
		}
	}
	return strings.Join(keep, "\n")
}

func (e *env) path(i int) string {
	if i >= len(e.sc.Files) {
		return "missing.xls"
	}
	return e.sc.Files[i].Path
}

func (e *env) tableName(st *taskState, s, k int) string {
	names := st.list[s]
	if f := st.file[s]; len(names) == 0 && f < len(e.names) {
		names = e.names[f]
	}
	if k < 0 || len(names) == 0 {
		return "no such table"
	}
	return names[k%len(names)]
}

const rowCellCap = 1 << 20

func (e *env) drain(c grate.Collection, obs string, t *table) {
	cells := 0
	rows := 0
	for c.Next() {
		rows++
		if e.maxTab > 0 && cells > e.maxTab {
			t.Cut = true
			if rows > 3_000_000 {
				break
			}
			continue
		}
		cells += 1 + e.observe(c, obs, t)*(1+len(obs)/4)
	}
	if err := c.Err(); err != nil {
		t.Err = err.Error()
	}
	c.IsEmpty()
}

func (e *env) observe(c grate.Collection, obs string, t *table) (n int) {
	for _, o := range obs {
		switch o {
		case 's':
			r := c.Strings()
			n = len(r)
			t.Rows = append(t.Rows, r)
		case 't':
			r := c.Types()
			n = len(r)
			t.Types = append(t.Types, r)
		case 'f':
			r := c.Formats()
			n = len(r)
			t.Formats = append(t.Formats, r)
		case 'w':
			s := raw(c)
			t.Scans = append(t.Scans, s)
			if k := strings.Count(s, "|"); k > n {
				n = k
			}
		case 'c', 'k', 'i', 'x', 'm':
			s := scan(c, byte(o))
			t.Scans = append(t.Scans, s)
			if k := strings.Count(s, "|"); k > n {
				n = k
			}
		case 'e':
			t.Scans = append(t.Scans, fmt.Sprint(c.IsEmpty()))
		case 'r':
			t.Scans = append(t.Scans, fmt.Sprint(c.Err()))
		}
	}
	return
}

// scan reads the row into variables: as text, as the announced types, by their looks, as integers, or
// as destinations which do not fit.
func scan(c grate.Collection, how byte) string {
	types := c.Types()
	n := len(types)
	var texts []string
	if how == 'm' {
		texts = c.Strings()
	}
	args := make([]interface{}, n)
	for i := range args {
		switch {
		case how == 'm':
			args[i] = looksLike(texts[i])
		case how == 'i':
			args[i] = new(int64)
		case how == 'x':
			switch i % 4 {
			case 0:
				args[i] = new(bool)
			case 1:
				args[i] = new(float64)
			case 2:
				args[i] = new(time.Time)
			default:
				args[i] = struct{}{}
			}
		case how == 'k' && types[i] == "boolean":
			args[i] = new(bool)
		case how == 'k' && types[i] == "integer":
			args[i] = new(int64)
		case how == 'k' && types[i] == "float":
			args[i] = new(float64)
		case how == 'k' && types[i] == "date":
			args[i] = new(time.Time)
		default:
			args[i] = new(string)
		}
	}
	if how == 'x' {
		args = append(args, new(string))
	}
	err := c.Scan(args...)
	var sb strings.Builder
	for _, a := range args {
		switch v := a.(type) {
		case *bool:
			fmt.Fprint(&sb, *v)
		case *int64:
			fmt.Fprint(&sb, *v)
		case *int:
			fmt.Fprint(&sb, *v)
		case *float64:
			fmt.Fprint(&sb, *v)
		case *string:
			sb.WriteString(*v)
		case *time.Time:
			fmt.Fprint(&sb, v.UnixNano())
		}
		sb.WriteByte('|')
	}
	fmt.Fprint(&sb, err != nil)
	return sb.String()
}

// looksLike is a destination for a text by its looks.
func looksLike(s string) interface{} {
	if _, err := strconv.ParseInt(s, 10, 64); err == nil {
		return new(int)
	}
	if _, err := strconv.ParseFloat(s, 64); err == nil {
		return new(float64)
	}
	switch {
	case strings.EqualFold(s, "true"), strings.EqualFold(s, "no"), s == "y", s == "N":
		return new(bool)
	case len(s) == 7:
		return new(int)
	case len(s) == 8:
		return new(time.Time)
	case len(s) == 9:
		return new(float64)
	}
	return new(string)
}

// hidden lists the hidden tables of a source which can tell.
func hidden(s grate.Source, scribble bool) string {
	h, ok := s.(interface{ ListHidden() ([]string, error) })
	if !ok {
		return ""
	}
	l, err := h.ListHidden()
	if err != nil {
		return "error: " + err.Error()
	}
	res := strings.Join(l, "\x00")
	if scribble {
		for i := range l {
			l[i] = "scribbled"
		}
	}
	return res
}

// raw shows the cells of the row and scribbles on what it was given.
func raw(c grate.Collection) string {
	rc, ok := c.(interface{ Raw() []commonxl.Cell })
	if !ok {
		return ""
	}
	cells := rc.Raw()
	var sb strings.Builder
	for i, x := range cells {
		if len(x) > 0 {
			fmt.Fprint(&sb, []interface{}(x))
			for k := range x {
				x[k] = nil
			}
		}
		cells[i] = nil
		sb.WriteByte('|')
	}
	return sb.String()
}

func (e *env) op(id int, st *taskState, o *plan.Op, out *[]rec) bool {
	r := rec{Op: o.Op, S: o.S, T: o.T, File: o.File, Obs: o.Obs}
	skip := func() bool {
		r.Skip = true
		*out = append(*out, r)
		return true
	}
	switch o.Op {
	case "open":
		r.Name = o.Opener
		return e.do(r, out, func(r *rec) error {
			st.src[o.S] = nil
			st.list[o.S] = nil
			s, err := openBy(o.Opener, e.path(o.File))
			if err == nil {
				st.src[o.S], st.file[o.S] = s, o.File
				if s == nil {
					return errors.New("simulator: no error and no source")
				}
				r.Row = fmt.Sprintf("%T", s)
			}
			return err
		})
	case "list":
		if st.src[o.S] == nil {
			return skip()
		}
		r.File = st.file[o.S]
		return e.do(r, out, func(r *rec) error {
			l, err := st.src[o.S].List()
			r.Names = append([]string(nil), l...)
			r.Row = hidden(st.src[o.S], o.N == 1)
			if o.N == 1 { // scribble
				for i := range l {
					l[i] = "scribbled"
				}
			}
			return err
		})
	case "get":
		st.tab[o.T], st.row[o.T] = nil, false
		if st.src[o.S] == nil {
			return skip()
		}
		r.File = st.file[o.S]
		r.Name = e.tableName(st, o.S, o.Name)
		return e.do(r, out, func(r *rec) error {
			c, err := st.src[o.S].Get(r.Name)
			if err == nil && c == nil {
				return errors.New("simulator: no error and no table")
			}
			if err == nil {
				st.tab[o.T] = c
			}
			return err
		})
	case "next":
		if st.tab[o.T] == nil {
			return skip()
		}
		return e.do(r, out, func(r *rec) error {
			n := o.N
			if n == 0 {
				n = 1
			}
			for i := 0; i < n; i++ {
				st.row[o.T] = st.tab[o.T].Next()
				if st.row[o.T] {
					r.N++
				}
			}
			r.Bool = st.row[o.T]
			return nil
		})
	case "obs", "hold", "mutate":
		if st.tab[o.T] == nil || !st.row[o.T] {
			return skip()
		}
		return e.do(r, out, func(r *rec) error {
			t := &table{}
			e.observe(st.tab[o.T], o.Obs, t)
			r.Tab = t
			lists := [][][]string{t.Rows, t.Types, t.Formats}
			for k, l := range lists {
				for i, row := range l {
					switch o.Op {
					case "hold":
						e.held[id] = append(e.held[id], &held{id, [3]string{"text", "types", "formats"}[k], row, append([]string(nil), row...)})
					case "mutate":
						l[i] = append([]string(nil), row...)
						for j := range row {
							row[j] = "scribbled"
						}
						if cap(row) > len(row) {
							row = append(row, "scribbled")
						}
					}
				}
			}
			return nil
		})
	case "drain":
		if st.tab[o.T] == nil {
			return skip()
		}
		return e.do(r, out, func(r *rec) error {
			r.Tab = &table{}
			e.drain(st.tab[o.T], o.Obs, r.Tab)
			st.row[o.T] = false
			return nil
		})
	case "readall":
		if st.src[o.S] == nil {
			return skip()
		}
		var names []string
		r.File = st.file[o.S]
		l := r
		l.Op = "list"
		if !e.do(l, out, func(r *rec) error {
			var err error
			names, err = st.src[o.S].List()
			names = append([]string(nil), names...)
			r.Names = names
			r.Row = hidden(st.src[o.S], false)
			return err
		}) {
			return false
		}
		if o.N > 0 && len(names) > o.N {
			names = names[:o.N]
		}
		for k, nm := range names {
			if k >= 300 {
				break
			}
			var c grate.Collection
			g := r
			g.Op, g.Name = "get", nm
			if !e.do(g, out, func(r *rec) error {
				var err error
				c, err = st.src[o.S].Get(nm)
				if err != nil {
					c = nil
				} else if c == nil {
					err = errors.New("simulator: no error and no table")
				}
				return err
			}) {
				return false
			}
			if c == nil {
				continue
			}
			d := r
			d.Op, d.Name = "drain", nm
			if !e.do(d, out, func(r *rec) error {
				r.Tab = &table{Name: nm}
				e.drain(c, o.Obs, r.Tab)
				return nil
			}) {
				return false
			}
		}
		return true
	case "close":
		if st.src[o.S] == nil {
			return skip()
		}
		r.File = st.file[o.S]
		return e.do(r, out, func(r *rec) error { return st.src[o.S].Close() })
	case "damage", "restore", "shrink":
		if o.File >= len(e.data) {
			return skip()
		}
		b := e.data[o.File]
		switch o.Op {
		case "damage":
			if o.Dmg != nil {
				b = o.Dmg.Apply(b)
			}
		case "shrink":
			if o.N < len(b) {
				b = b[:o.N]
			}
		}
		rt.PutFile(e.path(o.File), b, false)
		*out = append(*out, r)
		return true
	case "yield":
		rt.Yield()
		return true
	case "forget":
		st.src[o.S] = nil
		return true
	}
	return e.streamOp(st, o, r, out)
}

// streamOp: compound containers, slice readers and decryptors used directly.
func (e *env) streamOp(st *taskState, o *plan.Op, r rec, out *[]rec) bool {
	skip := func() bool {
		r.Skip = true
		*out = append(*out, r)
		return true
	}
	switch o.Op {
	case "cfbopen":
		return e.do(r, out, func(r *rec) error {
			st.doc[o.S] = nil
			d, err := cfb.Open(e.path(o.File))
			if err == nil {
				st.doc[o.S] = d
			}
			st.file[o.S] = o.File
			return err
		})
	case "cfblist":
		if st.doc[o.S] == nil {
			return skip()
		}
		r.File = st.file[o.S]
		return e.do(r, out, func(r *rec) error {
			l, err := st.doc[o.S].List()
			r.Names = l
			return err
		})
	case "stream":
		st.strm[o.T] = nil
		if st.doc[o.S] == nil {
			return skip()
		}
		r.File = st.file[o.S]
		name := "no such stream"
		if f := e.sc.Files[r.File]; f.CFB != nil && o.Name >= 0 {
			if k := o.Name % (len(f.CFB.Extra) + len(f.CFB.Nested)); k < len(f.CFB.Extra) {
				name = f.CFB.Extra[k].Name
			} else {
				name = f.CFB.Nested[k-len(f.CFB.Extra)].Name
			}
		} else if f.Kind == "xls" && o.Name >= 0 {
			name = "Workbook"
		}
		switch o.N {
		case 1: // case means nothing
			name = strings.ToUpper(name)
		case 2:
			name = strings.ToLower(name)
		}
		r.Name = name
		return e.do(r, out, func(r *rec) error {
			s, err := st.doc[o.S].Open(name)
			if err == nil {
				st.strm[o.T] = s
				if s == nil {
					return errors.New("simulator: no error and no stream")
				}
			}
			return err
		})
	case "slices":
		// a reader over pieces of the given sizes (Data), of content defined by N
		var parts [][]byte
		at := 0
		for _, n := range o.Data {
			p := make([]byte, n)
			for i := range p {
				p[i] = gen.Pattern(uint64(o.N), at)
				at++
			}
			parts = append(parts, p)
		}
		st.strm[o.T] = &cfb.SliceReader{Data: parts}
		*out = append(*out, r)
		return true
	case "sread":
		if st.strm[o.T] == nil {
			return skip()
		}
		if o.N < 0 || o.N > 1<<20 {
			return skip()
		}
		return e.do(r, out, func(r *rec) error {
			b := make([]byte, o.N+8)
			for i := range b {
				b[i] = 0xA5
			}
			n, err := st.strm[o.T].Read(b[:o.N])
			r.N = n
			if n >= 0 && n <= o.N {
				r.Data = append([]byte(nil), b[:n]...)
			}
			for i := o.N; i < len(b); i++ {
				if b[i] != 0xA5 {
					r.Row = "overrun"
				}
			}
			r.Bool = err == io.EOF
			return err
		})
	case "sfull":
		if st.strm[o.T] == nil || o.N < 0 || o.N > 1<<20 {
			return skip()
		}
		return e.do(r, out, func(r *rec) error {
			b := make([]byte, o.N)
			n, err := io.ReadFull(st.strm[o.T], b)
			r.N, r.Data, r.Bool = n, b[:n], err == io.EOF || err == io.ErrUnexpectedEOF
			return err
		})
	case "sseek":
		if st.strm[o.T] == nil {
			return skip()
		}
		return e.do(r, out, func(r *rec) error {
			p, err := st.strm[o.T].Seek(int64(o.N), o.W)
			r.Pos = p
			return err
		})
	case "cryptnew":
		return e.do(r, out, func(r *rec) error {
			d, err := crypto.NewBasicRC4(gen.CryptHeader(uint64(o.N)))
			if err == nil {
				st.cry[o.S] = d
			}
			return err
		})
	case "cwrite":
		if st.cry[o.S] == nil {
			return skip()
		}
		return e.do(r, out, func(r *rec) error {
			b := append([]byte(nil), o.Data...)
			n, err := st.cry[o.S].Write(b)
			r.N = n
			if string(b) != string(o.Data) {
				r.Row = "modified"
			}
			for i := range b {
				b[i] = 0xEE // the caller reuses its buffer
			}
			return err
		})
	case "cread":
		if st.cry[o.S] == nil || o.N < 0 || o.N > 1<<20 {
			return skip()
		}
		return e.do(r, out, func(r *rec) error {
			b := make([]byte, o.N)
			n, err := st.cry[o.S].Read(b)
			r.N = n
			if n >= 0 && n <= o.N {
				r.Data = b[:n]
			}
			r.Bool = err == io.EOF
			return err
		})
	case "cflush":
		if st.cry[o.S] == nil {
			return skip()
		}
		return e.do(r, out, func(r *rec) error { st.cry[o.S].Flush(); return nil })
	case "creset":
		if st.cry[o.S] == nil {
			return skip()
		}
		return e.do(r, out, func(r *rec) error { st.cry[o.S].Reset(); return nil })
	case "cbytes":
		if st.cry[o.S] == nil {
			return skip()
		}
		return e.do(r, out, func(r *rec) error {
			r.Data = append([]byte(nil), st.cry[o.S].Bytes()...)
			return nil
		})
	}
	fmt.Fprintln(os.Stderr, "unknown operation", o.Op)
	os.Exit(3)
	return false
}

// digest of everything observed, with errors only as errors.
func (e *env) digest() uint64 {
	h := fnv.New64a()
	for _, l := range e.recs {
		for i := range l {
			r := &l[i]
			fmt.Fprint(h, r.Op, r.Name, r.S, r.T, r.File, r.IsErr, r.Skip, r.Names, r.N, r.Pos, r.Bool, r.Row, r.Panic != "", r.Hang, "\n")
			h.Write(r.Data)
			if r.Tab != nil {
				fmt.Fprint(h, r.Tab.Rows, r.Tab.Types, r.Tab.Formats, r.Tab.Scans, r.Tab.Err, "\n")
			}
		}
	}
	return h.Sum64()
}

func resetPools(mode string, seed uint64) {
	if mode == "" {
		mode = "lifo"
	}
	simsync.PoolMode, simsync.PoolSeed = mode, seed
	simsync.ResetPools()
}
