package build

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Options tune the instrumentation of a package.
type Options struct {
	RenameMain string // new name of func main ("" = keep)
	Module     string // path and root directory of the module
	Root       string
	PlainGo    bool // do not capture the operands of go statements (fallback)
}

const (
	rtName  = "simrt__"
	stdName = "simstd__"
)

type splice struct {
	at, end int // replace [at,end) with text; at==end inserts
	text    string
	prio    int
}

type instrumenter struct {
	fset    *token.FileSet
	src     []byte
	base    int
	info    *types.Info
	out     []splice
	opt     Options
	n       int
	keep    map[string]bool
	handled map[ast.Node]bool
}

func (in *instrumenter) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *instrumenter) ins(p token.Pos, text string, prio int) {
	o := in.off(p)
	in.out = append(in.out, splice{o, o, text, prio})
}

func (in *instrumenter) rep(from, to token.Pos, text string) {
	in.out = append(in.out, splice{in.off(from), in.off(to), text, 0})
}

func (in *instrumenter) isChan(e ast.Expr) bool {
	if tv, ok := in.info.Types[e]; ok && tv.Type != nil {
		_, ok := tv.Type.Underlying().(*types.Chan)
		return ok
	}
	return false
}

func (in *instrumenter) isPkg(e ast.Expr, path string) bool {
	id, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	if pn, ok := in.info.Uses[id].(*types.PkgName); ok {
		return pn.Imported().Path() == path
	}
	return false
}

func (in *instrumenter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	o := in.info.Uses[id]
	if o == nil {
		return true
	}
	_, ok = o.(*types.Builtin)
	return ok
}

func (in *instrumenter) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		in.ins(s.Pos(), rtName+".Y();", 5)
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

// recvCall rewrites "<-ch" to a call of the given function.
func (in *instrumenter) recvCall(u *ast.UnaryExpr, fn string) {
	in.handled[u] = true
	in.rep(u.OpPos, u.OpPos+2, rtName+"."+fn+"(")
	in.ins(u.End(), ")", -1)
}

// redirected names of the standard library wait for somebody or something;
// the simulator has its own.
var redirected = []struct{ pkg, name, to, keep string }{
	{"io", "Pipe", "", ".EOF"},
	{"io", "PipeReader", "", ".EOF"},
	{"io", "PipeWriter", "", ".EOF"},
	{"time", "After", "", ".Now"},
	{"time", "AfterFunc", "", ".Now"},
	{"time", "NewTimer", "", ".Now"},
	{"time", "Timer", "", ".Now"},
	{"time", "NewTicker", "", ".Now"},
	{"time", "Ticker", "", ".Now"},
	{"time", "Tick", "", ".Now"},
	{"context", "WithCancel", "", ".Background"},
	{"context", "WithCancelCause", "", ".Background"},
	{"context", "WithDeadline", "", ".Background"},
	{"context", "WithDeadlineCause", "", ".Background"},
	{"context", "WithTimeout", "", ".Background"},
	{"context", "WithTimeoutCause", "", ".Background"},
	{"context", "AfterFunc", "AfterFuncCtx", ".Background"},
	{"context", "Cause", "", ".Background"},
	{"context", "WithoutCancel", "", ".Background"},
}

// src0 is the unchanged source text of a node.
func (in *instrumenter) src0(n ast.Node) string {
	return string(in.src[in.off(n.Pos()):in.off(n.End())])
}

// text is the instrumented source text of a node which is moved elsewhere.
func (in *instrumenter) text(n ast.Node) string {
	sub := &instrumenter{fset: in.fset, src: in.src, info: in.info, opt: in.opt, n: in.n, keep: in.keep, handled: map[ast.Node]bool{}}
	sub.walk(n)
	in.n = sub.n
	return string(sub.apply(in.off(n.Pos()), in.off(n.End())))
}

// walk instruments a node and everything below it.
func (in *instrumenter) walk(root ast.Node) {
	ast.Inspect(root, func(n ast.Node) bool {
		if n == nil {
			return true
		}
		if in.handled[n] {
			switch n.(type) {
			case *ast.UnaryExpr, *ast.SendStmt, *ast.SelectStmt:
				return true
			}
			return false
		}
		return in.visit(n)
	})
}

func (in *instrumenter) visit(n ast.Node) bool {
	switch v := n.(type) {
	case *ast.BlockStmt:
		in.stmts(v.List)
	case *ast.CaseClause:
		in.stmts(v.Body)
	case *ast.CommClause:
		in.stmts(v.Body)
	case *ast.ForStmt:
		in.ins(v.Body.Lbrace+1, rtName+".Y();", 4)
	case *ast.RangeStmt:
		if !in.isChan(v.X) {
			in.ins(v.Body.Lbrace+1, rtName+".Y();", 4)
			break
		}
		in.n++
		c := fmt.Sprintf("simc%d__", in.n)
		// for K := range X {   =>   for c, K := RangeInit(X); RangeNext(c, &K); {
		switch {
		case v.Key == nil || isBlank(v.Key):
			in.rep(v.For, v.X.Pos(), "for "+c+" := ")
			in.ins(v.X.End(), "; "+rtName+".RangeSkip("+c+");", -2)
		case v.Tok == token.DEFINE:
			k := in.text(v.Key)
			in.rep(v.For, v.X.Pos(), "for "+c+", "+k+" := "+rtName+".RangeInit(")
			in.ins(v.X.End(), "); "+rtName+".RangeNext("+c+", &"+k+");", -2)
		default:
			in.rep(v.For, v.X.Pos(), "for "+c+" := ")
			in.ins(v.X.End(), "; "+rtName+".RangeNext("+c+", &"+in.text(v.Key)+");", -2)
		}
	case *ast.GoStmt:
		in.goStmt(v)
	case *ast.SendStmt:
		if in.handled[v] {
			break
		}
		in.ins(v.Chan.Pos(), rtName+".Send(", 1)
		in.rep(v.Chan.End(), v.Value.Pos(), ")(")
		in.ins(v.Value.End(), ")", -1)
	case *ast.AssignStmt:
		if len(v.Lhs) == 2 && len(v.Rhs) == 1 {
			if u := recvOf(v.Rhs[0]); u != nil && !in.handled[u] {
				in.recvCall(u, "Recv2")
			}
		}
	case *ast.ValueSpec:
		if len(v.Names) == 2 && len(v.Values) == 1 {
			if u := recvOf(v.Values[0]); u != nil && !in.handled[u] {
				in.recvCall(u, "Recv2")
			}
		}
	case *ast.UnaryExpr:
		if v.Op == token.ARROW && !in.handled[v] {
			in.recvCall(v, "Recv")
		}
	case *ast.SelectorExpr:
		for _, r := range redirected {
			if v.Sel.Name == r.name && in.isPkg(v.X, r.pkg) {
				to := r.to
				if to == "" {
					to = r.name
				}
				in.keep["("+in.src0(v.X)+r.keep+")"] = true
				in.rep(v.Pos(), v.End(), stdName+"."+to)
				return false
			}
		}
	case *ast.LabeledStmt:
		if s, ok := v.Stmt.(*ast.SelectStmt); ok {
			in.handled[s] = true
			in.selectStmt(s, v)
		}
	case *ast.SelectStmt:
		if !in.handled[v] {
			in.selectStmt(v, nil)
		}
	case *ast.CallExpr:
		if in.isBuiltin(v.Fun, "close") && len(v.Args) == 1 {
			in.rep(v.Fun.Pos(), v.Fun.End(), rtName+".Close")
		}
		if s, ok := v.Fun.(*ast.SelectorExpr); ok && !in.handled[s] {
			switch {
			case in.isPkg(s.X, "time") && s.Sel.Name == "Sleep":
				in.keep["time.Sleep"] = true
				in.rep(s.Pos(), s.End(), rtName+".SleepD")
			case in.isPkg(s.X, "runtime") && s.Sel.Name == "Gosched":
				in.keep["runtime.Gosched"] = true
				in.rep(s.Pos(), s.End(), rtName+".Yield")
			case in.isPkg(s.X, "runtime") && s.Sel.Name == "GOMAXPROCS":
				in.keep["runtime.GOMAXPROCS"] = true
				in.rep(s.Pos(), s.End(), rtName+".GOMAXPROCS")
			}
		}
	}
	return true
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (in *instrumenter) leaveSelect(s *ast.SelectStmt) {
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		switch x := cc.Comm.(type) {
		case *ast.SendStmt:
			in.handled[x] = true
		case *ast.ExprStmt:
			if u := recvOf(x.X); u != nil {
				in.handled[u] = true
			}
		case *ast.AssignStmt:
			if u := recvOf(x.Rhs[0]); u != nil {
				in.handled[u] = true
			}
		}
	}
}

// selectStmt rewrites a select statement to a switch over the simulator's choice.
func (in *instrumenter) selectStmt(s *ast.SelectStmt, label *ast.LabeledStmt) {
	in.leaveSelect(s) // the communications are rewritten here
	in.n++
	pre := fmt.Sprintf("simsel%d_", in.n)
	head, names := "{ ", []string{}
	hasDefault := false
	k := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		name := fmt.Sprintf("%s%d__", pre, k)
		body := ""
		switch x := cc.Comm.(type) {
		case nil:
			hasDefault = true
			in.rep(cc.Case, cc.Colon, "case -1")
			continue
		case *ast.SendStmt:
			head += fmt.Sprintf("%s := %s.SendCase(%s)(%s); ", name, rtName, in.text(x.Chan), in.text(x.Value))
		case *ast.ExprStmt:
			head += fmt.Sprintf("%s := %s.RecvCase(%s); ", name, rtName, in.text(recvOf(x.X).X))
		case *ast.AssignStmt:
			head += fmt.Sprintf("%s := %s.RecvCase(%s); ", name, rtName, in.text(recvOf(x.Rhs[0]).X))
			body = in.text(x.Lhs[0])
			if len(x.Lhs) == 2 {
				body += ", " + in.text(x.Lhs[1]) + " " + x.Tok.String() + " " + name + ".V, " + name + ".Ok;"
			} else {
				body += " " + x.Tok.String() + " " + name + ".V;"
			}
		}
		in.rep(cc.Case, cc.Colon+1, fmt.Sprintf("case %d: %s", k, body))
		names = append(names, name)
		k++
	}
	call := fmt.Sprintf("%s.Select(%v", rtName, hasDefault)
	for _, n := range names {
		call += ", " + n
	}
	if label != nil {
		in.rep(label.Pos(), s.Body.Lbrace, head+label.Label.Name+": switch "+call+") ")
	} else {
		in.rep(s.Select, s.Body.Lbrace, head+"switch "+call+") ")
	}
	in.ins(s.End(), " }", -3)
}

func (in *instrumenter) goStmt(g *ast.GoStmt) {
	call := g.Call
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		in.rep(g.Go, fl.Pos(), rtName+".Go(")
		in.rep(fl.End(), call.End(), ")")
		return
	}
	inline := in.opt.PlainGo
	var lhs, rhs, args []string
	if _, ok := call.Fun.(*ast.FuncLit); !ok {
		// rewritten as text: nothing inside needs instrumentation
		in.markHandled(call)
		fun := in.text(call.Fun)
		if id, ok := call.Fun.(*ast.Ident); ok && types.Universe.Lookup(id.Name) != nil {
			inline = true
		}
		if !inline {
			lhs, rhs = append(lhs, "simf__"), append(rhs, fun)
			fun = "simf__"
		}
		for i, a := range call.Args {
			t := in.text(a)
			tv := in.info.Types[a]
			if inline || tv.IsNil() || tv.Value != nil {
				args = append(args, t)
				continue
			}
			switch a.(type) {
			case *ast.BasicLit:
				args = append(args, t)
				continue
			}
			n := fmt.Sprintf("sima%d__", i)
			lhs, rhs, args = append(lhs, n), append(rhs, t), append(args, n)
		}
		dots := ""
		if call.Ellipsis.IsValid() {
			dots = "..."
		}
		decl := ""
		if len(lhs) > 0 {
			decl = strings.Join(lhs, ", ") + " := " + strings.Join(rhs, ", ") + "; "
		}
		in.rep(g.Pos(), g.End(), "{ "+decl+rtName+".Go(func() { "+fun+"("+strings.Join(args, ", ")+dots+") }) }")
		return
	}
	// go func(a T) { ... }(x): evaluate x now
	for i, a := range call.Args {
		tv := in.info.Types[a]
		if _, lit := a.(*ast.BasicLit); in.opt.PlainGo || lit || tv.IsNil() || tv.Value != nil {
			args = append(args, in.text(a))
			continue
		}
		n := fmt.Sprintf("sima%d__", i)
		lhs, rhs, args = append(lhs, n), append(rhs, in.text(a)), append(args, n)
		in.markHandled(a)
	}
	decl := ""
	if len(lhs) > 0 {
		decl = strings.Join(lhs, ", ") + " := " + strings.Join(rhs, ", ") + "; "
	}
	in.rep(g.Go, call.Fun.Pos(), "{ "+decl+rtName+".Go(func() { ")
	dots := ""
	if call.Ellipsis.IsValid() {
		dots = "..."
	}
	in.rep(call.Lparen, call.End(), "("+strings.Join(args, ", ")+dots+") }) }")
}

// markHandled keeps everything below n free of further rewriting.
func (in *instrumenter) markHandled(n ast.Node) {
	ast.Inspect(n, func(x ast.Node) bool {
		if x != nil {
			in.handled[x] = true
		}
		return true
	})
}

// fakeImporter knows the repository's own packages and, of the standard
// library, what has to do with channels; the rest stays unknown.
type fakeImporter struct {
	m         map[string]*types.Package
	mod, root string
}

var stubs = map[string]string{
	"time": `package time
type Time struct{}
type Duration int64
type Timer struct{ C <-chan Time }
type Ticker struct{ C <-chan Time }
func Now() Time
func After(Duration) <-chan Time
func Tick(Duration) <-chan Time
func NewTimer(Duration) *Timer
func NewTicker(Duration) *Ticker
func AfterFunc(Duration, func()) *Timer
const (
	Nanosecond Duration = 1
	Microsecond = 1000 * Nanosecond
	Millisecond = 1000 * Microsecond
	Second = 1000 * Millisecond
	Minute = 60 * Second
	Hour = 60 * Minute
)`,
	"context": `package context
type Context interface { Done() <-chan struct{}; Err() error; Value(any) any }
type CancelFunc func()
func Background() Context
func TODO() Context
func WithCancel(Context) (Context, CancelFunc)
func WithValue(Context, any, any) Context`,
}

func (f fakeImporter) source(path, dir string) *types.Package {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil
	}
	f.m[path] = types.NewPackage(path, filepath.Base(path)) // cycles end here
	fset := token.NewFileSet()
	var files []*ast.File
	for _, e := range ents {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		af, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		files = append(files, af)
	}
	if len(files) == 0 {
		return nil
	}
	conf := types.Config{Error: func(error) {}, Importer: f, FakeImportC: true}
	p, _ := conf.Check(path, fset, files, nil)
	return p
}

func (f fakeImporter) Import(path string) (*types.Package, error) {
	if p := f.m[path]; p != nil {
		return p, nil
	}
	if src, ok := stubs[path]; ok {
		fset := token.NewFileSet()
		if af, err := parser.ParseFile(fset, path+".go", src, 0); err == nil {
			conf := types.Config{Error: func(error) {}, Importer: f}
			if p, _ := conf.Check(path, fset, []*ast.File{af}, nil); p != nil {
				f.m[path] = p
				return p, nil
			}
		}
	}
	if rel := strings.TrimPrefix(path, f.mod+"/"); f.mod != "" && (rel != path || path == f.mod) {
		dir := f.root
		if rel != path {
			dir = filepath.Join(f.root, rel)
		}
		if p := f.source(path, dir); p != nil {
			f.m[path] = p
			return p, nil
		}
	}
	name := path[strings.LastIndex(path, "/")+1:]
	p := types.NewPackage(path, name)
	p.MarkComplete()
	f.m[path] = p
	return p, nil
}

// Package instruments the non-test Go files of a directory.
func Package(dir string, opt Options) (map[string][]byte, error) {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	srcs := map[string][]byte{}
	for _, e := range ents {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		fn := filepath.Join(dir, e.Name())
		b, err := os.ReadFile(fn)
		if err != nil {
			return nil, err
		}
		f, err := parser.ParseFile(fset, fn, b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files, names = append(files, f), append(names, fn)
		srcs[fn] = b
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Error: func(error) {}, Importer: fakeImporter{map[string]*types.Package{}, opt.Module, opt.Root}, FakeImportC: true}
	conf.Check(dir, fset, files, info)
	res := map[string][]byte{}
	for i, f := range files {
		fn := names[i]
		in := &instrumenter{fset: fset, src: srcs[fn], info: info, opt: opt, keep: map[string]bool{}, handled: map[ast.Node]bool{}}
		for _, d := range f.Decls {
			in.walk(d)
			if fd, ok := d.(*ast.FuncDecl); ok && opt.RenameMain != "" && fd.Recv == nil && fd.Name.Name == "main" {
				in.rep(fd.Name.Pos(), fd.Name.End(), opt.RenameMain)
			}
		}
		for _, imp := range f.Imports {
			if imp.Path.Value == `"sync"` {
				name := "sync "
				if imp.Name != nil {
					name = imp.Name.Name + " "
				}
				in.rep(imp.Pos(), imp.End(), name+`"verif.local/sim/simsync"`)
			}
		}
		in.ins(f.Name.End(), `; import `+rtName+` "verif.local/sim/rt"; var _ = `+rtName+`.Y;`, 9)
		// imports must come before declarations
		in.fixHeader(f)
		out := in.apply(0, len(in.src))
		res[fn] = out
	}
	return res, nil
}

// fixHeader turns the combined header insertion into an import alone, and
// puts the keep-alive declarations at the end of the file.
func (in *instrumenter) fixHeader(f *ast.File) {
	for i := range in.out {
		if in.out[i].prio == 9 {
			in.out[i].text = `; import ` + rtName + ` "verif.local/sim/rt"; import ` + stdName + ` "verif.local/sim/simstd"`
		}
	}
	tail := "\nvar _ = " + rtName + ".Y\nvar _ = " + stdName + ".Pipe\n"
	var ks []string
	for k := range in.keep {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		tail += "var _ = " + k + "\n"
	}
	in.out = append(in.out, splice{len(in.src), len(in.src), tail, 0})
}

// apply returns the source between two offsets with the changes made there.
func (in *instrumenter) apply(from, to int) []byte {
	sort.SliceStable(in.out, func(i, j int) bool {
		a, b := in.out[i], in.out[j]
		if a.at != b.at {
			return a.at < b.at
		}
		// at one position: closing insertions, then openings, then replacements
		ap, bp := a.prio, b.prio
		if (a.at == a.end) != (b.at == b.end) {
			return a.at == a.end
		}
		if (ap < 0) != (bp < 0) {
			return ap < 0
		}
		if ap < 0 {
			return ap > bp
		}
		return ap > bp
	})
	var out []byte
	pos := from
	for _, s := range in.out {
		if s.at < pos || s.end > to {
			continue // inside something already replaced as a whole
		}
		out = append(out, in.src[pos:s.at]...)
		out = append(out, s.text...)
		pos = s.end
	}
	return append(out, in.src[pos:to]...)
}
