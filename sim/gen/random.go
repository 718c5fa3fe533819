package gen

import (
	"fmt"
	"math"
	"strings"

	"verif.local/sim/scen"
)

// RandText returns a text; long ones are rare.
func RandText(r *Rand) string {
	n := 1 + r.Intn(12)
	switch r.Intn(30) {
	case 0:
		n = 1
	case 1:
		n = r.Range(50, 400)
	case 2:
		if r.P(4) {
			n = r.Range(400, 9000)
		}
	}
	alpha := []rune("abcdefghijklmnopqrstuvwxyz ABCDE012345.,;:-_/()'%<>&\"#")
	switch r.Intn(8) {
	case 0:
		alpha = []rune("äöüßéèñçÀÿ£§ abcdefgh")
	case 1:
		alpha = []rune("日本語テキスト表計算ab 12")
	case 2:
		alpha = []rune("abcα😀β𝄞γ xyz")
	case 3:
		alpha = []rune("0123456789.-")
	}
	out := make([]rune, n)
	for i := range out {
		out[i] = alpha[r.Intn(len(alpha))]
	}
	if r.P(25) && n > 400 {
		// a narrow beginning and a wide end
		for i := range out {
			if i < n/2 {
				out[i] = 'a' + rune(i%26)
			} else {
				out[i] = 0x4e00 + rune(i%500)
			}
		}
	}
	s := string(out)
	if r.P(20) {
		s = s[:0] + "line\n" + s
	}
	if r.P(30) {
		s = " " + s + " "
	}
	return s
}

func randNumber(r *Rand, f string) float64 {
	switch f {
	case "i":
		return float64(r.Range(-5000, 5000))
	case "f2", "f3":
		return float64(r.Range(-40000, 40000)) / 4
	case "p2":
		return float64(r.Range(-300, 300)) / 100
	case "d", "ymd", "dmy":
		return float64(r.Range(61, 50000))
	case "dt":
		if r.P(4) {
			// one of the days on which many places change their clocks
			return float64(r.PickInt(42826, 42820, 43044, 42673, 43149, 42064)) + float64(r.Intn(4))/4
		}
		return float64(r.Range(61*4, 50000*4)) / 4
	}
	switch r.Intn(7) {
	case 0:
		return float64(r.Range(-9, 9))
	case 1:
		return float64(r.Range(-99999999, 99999999))
	case 2:
		return float64(r.Range(-999999, 999999)) / 100
	case 3:
		return float64(r.Range(-99999, 99999)) / 8
	case 4:
		return float64(r.Range(-9999, 9999)) / 10000
	case 5:
		return math.Ldexp(1, r.Intn(26))
	}
	return float64(r.Range(-1000, 1000)) / 1000 * 10
}

func randFormat(r *Rand) string {
	if r.P(3) {
		return formats[r.Intn(len(formats))].name
	}
	return formatNames[r.Intn(len(formatNames))]
}

// RandCell fills in kind, value and storage of a cell.
func RandCell(r *Rand, kind string, styles bool, pool []string) Cell {
	c := Cell{E: r.Intn(16)}
	switch k := r.Intn(20); {
	case k < 8:
		c.K = "s"
		if len(pool) > 0 && r.P(2) {
			c.S = pool[r.Intn(len(pool))]
		} else {
			c.S = RandText(r)
		}
		if r.P(40) {
			c.S = ""
		}
		if styles && r.P(6) {
			c.F = randFormat(r)
		}
	case k < 16:
		c.K = "n"
		if styles && r.P(3) {
			c.F = r.Pick("i", "f2", "p2", "d", "ymd", "dt", "dt", "dmy", "f3")
			if r.P(2) {
				nf := &formats[r.Intn(len(formats))]
				c.F = nf.name
				for c.N = nf.pick(r); !nf.ok(c.N) && r.Pct(95); {
					c.N = nf.pick(r)
				}
				break
			}
		}
		c.N = randNumber(r, c.F)
	case k < 17:
		c.K, c.B = "b", r.P(2)
	case k < 18:
		c.K, c.S = "e", r.Pick("#NULL!", "#DIV/0!", "#VALUE!", "#REF!", "#NAME?", "#NUM!", "#N/A")
		if styles && r.P(3) {
			c.F = randFormat(r)
		}
	default:
		c.K = "z"
		if styles && r.P(2) {
			c.F = r.Pick("d", "f2")
			if r.P(3) {
				c.F = randFormat(r)
			}
		}
	}
	if c.valid(kind, false) != nil {
		return Cell{K: "n", N: float64(r.Intn(100))}
	}
	return c
}

func sheetNameFor(r *Rand, i int) string {
	switch r.Intn(6) {
	case 0:
		return fmt.Sprintf("Sheet%d", i+1)
	case 1:
		return fmt.Sprintf("Täbelle %d", i)
	case 2:
		return fmt.Sprintf("表%d", i)
	case 3:
		return fmt.Sprintf("a&b <%d>", i)
	case 4:
		return fmt.Sprintf("This is a rather long name %d", i%1000)
	}
	return fmt.Sprintf("s%d", i)
}

// Size of generated files.
const (
	Tiny = iota
	Small
	Medium
	Large
)

// RandBook returns a random workbook ("xls" or "xlsx") with a random layout.
func RandBook(r *Rand, kind, path string, size int) FileSpec {
	f := FileSpec{Path: path, Kind: kind}
	if kind == "csv" || kind == "tsv" {
		return randText(r, kind, path, size)
	}
	f.D1904 = r.P(8)
	styles := r.Pct(70)
	ns := 1 + r.Intn(3)
	if r.P(20) {
		ns = r.Range(4, 12)
	}
	if size == Tiny {
		ns = 1 + r.Intn(2)
	}
	pool := make([]string, r.Intn(6))
	for i := range pool {
		pool[i] = RandText(r)
		c := Cell{K: "s", S: pool[i]}
		if c.valid(kind, false) != nil {
			pool[i] = "pooled"
		}
	}
	for i := 0; i < ns; i++ {
		s := Sheet{Name: sheetNameFor(r, i)}
		if kind == "xls" && r.P(8) && ns > 1 {
			s.Hidden = r.Range(1, 2)
		}
		if (kind == "xls" || kind == "xlsx") && r.P(25) {
			s.Dialog = true
			f.Sheets = append(f.Sheets, s)
			continue
		}
		rows, cols := r.Range(0, 8), r.Range(1, 7)
		if size == Tiny {
			rows, cols = r.Range(1, 3), r.Range(1, 3)
		} else if size >= Medium {
			rows, cols = r.Range(3, 25), r.Range(1, 12)
		}
		if r.P(30) {
			cols = r.Range(20, 60)
		}
		density := r.PickInt(30, 60, 90, 100)
		r0, c0 := 0, 0
		if r.P(8) {
			r0, c0 = r.Intn(40), r.Intn(30)
		}
		if r.P(60) {
			r0 = r.Range(1000, 5000)
		}
		for y := 0; y < rows; y++ {
			for x := 0; x < cols; x++ {
				if !r.Pct(density) {
					continue
				}
				c := RandCell(r, kind, styles, pool)
				c.R, c.C = r0+y, c0+x
				s.Cells = append(s.Cells, c)
			}
		}
		base := r0 + rows
		if r.P(3) {
			for k := r.Range(1, 3); k > 0; k-- {
				a := Area{R1: base, C1: c0 + r.Intn(3)}
				a.R2, a.C2 = a.R1+r.Intn(3), a.C1+r.Intn(3)
				if a.R1 == a.R2 && a.C1 == a.C2 {
					a.C2++
				}
				if r.P(3) {
					c := RandCell(r, kind, styles, pool)
					c.R, c.C = a.R1, a.C1
					s.Cells = append(s.Cells, c)
				}
				s.Merges = append(s.Merges, a)
				base = a.R2 + 1
			}
		}
		if r.P(4) {
			for k := r.Range(1, 3); k > 0; k-- {
				ln := Link{URL: fmt.Sprintf("http://example.com/%d?a=b&c=%d", k, r.Intn(100)), Kind: r.Intn(8)}
				ln.R1, ln.C1 = base, c0+r.Intn(3)
				ln.R2, ln.C2 = ln.R1, ln.C1
				if kind == "xls" && r.P(3) {
					ln.R2 += r.Intn(2)
					ln.C2 += r.Intn(3)
				}
				if r.P(2) {
					ln.Text = fmt.Sprintf("link %d", k)
				}
				s.Links = append(s.Links, ln)
				base = ln.R2 + 1
			}
		}
		switch r.Intn(8) {
		case 0:
			s.Dim = r.Range(1, 20)
		case 1:
			if len(s.Merges)+len(s.Links) == 0 {
				s.Dim = -1
			}
		}
		if kind == "xls" && r.P(6) {
			for k := r.Range(1, 2); k > 0; k-- {
				s.Nested = append(s.Nested, r.Intn(len(s.Cells)+2))
			}
		}
		if size >= Medium && r.P(2) {
			s.Fill = &Fill{Rows: r.Range(10, 300), Cols: r.Range(1, 10), Kind: r.Intn(3)}
			if size >= Large {
				s.Fill.Rows = r.Range(300, 3000)
			}
		}
		f.Sheets = append(f.Sheets, s)
	}
	if kind == "xls" {
		f.XLS = RandXLSLayout(r, size)
	} else {
		f.XLSX = randXLSXLayout(r, size)
		if !styles && r.P(2) {
			f.XLSX.NoStyle = true
		}
	}
	return f
}

// numBase is what the numbers of custom formats are beyond the first possible.
type numBase int

func (b numBase) renumber(n []int) []int {
	res := make([]int, len(n))
	for i := range n {
		res[i] = n[i]
		if n[i] >= 164 {
			res[i] += int(b)
		}
	}
	return res
}

// Scale makes a workbook have uncommonly many of something.
func Scale(r *Rand, f *FileSpec) {
	if len(f.Sheets) == 0 || f.Kind != "xls" && f.Kind != "xlsx" {
		return
	}
	xf, unused, base := r.PickInt(250, 255, 256, 300, 4000), r.PickInt(255, 256, 300, 32767, 40000), numBase(r.PickInt(80, 100, 200))
	if r.P(8) {
		unused = r.PickInt(65535, 65536, 70000)
	}
	switch r.Intn(5) {
	case 0:
		if f.XLS != nil {
			f.XLS.XFBase = xf
		} else {
			f.XLSX.XFBase = xf
		}
	case 1:
		if f.XLS != nil {
			f.XLS.Unused = unused
		} else {
			f.XLSX.Unused = unused
		}
	case 2:
		if f.XLS != nil {
			f.XLS.NumBase = base
		} else {
			f.XLSX.NumBase = base * numBase(r.PickInt(1, 1, 100))
		}
	case 3:
		for k := r.PickInt(100, 260, 300); k > 0; k-- {
			f.Sheets = append(f.Sheets, Sheet{Name: fmt.Sprintf("Many %d", k), Cells: []Cell{{K: "n", N: float64(k)}}})
		}
	case 4:
		s := &f.Sheets[r.Intn(len(f.Sheets))]
		rows, _ := s.extent()
		if s.Dialog || s.Dim < 0 || s.Fill != nil {
			return
		}
		n, w := r.PickInt(200, 256, 257, 1025, 1026, 1027, 1100), 1+r.Intn(2)
		for k := 0; k < n; k++ {
			at := Area{R1: rows + k/60, C1: k % 60 * 2}
			at.R2, at.C2 = at.R1, at.C1+w
			if w == 2 {
				at.C1, at.C2 = k%40*3, k%40*3+w
				at.R1, at.R2 = rows+k/40, rows+k/40
			}
			s.Merges = append(s.Merges, at)
		}
	}
}

// AtEdge moves the contents of a sheet to the last columns (or, less often,
// rows) that its format has.
func AtEdge(r *Rand, f *FileSpec) {
	if len(f.Sheets) == 0 || f.Kind != "xls" && f.Kind != "xlsx" {
		return
	}
	maxr, maxc := 65536, 256
	if f.Kind == "xlsx" {
		maxr, maxc = 1<<20, 1<<14
	}
	s := &f.Sheets[r.Intn(len(f.Sheets))]
	rows, cols := s.extent()
	if s.Fill != nil || rows == 0 || rows > 100 {
		return
	}
	if s.Dim > 0 && f.Kind == "xlsx" {
		s.Dim = 0
	}
	dr, dc := 0, 0
	if r.P(map[string]int{"xls": 8, "xlsx": 50}[f.Kind]) && cols < 10 {
		dr = maxr - rows
	} else {
		dc = maxc - cols
	}
	for i := range s.Cells {
		s.Cells[i].R += dr
		s.Cells[i].C += dc
	}
	move := func(a *Area) {
		a.R1 += dr
		a.R2 += dr
		a.C1 += dc
		a.C2 += dc
	}
	for i := range s.Merges {
		move(&s.Merges[i])
	}
	for i := range s.Links {
		move(&s.Links[i].Area)
	}
}

// RandCFBLayout returns a container layout.
func RandCFBLayout(r *Rand, size int) CFBLayout {
	l := CFBLayout{V4: r.P(4)}
	if r.Pct(60) {
		l.Shuffle = r.U64()>>40 + 1
	}
	if r.Pct(30) {
		l.Gaps = r.Range(1, 20)
	}
	if r.Pct(60) {
		l.MiniShuffle = r.U64()>>40 + 1
	}
	if r.Pct(30) {
		l.MiniGaps = r.Range(1, 40)
	}
	if r.P(20) {
		l.MiniGaps = r.Range(150, 700) // more than one sector of small block allocations
	}
	if r.P(4) {
		for k := r.Range(1, 3); k > 0; k-- {
			l.Extra = append(l.Extra, Stream{Name: fmt.Sprintf("\x05Extra %d", k), Size: r.PickInt(0, 1, 63, 64, 65, 100, 4095, 4096, 4097, 5000, 9000), Seed: uint64(r.Intn(1000))})
		}
		l.First = r.P(2)
	}
	if r.P(20) {
		l.Extra = append(l.Extra, Stream{Name: "Book", Size: r.PickInt(0, 1, 100, 5000), Seed: uint64(r.Intn(1000))})
	}
	if r.P(8) {
		l.Empty = r.Range(1, 6)
	}
	if r.P(8) {
		l.Storages = r.Range(1, 8)
	}
	if r.P(5) {
		// embedded documents
		l.Storages += r.Range(1, 3)
		for _, n := range []string{"Workbook", "\x05Extra 1", "Contents"} {
			if r.P(2) {
				l.Nested = append(l.Nested, Stream{Name: n, In: r.Intn(l.Storages), Size: r.PickInt(0, 1, 64, 100, 4095, 4096, 9000), Seed: uint64(r.Intn(1000))})
			}
		}
	}
	if r.P(4) {
		l.DirShuffle = r.U64()>>40 + 1
	}
	if r.P(40) {
		l.Gaps = r.Range(128, 700) // more than one allocation table sector
	}
	if r.P(400) && size > Tiny {
		l.Far(r)
	}
	if r.P(50) && size > Tiny {
		l.ExtraFAT = r.Range(108, 240) // with an extended list of table sectors
		l.V4 = false
	}
	if r.P(4) {
		l.Sequential = true
	}
	return l
}

// Far makes the container so large that its allocation table just fills the
// header's list of table sectors, or needs the list's extension.
func (l *CFBLayout) Far(r *Rand) {
	l.V4 = false
	l.Shuffle = r.U64()>>40 + 1
	l.Gaps = r.PickInt(13700, 13800, 13900, 14000, 15000, 30100, 31000) + r.Intn(100)
	if r.P(3) {
		l.Gaps = r.Range(13000, 15000)
	}
}

// RandXLSLayout returns a workbook layout.
func RandXLSLayout(r *Rand, size int) *XLSLayout {
	l := &XLSLayout{CFBLayout: RandCFBLayout(r, size)}
	if r.P(12) {
		l.Name = r.Range(1, 3)
	}
	if r.P(2) {
		for k := r.Range(1, 4); k > 0; k-- {
			l.Chunks = append(l.Chunks, r.PickInt(0, 32, 33, 40, 51, 64, 100, 257, 1000, 8223, 8224))
		}
	}
	if r.P(2) {
		for k := r.Range(1, 3); k > 0; k-- {
			l.SChunks = append(l.SChunks, r.PickInt(0, 32, 35, 64, 101, 1000))
		}
	}
	l.Wide = r.Intn(4)
	if r.P(4) {
		l.Rich = r.Range(1, 4)
	}
	if r.P(4) {
		l.Phon = r.Range(1, 4)
	}
	l.NoShare = r.P(4)
	if r.P(4) {
		l.Unused = r.Range(1, 30)
	}
	if r.P(3) {
		l.Noise = r.Range(1, 12)
	}
	if r.P(3) {
		l.XFBase = r.Range(1, 30)
	}
	if r.P(2) {
		l.Custom = r.U64()>>16 | 1
	}
	if r.P(3) {
		l.Order = r.U64()>>40 + 1
	}
	l.Rows = r.P(2)
	l.RowLast = r.P(2)
	if r.P(7) {
		l.Enc = r.U64()>>40 + 1
	}
	return l
}

func randXLSXLayout(r *Rand, size int) *XLSXLayout {
	l := &XLSXLayout{Store: r.Intn(3), Pretty: r.Intn(3), Names: r.Intn(3), Split: r.Intn(5)}
	if r.P(3) {
		l.Level = r.PickInt(-2, 1, 9)
	}
	l.Stream = r.P(2)
	if r.P(2) {
		l.Shuffle = r.U64()>>40 + 1
	}
	if r.P(8) {
		l.Comment = r.PickInt(1, 10, 1000, 1500, 60000)
	}
	if r.P(6) {
		l.Junk, l.JunkSize = r.Range(1, 5), r.Range(0, 3000)
	}
	if r.P(60) {
		l.Junk, l.JunkSize = r.Range(100, 250), 10
	}
	l.Abs = r.P(4)
	l.Phon = r.P(4)
	l.NoShare = r.P(4)
	if r.P(4) {
		l.Unused = r.Range(1, 30)
	}
	if r.P(3) {
		l.XFBase = r.Range(1, 30)
	}
	if r.P(2) {
		l.Custom = r.U64()>>16 | 1
	}
	l.Spans, l.Formula = r.P(2), r.P(3)
	if r.P(4) {
		l.Prefix = r.Pick("x", "main")
	}
	if r.P(3) {
		l.NoRef = r.Range(1, 3)
	}
	if r.P(3) {
		l.AbsMain = r.Range(1, 2)
	}
	if r.P(12) {
		l.Case = r.U64()>>40 + 1
	}
	l.Other = r.Intn(4)
	return l
}

func randText(r *Rand, kind, path string, size int) FileSpec {
	f := FileSpec{Path: path, Kind: kind, Text: &TextLayout{CRLF: r.P(3), NoFinal: r.P(3), Quote: r.Intn(3)}}
	if kind == "csv" && r.P(6) {
		f.Text.Blank = r.Range(1, 4)
	}
	rows, cols := r.Range(1, 14), r.Range(1, 6)
	if size == Tiny {
		rows, cols = r.Range(1, 3), r.Range(1, 3)
	}
	ragged := r.P(5)
	s := Sheet{Name: "t"}
	for y := 0; y < rows; y++ {
		n := cols
		if ragged {
			n = r.Range(1, cols)
		}
		for x := 0; x < n; x++ {
			c := Cell{R: y, C: x, K: "s"}
			c.S = RandText(r)
			if kind == "tsv" {
				c.S = strings.NewReplacer("\n", " ", "\t", " ").Replace(c.S)
				if len(c.S) > 3000 {
					c.S = "shortened"
				}
			}
			if r.P(8) && (x > 0 || n > 1) && x+1 < n {
				c.K, c.S = "z", ""
			}
			if c.K == "s" && c.valid(kind, false) != nil {
				c.S = "x"
			}
			s.Cells = append(s.Cells, c)
		}
	}
	if size >= Medium && r.P(2) && !ragged {
		s.Fill = &Fill{Rows: r.Range(10, 300), Cols: cols, Kind: r.Intn(3)}
		if size >= Large {
			s.Fill.Rows = r.Range(300, 3000)
		}
		if cols == 1 {
			s.Fill.Kind = 1
		}
	}
	f.Sheets = []Sheet{s}
	if f.Check() != nil && kind == "tsv" {
		f.Text.NoFinal = false
	}
	return f
}

// RandFile returns a valid random file of one of the kinds.
func RandFile(r *Rand, path string, size int, kinds ...string) FileSpec {
	for try := 0; ; try++ {
		k := kinds[r.Intn(len(kinds))]
		p := path
		if !strings.Contains(path, ".") {
			p = path + "." + k
			if r.P(12) {
				// a name says nothing about the content
				p = path + OddExt(r)
			}
		}
		f := RandBook(r, k, p, size)
		if f.Check() == nil {
			return f
		}
		if try > 50 {
			size = Tiny
		}
		if try > 500 {
			panic(f.Check())
		}
	}
}

// OddExt is an extension which says nothing, or something wrong, about a file.
func OddExt(r *Rand) string {
	return r.Pick("", ".dat", ".XLS", ".XLSX", ".txt", ".xls", ".xlsx", ".csv", ".tsv", ".TSV", ".zip", ".bak")
}

// RandOdd is RandFile with OddFormats.
func RandOdd(r *Rand, path string, size int, kinds ...string) FileSpec {
	f := RandFile(r, path, size, kinds...)
	OddFormats(r, &f)
	return f
}

// OddFormats gives some workbooks number formats of all sorts, and some
// cells extreme values. What it shows then is not known to the model.
func OddFormats(r *Rand, f *FileSpec) {
	if f.Kind != "xls" && f.Kind != "xlsx" || len(f.Sheets) == 0 || !r.P(5) {
		return
	}
	g := *f
	g.Odd = 1 + r.U64()>>16
	g.Sheets = append([]Sheet(nil), f.Sheets...)
	for i := range g.Sheets {
		s := &g.Sheets[i]
		s.Cells = append([]Cell(nil), s.Cells...)
		for k := range s.Cells {
			c := &s.Cells[k]
			if c.K != "n" {
				continue
			}
			if r.P(2) {
				c.F = formatNames[r.Intn(len(formatNames))]
			}
			if r.P(4) {
				c.N = oddNumbers[r.Intn(len(oddNumbers))]
			}
		}
	}
	if g.Check() == nil {
		*f = g
	}
}

var oddNumbers = []float64{0, -1, 0.5, -0.5, 1e-9, 1e-300, 5e-324, 1e15, 1e16 + 2, -1e18, 1e19, 1e100, 1.7e308, -1.7e308, 2958465, 2958466, -693594, 60, 59.999999, 0.99999999, 1.0 / 3, 2.0 / 7, 123456.789, 1 << 31, 1 << 53, 100000000000}

// RandStall has some schedules hold tasks up at system calls and synchronisations.
func RandStall(r *Rand, s *scen.Sched) {
	if r.P(2) {
		s.Stall = r.PickInt(2, 5, 15, 50)
		s.Hold = int64(r.PickInt(20, 200, 2000, 50000))
	}
}
