// Package gen holds the reference model of tabular files, the writers which
// turn a model into bytes under many legal layouts, and the tables a reader
// has to deliver for it. It shares no code with the system under test.
package gen

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"
)

// Cell is one stored cell.
type Cell struct {
	R int     `json:"r,omitempty"`
	C int     `json:"c,omitempty"`
	K string  `json:"k"`             // n number, s string, b boolean, e error, z blank (formatted)
	S string  `json:"s,omitempty"`   // text of strings and errors
	N float64 `json:"n,omitempty"`   // value of numbers
	B bool    `json:"b,omitempty"`   // value of booleans
	F string  `json:"f,omitempty"`   // number format: "" general, i, f2, p2, d, ymd, t
	E int     `json:"enc,omitempty"` // storage variant
}

// Area is a merged region or the range of a link.
type Area struct {
	R1 int `json:"r1,omitempty"`
	C1 int `json:"c1,omitempty"`
	R2 int `json:"r2,omitempty"`
	C2 int `json:"c2,omitempty"`
}

// Link is a hyperlink.
type Link struct {
	Area
	Text string `json:"text,omitempty"`
	URL  string `json:"url"`
	Kind int    `json:"kind,omitempty"` // storage variant
}

// Sheet is one table.
type Sheet struct {
	Name   string `json:"name"`
	Hidden int    `json:"hidden,omitempty"` // 1 hidden, 2 very hidden (xls)
	Dialog bool   `json:"dialog,omitempty"` // a dialog sheet (xls) or a chart sheet (xlsx): no cells
	Cells  []Cell `json:"cells,omitempty"`
	Merges []Area `json:"merges,omitempty"`
	Links  []Link `json:"links,omitempty"`
	Dim    int    `json:"dim,omitempty"`    // 0 exact, n>0 larger by n, -1 not stored
	Nested []int  `json:"nested,omitempty"` // xls: embedded charts before these cells
	Fill   *Fill  `json:"fill,omitempty"`   // many rows of regular content below the cells
}

// Fill describes many regular rows without listing their cells.
type Fill struct {
	Rows int `json:"rows"`
	Cols int `json:"cols"`
	Kind int `json:"kind,omitempty"` // 0 mixed, 1 strings only, 2 numbers only
}

// FileSpec describes one input file completely.
type FileSpec struct {
	Path   string      `json:"path"`
	Kind   string      `json:"kind"` // xls xlsx csv tsv corpus raw cfb
	Corpus string      `json:"corpus,omitempty"`
	Sheets []Sheet     `json:"sheets,omitempty"`
	D1904  bool        `json:"d1904,omitempty"` // dates count from 1904
	Odd    uint64      `json:"odd,omitempty"`   // number formats of all sorts, whose result the model does not know
	XLS    *XLSLayout  `json:"xls,omitempty"`
	XLSX   *XLSXLayout `json:"xlsx,omitempty"`
	Text   *TextLayout `json:"text,omitempty"`
	CFB    *CFBLayout  `json:"cfb,omitempty"`
	Raw    []byte      `json:"raw,omitempty"`
	Damage []Damage    `json:"damage,omitempty"`
}

// Table is what a reader has to deliver: trailing blank cells and rows are dropped.
type Table struct {
	Name   string     `json:"name"`
	Hidden bool       `json:"hidden,omitempty"`
	Rows   [][]string `json:"rows"`
	Types  [][]string `json:"types"`
}

// all cells of the sheet, including the fill, in row-major order
func (s *Sheet) all() []Cell {
	cs := append([]Cell(nil), s.Cells...)
	if s.Fill != nil {
		base := 0
		for _, c := range cs {
			if c.R >= base {
				base = c.R + 1
			}
		}
		for _, m := range s.Merges {
			if m.R2 >= base {
				base = m.R2 + 1
			}
		}
		for _, m := range s.Links {
			if m.R2 >= base {
				base = m.R2 + 1
			}
		}
		for r := 0; r < s.Fill.Rows; r++ {
			for c := 0; c < s.Fill.Cols; c++ {
				x := Cell{R: base + r, C: c}
				h := r*31 + c*7
				k := h % 5
				if s.Fill.Kind == 1 {
					k = 0
				} else if s.Fill.Kind == 2 {
					k = 2
				}
				switch k {
				case 0, 1:
					x.K, x.S = "s", fmt.Sprintf("r%dc%d %s", r, c, strings.Repeat("x", h%23))
				case 2:
					x.K, x.N, x.E = "n", float64(h%1000)+0.25, h%4
				case 3:
					x.K, x.N, x.E = "n", float64(h), h%4
				case 4:
					x.K, x.B = "b", h%2 == 0
				}
				cs = append(cs, x)
			}
		}
	}
	sort.SliceStable(cs, func(i, j int) bool {
		if cs[i].R != cs[j].R {
			return cs[i].R < cs[j].R
		}
		return cs[i].C < cs[j].C
	})
	return cs
}

// extent of the stored content: one past the last row and column.
func (s *Sheet) extent() (rows, cols int) {
	grow := func(r, c int) {
		if r >= rows {
			rows = r + 1
		}
		if c >= cols {
			cols = c + 1
		}
	}
	for _, c := range s.all() {
		grow(c.R, c.C)
	}
	for _, m := range s.Merges {
		grow(m.R2, m.C2)
	}
	for _, m := range s.Links {
		grow(m.R2, m.C2)
	}
	return
}

var errorCodes = map[string]byte{
	"#NULL!": 0x00, "#DIV/0!": 0x07, "#VALUE!": 0x0F, "#REF!": 0x17, "#NAME?": 0x1D, "#NUM!": 0x24, "#N/A": 0x2A,
}

// Valid reports why the model lies outside what the reference model defines.
func (f *FileSpec) Valid() error {
	names := map[string]bool{}
	for i := range f.Sheets {
		s := &f.Sheets[i]
		if f.Kind == "xls" || f.Kind == "xlsx" {
			if s.Name == "" || len(utf16.Encode([]rune(s.Name))) > 31 {
				return fmt.Errorf("sheet name")
			}
			if names[s.Name] {
				return fmt.Errorf("duplicate sheet name")
			}
			names[s.Name] = true
		}
		maxr, maxc := 65535, 255
		if f.Kind == "xlsx" {
			maxr, maxc = 1<<20-1, 1<<14-1
		}
		seen := map[[2]int]bool{}
		for _, c := range s.Cells {
			if c.R < 0 || c.C < 0 || c.C > maxc || c.R > maxr {
				return fmt.Errorf("cell position")
			}
			if seen[[2]int{c.R, c.C}] {
				return fmt.Errorf("duplicate cell")
			}
			seen[[2]int{c.R, c.C}] = true
			if err := c.valid(f.Kind, f.Odd != 0); err != nil {
				return err
			}
		}
		mark := func(a Area) error {
			if a.R1 < 0 || a.C1 < 0 || a.R2 < a.R1 || a.C2 < a.C1 || a.R2 > maxr || a.C2 > maxc || (a.R2-a.R1+1)*(a.C2-a.C1+1) > 10000 {
				return fmt.Errorf("area")
			}
			for r := a.R1; r <= a.R2; r++ {
				for c := a.C1; c <= a.C2; c++ {
					if seen[[2]int{r, c}] && (r != a.R1 || c != a.C1) {
						return fmt.Errorf("area overlaps")
					}
					seen[[2]int{r, c}] = true
				}
			}
			return nil
		}
		for _, m := range s.Merges {
			if m.R1 == m.R2 && m.C1 == m.C2 {
				return fmt.Errorf("single cell merge")
			}
			if err := mark(m); err != nil {
				return err
			}
		}
		for _, l := range s.Links {
			if seen[[2]int{l.R1, l.C1}] || (l.R2 != l.R1 || l.C2 != l.C1) && f.Kind != "xls" {
				return fmt.Errorf("link position")
			}
			if err := mark(l.Area); err != nil {
				return err
			}
			if strings.TrimSpace(l.URL) != l.URL || l.URL == "" || strings.TrimSpace(l.Text) != l.Text || strings.ContainsAny(l.URL+l.Text, "\x00\n\r\t") {
				return fmt.Errorf("link text")
			}
		}
		if f.Kind != "xls" && (s.Hidden != 0 || s.Dialog && f.Kind != "xlsx" || len(s.Nested) > 0) {
			return fmt.Errorf("xls feature")
		}
		if s.Dialog && (len(s.Cells) > 0 || len(s.Merges) > 0 || len(s.Links) > 0 || s.Fill != nil) {
			return fmt.Errorf("dialog with cells")
		}
		if s.Fill != nil && (s.Fill.Rows < 0 || s.Fill.Cols < 0 || s.Fill.Rows > 30000 || s.Fill.Cols > 200) {
			return fmt.Errorf("fill")
		}
		if s.Dim < -1 || s.Dim > 100 {
			return fmt.Errorf("dim")
		}
		if s.Dim < 0 && len(s.Merges)+len(s.Links) > 0 {
			return fmt.Errorf("regions without dimensions")
		}
	}
	if len(f.Sheets) == 0 && f.Kind != "xls" && f.Kind != "xlsx" && f.Kind != "corpus" && f.Kind != "raw" && f.Kind != "cfb" {
		return fmt.Errorf("no sheets")
	}
	if (f.Kind == "xls" && f.XLS == nil) || (f.Kind == "xlsx" && f.XLSX == nil) {
		return fmt.Errorf("no layout")
	}
	if f.Kind == "csv" || f.Kind == "tsv" {
		return f.validText()
	}
	return nil
}

func (c *Cell) valid(kind string, odd bool) error {
	if odd && c.K == "n" {
		if !knownFormat(c.F) || math.IsNaN(c.N) || math.IsInf(c.N, 0) {
			return fmt.Errorf("number")
		}
		return nil
	}
	switch c.K {
	case "n":
		switch c.F {
		case "":
			if math.Abs(c.N) > 1e9 || c.N*1e4 != math.Trunc(c.N*1e4) || (c.N != math.Trunc(c.N) && math.Abs(c.N) > 1e5) {
				// keep to values whose general rendering is beyond dispute
				if strconv.FormatFloat(c.N, 'f', -1, 64) != shortDec(c.N) {
					return fmt.Errorf("number")
				}
			}
			if len(strconv.FormatFloat(c.N, 'f', -1, 64)) > 10 {
				return fmt.Errorf("number too long")
			}
		case "i":
			if c.N != math.Trunc(c.N) || math.Abs(c.N) > 1e8 {
				return fmt.Errorf("integer")
			}
		case "f2", "f3":
			if c.N*4 != math.Trunc(c.N*4) || math.Abs(c.N) > 1e6 {
				return fmt.Errorf("f2")
			}
		case "p2":
			if math.Abs(c.N) > 1e4 || c.N != math.Round(c.N*100)/100 {
				return fmt.Errorf("p2")
			}
		case "d", "ymd", "dmy":
			if c.N != math.Trunc(c.N) || c.N < 61 || c.N > 73000 {
				return fmt.Errorf("date")
			}
		case "dt":
			if c.N*4 != math.Trunc(c.N*4) || c.N < 61 || c.N > 73000 {
				return fmt.Errorf("date and time")
			}
		default:
			if nf := formatNamed[c.F]; nf == nil || !nf.ok(c.N) {
				return fmt.Errorf("format")
			}
		}
		if math.Signbit(c.N) && c.N == 0 {
			return fmt.Errorf("negative zero")
		}
	case "s":
		if !knownFormat(c.F) {
			return fmt.Errorf("format")
		}
		if len(c.S) > 32767 || (c.S == "" && kind != "xls" && kind != "xlsx") {
			return fmt.Errorf("text")
		}
		for _, r := range c.S {
			if r == 0xFFFD || r == 0xFEFF || r == 0xFFFE || r == 0xFFFF || (r < 0x20 && r != '\n' && r != '\t') || (r >= 0xD800 && r < 0xE000) {
				return fmt.Errorf("text character")
			}
			switch r {
			case '→', '⇥', '↓', '⤓':
				return fmt.Errorf("marker character")
			}
		}
	case "b", "z":
		if c.F != "" && c.K == "b" {
			return fmt.Errorf("format")
		}
		if !knownFormat(c.F) {
			return fmt.Errorf("format")
		}
	case "e":
		if _, ok := errorCodes[c.S]; !ok || !knownFormat(c.F) {
			return fmt.Errorf("error code")
		}
	default:
		return fmt.Errorf("kind")
	}
	return nil
}

func shortDec(v float64) string { return strconv.FormatFloat(v, 'g', 9, 64) }

func knownFormat(f string) bool {
	for _, n := range formatNames {
		if f == n {
			return true
		}
	}
	return formatNamed[f] != nil
}

// Text and type of a cell as the reader has to present them. Text stays text
// whatever the number format of its cell.
func (c *Cell) expect(kind string, d1904 bool) (text, typ string) {
	switch c.K {
	case "s":
		if c.S == "" {
			return "", "blank"
		}
		return c.S, "string"
	case "b":
		if c.B {
			return "TRUE", "boolean"
		}
		return "FALSE", "boolean"
	case "e":
		return c.S, "string"
	case "z":
		return "", "blank"
	}
	switch c.F {
	case "i":
		return strconv.FormatInt(int64(c.N), 10), "integer"
	case "f2":
		return strconv.FormatFloat(c.N, 'f', 2, 64), "float"
	case "f3":
		return strconv.FormatFloat(c.N, 'f', 3, 64), "float"
	case "dmy":
		return serialDate(c.N, d1904).Format("02/01/2006"), "date"
	case "p2":
		return strconv.FormatFloat(math.Round(c.N*100), 'f', 0, 64) + ".00%", "float"
	case "d":
		return serialDate(c.N, d1904).Format("01-02-06"), "date"
	case "dt":
		return serialDate(c.N, d1904).Add(time.Duration(c.N*4-math.Trunc(c.N)*4) * 6 * time.Hour).Format("1/2/06 15:04"), "date"
	case "ymd":
		return serialDate(c.N, d1904).Format("2006-01-02"), "date"
	}
	if nf := formatNamed[c.F]; nf != nil {
		return nf.text(c.N, d1904), nf.typ
	}
	typ = "float"
	if kind == "xls" && c.E%4 >= 1 && c.E%4 <= 2 {
		if _, isInt, ok := encodeRK(c.N, c.E); ok && isInt {
			typ = "integer"
		}
	}
	return strconv.FormatFloat(c.N, 'f', -1, 64), typ
}

func serialDate(n float64, d1904 bool) time.Time {
	if d1904 {
		return time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC).AddDate(0, 0, int(n))
	}
	return time.Date(1899, 12, 30, 0, 0, 0, 0, time.UTC).AddDate(0, 0, int(n))
}

const (
	markRight    = "→"
	markRightEnd = "⇥"
	markDown     = "↓"
	markDownEnd  = "⤓"
)

type grid struct {
	text map[[2]int]string
	typ  map[[2]int]string
	rows int
	cols map[int]int
}

func (g *grid) put(r, c int, text, typ string) {
	g.text[[2]int{r, c}], g.typ[[2]int{r, c}] = text, typ
}

func (g *grid) area(a Area, link bool, text, typ string) {
	for r := a.R1; r <= a.R2; r++ {
		for c := a.C1; c <= a.C2; c++ {
			switch {
			case r == a.R1 && c == a.C1:
				if link {
					g.put(r, c, text, typ)
				}
			case c == a.C1 && r == a.R2:
				g.put(r, c, markDownEnd, "static")
			case c == a.C1:
				g.put(r, c, markDown, "static")
			case c == a.C2:
				g.put(r, c, markRightEnd, "static")
			default:
				g.put(r, c, markRight, "static")
			}
		}
	}
}

// Expect returns the tables stored in the file, nil when they are not
// defined by the model (corpus and raw files).
func (f *FileSpec) Expect() []Table {
	var res []Table
	if f.Odd != 0 {
		return nil
	}
	switch f.Kind {
	case "xls", "xlsx":
	case "csv", "tsv":
		return f.expectText()
	default:
		return nil
	}
	for i := range f.Sheets {
		s := &f.Sheets[i]
		g := &grid{text: map[[2]int]string{}, typ: map[[2]int]string{}}
		for _, c := range s.all() {
			text, typ := c.expect(f.Kind, f.D1904)
			if typ != "blank" {
				g.put(c.R, c.C, text, typ)
			}
		}
		if f.Kind == "xls" {
			for _, a := range s.Merges {
				g.area(a, false, "", "")
			}
			for _, l := range s.Links {
				g.area(l.Area, true, l.Text+" <"+l.URL+">", "string")
			}
		} else {
			for _, a := range s.Merges {
				g.area(a, false, "", "")
			}
			for _, l := range s.Links {
				g.put(l.R1, l.C1, l.URL, "hyperlink")
			}
		}
		t := Table{Name: s.Name, Hidden: s.Hidden != 0}
		maxr := -1
		ext := map[int]int{}
		for k := range g.text {
			if k[0] > maxr {
				maxr = k[0]
			}
			if k[1]+1 > ext[k[0]] {
				ext[k[0]] = k[1] + 1
			}
		}
		for r := 0; r <= maxr; r++ {
			row, typ := make([]string, ext[r]), make([]string, ext[r])
			for c := range row {
				row[c], typ[c] = g.text[[2]int{r, c}], g.typ[[2]int{r, c}]
				if typ[c] == "" {
					typ[c] = "blank"
				}
			}
			t.Rows, t.Types = append(t.Rows, row), append(t.Types, typ)
		}
		res = append(res, t)
	}
	return res
}

// Normalise drops trailing blank cells and rows.
func Normalise(rows, types [][]string) ([][]string, [][]string) {
	var r2, t2 [][]string
	last := 0
	for i, row := range rows {
		n := len(row)
		for n > 0 && row[n-1] == "" && (i >= len(types) || n > len(types[i]) || types[i][n-1] == "blank") {
			n--
		}
		r2 = append(r2, row[:n])
		if i < len(types) {
			m := n
			if m > len(types[i]) {
				m = len(types[i])
			}
			t2 = append(t2, types[i][:m])
		} else {
			t2 = append(t2, nil)
		}
		if n > 0 {
			last = i + 1
		}
	}
	return r2[:last], t2[:last]
}

// Rand is a small deterministic generator.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed*0x9e3779b97f4a7c15 + 0x1234567} }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a value in [a,b].
func (r *Rand) Range(a, b int) int { return a + r.Intn(b-a+1) }

// P is true with probability 1/n.
func (r *Rand) P(n int) bool { return r.Intn(n) == 0 }

// Pct is true in p percent of the calls.
func (r *Rand) Pct(p int) bool { return r.Intn(100) < p }

func (r *Rand) Pick(s ...string) string { return s[r.Intn(len(s))] }

func (r *Rand) PickInt(s ...int) int { return s[r.Intn(len(s))] }

func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Pattern is byte number at of a content which identifies positions.
func Pattern(seed uint64, at int) byte {
	z := (seed+1)*0x9e3779b97f4a7c15 ^ uint64(at)*0xff51afd7ed558ccd
	z ^= z >> 29
	z *= 0xbf58476d1ce4e5b9
	return byte(z >> 32)
}
