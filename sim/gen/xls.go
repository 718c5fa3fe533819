package gen

import (
	"crypto/md5"
	"crypto/rc4"
	"encoding/binary"
	"fmt"
	"math"
	"unicode/utf16"
)

// XLSLayout decides how a workbook is stored.
type XLSLayout struct {
	CFBLayout
	Name    int     `json:"name,omitempty"`    // case of the stream's name
	Chunks  []int   `json:"chunks,omitempty"`  // sizes of the shared string records, in rotation (0 = full)
	SChunks []int   `json:"schunks,omitempty"` // sizes of the records of long formula texts
	Wide    int     `json:"wide,omitempty"`    // 0 narrow where possible, 1 always wide, 2 alternating, 3 changes at records
	Rich    int     `json:"rich,omitempty"`    // every n-th shared string has formatting runs
	Phon    int     `json:"phon,omitempty"`    // every n-th shared string has phonetic data
	NoShare bool    `json:"noshare,omitempty"` // every cell has its own string
	Unused  int     `json:"unused,omitempty"`  // unused strings in front
	Noise   int     `json:"noise,omitempty"`   // additional records the reader has to skip
	XFBase  int     `json:"xfbase,omitempty"`  // style formats in front
	NumBase numBase `json:"numbase,omitempty"` // numbers of custom formats beyond 164
	Custom  uint64  `json:"custom,omitempty"`  // which numbers the formats have
	Order   uint64  `json:"order,omitempty"`   // order in which the tables are stored
	Rows    bool    `json:"rows,omitempty"`    // row records and blanks
	Enc     uint64  `json:"enc,omitempty"`     // encrypted under the default password (salt seed)
	RowLast bool    `json:"rowlast,omitempty"` // merges and links in the order links, merges

	RecDamage []RecDamage `json:"recdamage,omitempty"` // records altered before they are stored
}

// RecDamage alters the sequence of records (or one of them) in a way that keeps the framing intact.
type RecDamage struct {
	Op  string `json:"op"`            // drop dup move type end short long set
	Rec int    `json:"rec"`           // which record
	To  int    `json:"to,omitempty"`  // where to (dup, move), how many bytes (short, long), at which byte (set)
	Len int    `json:"len,omitempty"` // bytes of a set number
	Val uint32 `json:"val,omitempty"` // record type, byte or number
	Fix bool   `json:"fix,omitempty"` // the sheets' positions are corrected
}

type oneRec struct {
	at   int // original offset, -1 for none
	typ  int
	data []byte
}

func (w *biff) damage(l []RecDamage) {
	if len(l) == 0 {
		return
	}
	var rs []oneRec
	for i, p := range w.recs {
		e := len(w.b)
		if i+1 < len(w.recs) {
			e = w.recs[i+1]
		}
		rs = append(rs, oneRec{p, int(w.b[p]) | int(w.b[p+1])<<8, append([]byte(nil), w.b[p+4:e]...)})
	}
	fix := false
	for _, d := range l {
		if d.Rec < 0 || d.Rec >= len(rs) || d.To < 0 {
			continue
		}
		r := rs[d.Rec]
		fix = fix || d.Fix
		ins := func(rs []oneRec, at int, r oneRec) []oneRec {
			if at > len(rs) {
				at = len(rs)
			}
			return append(append(append([]oneRec(nil), rs[:at]...), r), rs[at:]...)
		}
		del := func(rs []oneRec, at int) []oneRec {
			return append(append([]oneRec(nil), rs[:at]...), rs[at+1:]...)
		}
		switch d.Op {
		case "drop":
			rs = del(rs, d.Rec)
		case "dup":
			r.at = -1
			rs = ins(rs, d.To, r)
		case "move":
			rs = ins(del(rs, d.Rec), d.To, r)
		case "type":
			rs[d.Rec].typ = int(d.Val & 0xffff)
		case "end":
			rs = rs[:d.Rec+1]
		case "short":
			if d.To < len(r.data) {
				rs[d.Rec].data = r.data[:d.To]
			}
		case "long":
			n := d.To
			if n > 8224 {
				n = 8224
			}
			for ; n > 0 && len(r.data) < 8224; n-- {
				r.data = append(r.data, byte(d.Val))
			}
			rs[d.Rec].data = r.data
		case "set":
			for i := 0; i < d.Len && i < 4 && d.To+i < len(r.data); i++ {
				r.data[d.To+i] = byte(d.Val >> (8 * i))
			}
		}
	}
	out := &biff{}
	moved := map[uint32]uint32{}
	for _, r := range rs {
		if r.at >= 0 {
			moved[uint32(r.at)] = uint32(len(out.b))
		}
		out.rec(uint16(r.typ), r.data)
	}
	if fix {
		for _, p := range out.recs {
			if out.b[p] == 0x85 && out.b[p+1] == 0 && len(out.b) >= p+8 {
				if n, ok := moved[binary.LittleEndian.Uint32(out.b[p+4:])]; ok {
					binary.LittleEndian.PutUint32(out.b[p+4:], n)
				}
			}
		}
	}
	*w = *out
}

// streamNames are the same name: case means nothing.
var streamNames = [...]string{"Workbook", "WORKBOOK", "WorkBook", "workbook"}

// Valid reports unsupported layouts.
func (l *XLSLayout) Valid() error {
	for _, c := range append(append([]int(nil), l.Chunks...), l.SChunks...) {
		if c != 0 && (c < 32 || c > 8224) {
			return fmt.Errorf("chunk")
		}
	}
	if l.Name < 0 || l.Name >= len(streamNames) || l.Wide < 0 || l.Wide > 3 || l.Rich < 0 || l.Phon < 0 || l.Unused < 0 || l.Unused > 70000 || l.NumBase < 0 || l.NumBase > 200 || l.Noise < 0 || l.Noise > 5000 || l.XFBase < 0 || l.XFBase > 4000 {
		return fmt.Errorf("xls knobs")
	}
	return l.CFBLayout.Valid()
}

func rkForm(v float64, form int) (uint32, bool) {
	switch form {
	case 0:
		if v == math.Trunc(v) && v >= -(1<<29) && v < 1<<29 {
			return uint32(int32(v))<<2 | 2, true
		}
	case 1:
		if b := math.Float64bits(v); b&(1<<34-1) == 0 {
			return uint32(b >> 32), true
		}
	case 2:
		if n := math.Round(v * 100); math.Abs(n) < 1<<29 && n/100 == v {
			return uint32(int32(n))<<2 | 3, true
		}
	case 3:
		if b := math.Float64bits(v * 100); b&(1<<34-1) == 0 && math.Float64frombits(b)/100 == v {
			return uint32(b>>32) | 1, true
		}
	}
	return 0, false
}

// encodeRK packs a number into 30 bits in the form preferred by e.
func encodeRK(v float64, e int) (rk uint32, isInt, ok bool) {
	if e < 0 {
		e = 0
	}
	for i := 0; i < 4; i++ {
		f := (e/4 + i) % 4
		if rk, ok := rkForm(v, f); ok {
			return rk, f == 0, true
		}
	}
	return 0, false, false
}

type biff struct {
	b    []byte
	recs []int // offsets of the record headers
}

func (w *biff) rec(typ uint16, data ...[]byte) {
	n := 0
	for _, d := range data {
		n += len(d)
	}
	w.recs = append(w.recs, len(w.b))
	w.b = append(w.b, byte(typ), byte(typ>>8), byte(n), byte(n>>8))
	for _, d := range data {
		w.b = append(w.b, d...)
	}
}

func u16(vs ...int) []byte {
	b := make([]byte, 2*len(vs))
	for i, v := range vs {
		binary.LittleEndian.PutUint16(b[2*i:], uint16(v))
	}
	return b
}

func u32(vs ...uint32) []byte {
	b := make([]byte, 4*len(vs))
	for i, v := range vs {
		binary.LittleEndian.PutUint32(b[4*i:], v)
	}
	return b
}

func narrow(u []uint16) bool {
	for _, c := range u {
		if c > 255 {
			return false
		}
	}
	return true
}

func chars(u []uint16, wide bool) []byte {
	if !wide {
		b := make([]byte, len(u))
		for i, c := range u {
			b[i] = byte(c)
		}
		return b
	}
	b := make([]byte, 2*len(u))
	for i, c := range u {
		binary.LittleEndian.PutUint16(b[2*i:], c)
	}
	return b
}

// str returns the flags and characters of a short or long unicode string.
func str(s string, wide bool, cch8 bool) []byte {
	u := utf16.Encode([]rune(s))
	w := wide || !narrow(u)
	f := byte(0)
	if w {
		f = 1
	}
	if cch8 {
		return append([]byte{byte(len(u)), f}, chars(u, w)...)
	}
	return append(append(u16(len(u)), f), chars(u, w)...)
}

func bof(typ int) []byte {
	return append(u16(0x0600, typ, 0x0DBB, 0x07CC), append(u32(0x000040C1), u32(0x00000106)...)...)
}

var formatNames = []string{"", "i", "f2", "p2", "d", "t", "ymd", "dmy", "f3", "dt"}

// oddCodes are number formats beyond the plain ones.
var oddCodes = []string{
	"# ?/?", "# ??/??", "#,##0.00_);[Red](#,##0.00)", `_("$"* #,##0_);_("$"* \(#,##0\);_("$"* "-"_);_(@_)`, "0.00E+00", "##0.0E+0",
	"mmmss.000", "[h]:mm:ss", "[$-409]h:mm\\ AM/PM;@", "yyyy/mm/dd\\ hh:mm", "dddd, mmmm d, yyyy", "@", "General", ";;;", "0;-0;;@", `"yes";"yes";"no"`,
	"", ".", "0.", ".0", "%", "0%%", "E", "E+", "0E+0", "#", "?", ",", ",,,", "0,,", "0.0,", "\"", "\\", "[", "]", "[[]]", ";", ";;", "*", "_", "* ", `\"`, "000000000000000000000000000000", "0.000000000000000000000000000000",
	"#,##0.###############", "0x0", "$0", "%d", "%s%n", "0%d", "\"%!\"0", "h", "s", "m", "y", "d", "AM/PM", "a/p", "hhhhhh", "yyyyyyyy", "d/m/bb", "\u4e0a\u5348/\u4e0b\u5348 h", "[>100]0;[<0]-0;0.0", "0\"kg\"", "00-00-00", "(000) 000-0000",
}

// numFormats is what a workbook declares about its number formats: which
// format record each cell format uses, in stored order, and the codes of the
// numbers from 164 on. Both differ from file to file.
func numFormats(custom, odd uint64, used []string) (index map[string]int, number []int, codes []string) {
	own := []string{`yyyy\-mm\-dd`, "dd/mm/yyyy", "0.000"}
	codes = append(codes, own...)
	at := []int{164, 165, 166}
	order := make([]int, len(formatNames))
	for i := range order {
		order[i] = i
	}
	if custom != 0 {
		r := NewRand(custom)
		other := []string{"h:mm", "0.0", "0", "#,##0.0", "mmm yyyy", "yyyy"}
		codes = nil
		var all []string
		for i := r.Intn(4); i > 0; i-- {
			all = append(all, other[r.Intn(len(other))])
		}
		all = append(all, own...)
		for i, k := range r.Perm(len(all)) {
			codes = append(codes, all[k])
			if n := k - (len(all) - len(own)); n >= 0 {
				at[n] = 164 + i
			}
		}
		// the first one stays what cells without a format use
		for i, k := range r.Perm(len(order) - 1) {
			order[i+1] = k + 1
		}
	}
	number = make([]int, len(order))
	index = map[string]int{}
	all := append([]int{0, 1, 2, 10, 14, 49}, at...)
	all = append(all, 22)
	for i, k := range order {
		index[formatNames[k]] = i
		number[i] = all[k]
	}
	for _, n := range used {
		nf := formatNamed[n]
		index[n] = len(number)
		if nf.code == "" {
			number = append(number, nf.id)
			continue
		}
		number = append(number, 164+len(codes))
		codes = append(codes, nf.code)
	}
	if odd != 0 {
		r := NewRand(odd)
		codes = nil
		for i := r.Range(1, 6); i > 0; i-- {
			codes = append(codes, oddCodes[r.Intn(len(oddCodes))])
		}
		for i := range number {
			if r.P(2) {
				number[i] = 164 + r.Intn(len(codes))
			} else {
				number[i] = r.Intn(90)
			}
		}
	}
	return
}

// chunker cuts a sequence of pieces into records.
type chunker struct {
	sizes []int
	k     int
	cur   []byte
	out   [][]byte
}

func (c *chunker) limit() int {
	n := 0
	if len(c.sizes) > 0 {
		n = c.sizes[c.k%len(c.sizes)]
	}
	if n <= 0 || n > 8224 {
		n = 8224
	}
	return n
}

func (c *chunker) room() int { return c.limit() - len(c.cur) }

func (c *chunker) cut() {
	c.out = append(c.out, c.cur)
	c.cur = nil
	c.k++
}

func (l *XLSLayout) sst(w *biff, strs []string, total int) {
	c := &chunker{sizes: l.Chunks}
	c.cur = append(c.cur, u32(uint32(total), uint32(len(strs)))...)
	for i, s := range strs {
		u := utf16.Encode([]rune(s))
		nar := narrow(u)
		wide := !nar || l.Wide == 1 || (l.Wide == 2 && i%2 == 0)
		rich := l.Rich > 0 && i%l.Rich == 0
		phon := l.Phon > 0 && i%l.Phon == 0
		if l.Wide == 3 {
			// the first part uses narrow characters as far as they go
			k := 0
			for k < len(u) && u[k] <= 255 {
				k++
			}
			wide = k < len(u)
		}
		var h []byte
		h = append(h, u16(len(u))...)
		f := byte(0)
		if rich {
			f |= 8
		}
		if phon {
			f |= 4
		}
		flagAt := len(h)
		h = append(h, f)
		runs, ext := 0, 0
		if rich {
			runs = 1 + i%3
			h = append(h, u16(runs)...)
		}
		if phon {
			ext = 8 + (i%7)*3
			h = append(h, u32(uint32(ext))...)
		}
		if c.room() < len(h)+2 && (len(u) > 0 || c.room() < len(h)) {
			c.cut()
		}
		if len(u) > 0 && wide {
			h[flagAt] |= 1
		}
		if l.Wide == 3 && len(u) > 0 && wide {
			// how many narrow characters would fill this record?
			k := 0
			for k < len(u) && u[k] <= 255 {
				k++
			}
			if k >= c.room()-len(h) && c.room()-len(h) > 0 {
				wide = false
				h[flagAt] &^= 1
			}
		}
		c.cur = append(c.cur, h...)
		for len(u) > 0 {
			n := c.room()
			if wide {
				n /= 2
			}
			if n > len(u) {
				n = len(u)
			}
			if n > 0 {
				c.cur = append(c.cur, chars(u[:n], wide)...)
				u = u[n:]
			}
			if len(u) > 0 {
				c.cut()
				if l.Wide == 3 {
					// the width may change with each record
					wide = !narrow(u)
					if wide {
						k := 0
						for k < len(u) && u[k] <= 255 {
							k++
						}
						if k >= c.limit()-1 {
							wide = false
						}
					}
				} else if l.Wide == 0 || l.Wide == 2 {
					wide = !narrow(u)
				}
				fl := byte(0)
				if wide {
					fl = 1
				}
				c.cur = append(c.cur, fl)
			}
		}
		tail := make([]byte, 4*runs+ext)
		for k := range tail {
			tail[k] = byte(0xA0 + k%16)
		}
		for len(tail) > 0 {
			n := c.room()
			if n <= 0 {
				c.cut()
				continue
			}
			if n > len(tail) {
				n = len(tail)
			}
			c.cur = append(c.cur, tail[:n]...)
			tail = tail[n:]
		}
	}
	if len(c.cur) > 0 || len(c.out) == 0 {
		c.cut()
	}
	for i, d := range c.out {
		if i == 0 {
			w.rec(0x00FC, d)
		} else {
			w.rec(0x003C, d)
		}
	}
}

var urlMoniker = []byte{0xE0, 0xC9, 0xEA, 0x79, 0xF9, 0xBA, 0xCE, 0x11, 0x8C, 0x82, 0x00, 0xAA, 0x00, 0x4B, 0xA9, 0x0B}
var fileMoniker = []byte{0x03, 0x03, 0, 0, 0, 0, 0, 0, 0xC0, 0, 0, 0, 0, 0, 0, 0x46}
var stdLink = []byte{0xD0, 0xC9, 0xEA, 0x79, 0xF9, 0xBA, 0xCE, 0x11, 0x8C, 0x82, 0x00, 0xAA, 0x00, 0x4B, 0xA9, 0x0B}

func linkString(s string) []byte {
	u := append(utf16.Encode([]rune(s)), 0)
	return append(u32(uint32(len(u))), chars(u, true)...)
}

func (k *Link) record() []byte {
	d := u16(k.R1, k.R2, k.C1, k.C2)
	d = append(d, stdLink...)
	d = append(d, u32(2)...)
	flags := uint32(0)
	var body []byte
	if k.Text != "" {
		flags |= 0x14
		body = append(body, linkString(k.Text)...)
	}
	switch k.Kind % 8 {
	case 0: // address as a moniker
		flags |= 0x3
		u := append(utf16.Encode([]rune(k.URL)), 0)
		body = append(body, urlMoniker...)
		body = append(body, u32(uint32(2*len(u)))...)
		body = append(body, chars(u, true)...)
	case 1: // moniker saved as a string
		flags |= 0x103
		body = append(body, linkString(k.URL)...)
	case 2: // a place within the workbook
		flags |= 0x8
		body = append(body, linkString(k.URL)...)
	case 3: // with a target frame
		flags |= 0x83
		body = append(body, linkString("_blank")...)
		u := append(utf16.Encode([]rune(k.URL)), 0)
		body = append(body, urlMoniker...)
		body = append(body, u32(uint32(2*len(u)))...)
		body = append(body, chars(u, true)...)
	}
	switch k.Kind % 8 {
	case 4: // a file next to this one
		flags |= 0x1
		body = append(body, fileMoniker...)
		body = append(body, u16(0)...)
		body = append(body, u32(uint32(len(k.URL)+1))...)
		body = append(body, k.URL...)
		body = append(body, 0)
		body = append(body, u16(0xFFFF, 0xDEAD)...)
		body = append(body, make([]byte, 20)...)
		body = append(body, u32(0)...)
	case 5: // a file with a name beyond the code page
		flags |= 0x3
		u := utf16.Encode([]rune(k.URL))
		short := "SHORT~1.XLS\x00"
		body = append(body, fileMoniker...)
		body = append(body, u16(0)...)
		body = append(body, u32(uint32(len(short)))...)
		body = append(body, short...)
		body = append(body, u16(0xFFFF, 0xDEAD)...)
		body = append(body, make([]byte, 20)...)
		body = append(body, u32(uint32(2*len(u)+6), uint32(2*len(u)))...)
		body = append(body, u16(3)...)
		body = append(body, chars(u, true)...)
	case 6: // an address with the details of its class behind it
		flags |= 0x3
		u := append(utf16.Encode([]rune(k.URL)), 0)
		body = append(body, urlMoniker...)
		body = append(body, u32(uint32(2*len(u)+24))...)
		body = append(body, chars(u, true)...)
		body = append(body, 0xC4, 0xB1, 0x8E, 0x79, 0x4D, 0x28, 0x30, 0x4D, 0x89, 0x25, 0xC0, 0x13, 0xC9, 0xB1, 0xDA, 0x5E)
		body = append(body, u32(0, 0x0B25)...)
	case 7: // with an identity and a time of creation
		flags |= 0x63
		u := append(utf16.Encode([]rune(k.URL)), 0)
		body = append(body, urlMoniker...)
		body = append(body, u32(uint32(2*len(u)))...)
		body = append(body, chars(u, true)...)
		body = append(body, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16)
		body = append(body, u32(0x12345678, 0x01D00000)...)
	}
	d = append(d, u32(flags)...)
	return append(d, body...)
}

// rotate numbers through the formula result encodings
func formulaRec(r, c, xf int, res []byte) []byte {
	d := u16(r, c, xf)
	d = append(d, res...)
	d = append(d, u16(0)...)
	d = append(d, u32(0)...)
	return append(d, append(u16(3), 0x1E, 1, 0)...)
}

func f64(v float64) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, math.Float64bits(v))
	return b
}

// stream builds the workbook stream.
func (f *FileSpec) stream() (*biff, [][2]int) {
	l := f.XLS
	w := &biff{}
	formatIndex, formatNumber, codes := numFormats(l.Custom, f.Odd, f.usedFormats())
	formatNumber = l.NumBase.renumber(formatNumber)
	xf := func(name string) int { return l.XFBase + formatIndex[name] }
	// shared strings
	var strs []string
	index := map[string]int{}
	for i := 0; i < l.Unused; i++ {
		s := fmt.Sprintf("unused %d", i)
		if i%4 == 3 {
			s = ""
		}
		strs = append(strs, s)
	}
	total := 0
	sharedIdx := make([][]int, len(f.Sheets))
	cells := make([][]Cell, len(f.Sheets))
	for i := range f.Sheets {
		cells[i] = f.Sheets[i].all()
		for _, c := range cells[i] {
			if c.K == "s" && c.E%4 != 3 {
				k, ok := index[c.S]
				if !ok || l.NoShare {
					k = len(strs)
					strs = append(strs, c.S)
					index[c.S] = k
				}
				total++
				sharedIdx[i] = append(sharedIdx[i], k)
			}
		}
	}
	w.rec(0x0809, bof(5))
	if l.Enc != 0 {
		w.rec(0x002F, filePass(l.Enc))
	}
	w.rec(0x00E1, u16(0x04B0))
	w.rec(0x0042, u16(0x04B0))
	for i := 0; i < l.Noise; i++ {
		w.rec(uint16(0x0092+i%2), make([]byte, (i*37)%200))
	}
	if f.D1904 {
		w.rec(0x0022, u16(1))
	} else {
		w.rec(0x0022, u16(0))
	}
	w.rec(0x0031, make([]byte, 22))
	w.rec(0x041E, u16(5), str("\"$\"#,##0_);\\(\"$\"#,##0\\)", l.Wide == 1, false))
	for i, c := range codes {
		w.rec(0x041E, u16(164+int(l.NumBase)+i), str(c, l.Wide == 1, false))
	}
	for i := 0; i < l.XFBase; i++ {
		w.rec(0x00E0, u16(0, 0, 0xFFF5), make([]byte, 14))
	}
	for _, n := range formatNumber {
		w.rec(0x00E0, u16(0, n, 1), make([]byte, 14))
	}
	bs := make([]int, len(f.Sheets))
	for i, s := range f.Sheets {
		bs[i] = len(w.b) + 4
		w.rec(0x0085, u32(0), []byte{byte(s.Hidden), 0}, str(s.Name, l.Wide == 1, true))
	}
	if len(strs) > 0 || l.Noise%2 == 0 {
		l.sst(w, strs, total)
	}
	w.rec(0x000A)
	order := make([]int, len(f.Sheets))
	for i := range order {
		order[i] = i
	}
	if l.Order != 0 {
		order = NewRand(l.Order).Perm(len(order))
	}
	var spans [][2]int
	for _, i := range order {
		s := &f.Sheets[i]
		binary.LittleEndian.PutUint32(w.b[bs[i]:], uint32(len(w.b)))
		begin := len(w.b)
		f.sheetStream(w, s, cells[i], sharedIdx[i], xf)
		spans = append(spans, [2]int{begin, len(w.b)})
	}
	return w, spans
}

func (f *FileSpec) sheetStream(w *biff, s *Sheet, cells []Cell, shared []int, xf func(string) int) {
	l := f.XLS
	w.rec(0x0809, bof(0x10))
	for i := 0; i < l.Noise; i++ {
		w.rec(uint16(0x000C+i%3), u16(i))
	}
	ws := 0x04C1
	if s.Dialog {
		ws |= 0x10
	}
	w.rec(0x0081, u16(ws))
	rows, cols := s.extent()
	if s.Dim >= 0 {
		minr, minc := 0, 0
		if rows == 0 {
			cols = 0
		}
		w.rec(0x0200, u32(uint32(minr), uint32(min2(rows+s.Dim, 65536))), u16(minc, min2(cols+s.Dim, 256), 0))
	}
	lastRow := -1
	nested := map[int]bool{}
	for _, n := range s.Nested {
		nested[n] = true
	}
	k := 0
	for i := 0; i < len(cells); i++ {
		c := cells[i]
		if nested[i] {
			chart(w, c.R, c.C)
		}
		if l.Rows && c.R != lastRow {
			w.rec(0x0208, u16(c.R, 0, cols, 255, 0, 0), u32(0x000F0100))
			lastRow = c.R
		}
		x := xf(c.F)
		switch c.K {
		case "z":
			n := 1
			for i+n < len(cells) && cells[i+n].K == "z" && cells[i+n].R == c.R && cells[i+n].C == c.C+n && !nested[i+n] {
				n++
			}
			if n == 1 {
				w.rec(0x0201, u16(c.R, c.C, x))
			} else {
				d := u16(c.R, c.C)
				for q := 0; q < n; q++ {
					d = append(d, u16(xf(cells[i+q].F))...)
				}
				w.rec(0x00BE, append(d, u16(c.C+n-1)...))
				i += n - 1
			}
		case "s":
			if c.E%4 == 3 && c.S == "" {
				w.rec(0x0006, formulaRec(c.R, c.C, x, []byte{3, 0, 0, 0, 0, 0, 0xFF, 0xFF}))
			} else if c.E%4 == 3 {
				w.rec(0x0006, formulaRec(c.R, c.C, x, []byte{0, 0, 0, 0, 0, 0, 0xFF, 0xFF}))
				if l.Rows && c.C%2 == 1 {
					w.rec(0x04BC, u16(c.R, c.R), []byte{byte(c.C), byte(c.C), 0, 1}, u16(3), []byte{0x1E, 1, 0})
				}
				l.longString(w, c.S)
			} else {
				w.rec(0x00FD, u16(c.R, c.C, x), u32(uint32(shared[k])))
				k++
			}
		case "b", "e":
			v, isErr := byte(0), byte(0)
			if c.B {
				v = 1
			}
			if c.K == "e" {
				v, isErr = errorCodes[c.S], 1
			}
			if c.E%4 == 3 {
				w.rec(0x0006, formulaRec(c.R, c.C, x, []byte{1 + isErr, 0, v, 0, 0, 0, 0xFF, 0xFF}))
			} else {
				w.rec(0x0205, u16(c.R, c.C, x), []byte{v, isErr})
			}
		case "n":
			rk, _, ok := encodeRK(c.N, c.E)
			switch {
			case c.E%4 == 3:
				w.rec(0x0006, formulaRec(c.R, c.C, x, f64(c.N)))
			case c.E%4 == 1 && ok:
				w.rec(0x027E, u16(c.R, c.C, x), u32(rk))
			case c.E%4 == 2 && ok:
				d := append(u16(c.R, c.C, x), u32(rk)...)
				n := 1
				for i+n < len(cells) {
					q := cells[i+n]
					if q.K != "n" || q.R != c.R || q.C != c.C+n || q.E%4 != 2 || nested[i+n] {
						break
					}
					rk2, _, ok2 := encodeRK(q.N, q.E)
					if !ok2 {
						break
					}
					d = append(append(d, u16(xf(q.F))...), u32(rk2)...)
					n++
				}
				if n == 1 {
					w.rec(0x027E, d)
				} else {
					w.rec(0x00BD, append(d, u16(c.C+n-1)...))
					i += n - 1
				}
			default:
				w.rec(0x0203, u16(c.R, c.C, x), f64(c.N))
			}
		}
	}
	for _, n := range s.Nested {
		if n >= len(cells) {
			chart(w, 0, 0)
		}
	}
	merges := func() {
		for i := 0; i < len(s.Merges); {
			n := len(s.Merges) - i
			if n > 1026 {
				n = 1026
			}
			d := u16(n)
			for _, m := range s.Merges[i : i+n] {
				d = append(d, u16(m.R1, m.R2, m.C1, m.C2)...)
			}
			w.rec(0x00E5, d)
			i += n
		}
	}
	if !l.RowLast {
		merges()
	}
	for i := range s.Links {
		w.rec(0x01B8, s.Links[i].record())
	}
	if l.RowLast {
		merges()
	}
	w.rec(0x000A)
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// an embedded chart, with cells of its own
func chart(w *biff, r, c int) {
	w.rec(0x00EC, make([]byte, 16))
	w.rec(0x005D, make([]byte, 26))
	w.rec(0x0809, bof(0x20))
	w.rec(0x1002, make([]byte, 16))
	w.rec(0x0203, u16(r, c, 0), f64(99999))
	w.rec(0x0200, u32(0, 1), u16(0, 1, 0))
	w.rec(0x000A)
}

// longString writes the text of a formula.
func (l *XLSLayout) longString(w *biff, s string) {
	u := utf16.Encode([]rune(s))
	c := &chunker{sizes: l.SChunks}
	wide := !narrow(u) || l.Wide == 1
	if l.Wide == 3 {
		k := 0
		for k < len(u) && u[k] <= 255 {
			k++
		}
		wide = k < len(u) && k < c.limit()-3
	}
	fl := func() byte {
		if wide {
			return 1
		}
		return 0
	}
	c.cur = append(u16(len(u)), fl())
	for len(u) > 0 {
		n := c.room()
		if wide {
			n /= 2
		}
		if n > len(u) {
			n = len(u)
		}
		c.cur = append(c.cur, chars(u[:n], wide)...)
		u = u[n:]
		if len(u) > 0 {
			c.cut()
			if l.Wide != 1 {
				wide = !narrow(u)
				if l.Wide == 3 {
					k := 0
					for k < len(u) && u[k] <= 255 {
						k++
					}
					wide = k < len(u) && k < c.limit()-1
				}
			}
			c.cur = append(c.cur, fl())
		}
	}
	c.cut()
	for i, d := range c.out {
		if i == 0 {
			w.rec(0x0207, d)
		} else {
			w.rec(0x003C, d)
		}
	}
}

const xlsPassword = "VelvetSweatshop"

func rc4Key(seed uint64) (salt []byte, key []byte) {
	r := NewRand(seed)
	salt = make([]byte, 16)
	for i := range salt {
		salt[i] = byte(r.U64())
	}
	h := md5.Sum(chars(utf16.Encode([]rune(xlsPassword)), true))
	var buf []byte
	for i := 0; i < 16; i++ {
		buf = append(buf, h[:5]...)
		buf = append(buf, salt...)
	}
	k := md5.Sum(buf)
	return salt, k[:5]
}

func rc4Block(key []byte, block uint32) *rc4.Cipher {
	h := md5.Sum(append(append([]byte(nil), key...), u32(block)...))
	c, _ := rc4.NewCipher(h[:])
	return c
}

// CryptHeader returns the encryption header of a stream encrypted with RC4Encrypt.
func CryptHeader(seed uint64) []byte { return filePass(seed)[2:] }

func filePass(seed uint64) []byte {
	salt, key := rc4Key(seed)
	r := NewRand(seed ^ 0xABCDEF)
	v := make([]byte, 16)
	for i := range v {
		v[i] = byte(r.U64())
	}
	vh := md5.Sum(v)
	c := rc4Block(key, 0)
	ev, eh := make([]byte, 16), make([]byte, 16)
	c.XORKeyStream(ev, v)
	c.XORKeyStream(eh, vh[:])
	d := u16(1, 1, 1)
	d = append(d, salt...)
	d = append(d, ev...)
	return append(d, eh...)
}

// RC4Encrypt encrypts a whole stream in blocks of 1024 bytes.
func RC4Encrypt(seed uint64, plain []byte) []byte {
	_, key := rc4Key(seed)
	out := make([]byte, len(plain))
	for i := 0; i < len(plain); i += 1024 {
		e := i + 1024
		if e > len(plain) {
			e = len(plain)
		}
		rc4Block(key, uint32(i/1024)).XORKeyStream(out[i:e], plain[i:e])
	}
	return out
}

// encryptStream encrypts what a workbook encrypts.
func encryptStream(seed uint64, plain []byte) []byte {
	out := RC4Encrypt(seed, plain)
	for p := 0; p+4 <= len(plain); {
		typ := int(plain[p]) | int(plain[p+1])<<8
		n := int(plain[p+2]) | int(plain[p+3])<<8
		copy(out[p:p+4], plain[p:p+4])
		e := p + 4
		switch typ {
		case 0x0809, 0x002F, 0x0194, 0x0195, 0x00E1, 0x0196, 0x0138:
			e += n
		case 0x0085:
			e += 4
		}
		if e > len(plain) {
			e = len(plain)
		}
		copy(out[p+4:e], plain[p+4:e])
		p += 4 + n
	}
	return out
}

func (f *FileSpec) buildXLS() *Built {
	w, _ := f.stream()
	w.damage(f.XLS.RecDamage)
	data := w.b
	if f.XLS.Enc != 0 {
		data = encryptStream(f.XLS.Enc, data)
	}
	b, where := BuildCFB([]Stream{{Name: streamNames[f.XLS.Name], Data: data}}, f.XLS.CFBLayout)
	for i, p := range w.recs {
		if i < 4000 {
			if o := where(p); o >= 0 {
				n := int(w.b[p+2]) | int(w.b[p+3])<<8
				b.Marks = append(b.Marks, Mark{o, 4 + n, fmt.Sprintf("rec%02x", int(w.b[p])|int(w.b[p+1])<<8)})
			}
		}
	}
	return b
}
