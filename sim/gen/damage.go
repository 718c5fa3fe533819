package gen

import (
	"bytes"
	"fmt"
	"regexp"
	"strings"
)

var odd32 = []uint32{0, 1, 2, 3, 5, 8, 0x10, 0x3f, 0x40, 0x7f, 0x80, 0xff, 0x100, 0x1ff, 0x200, 0xfff, 0x1000, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffff0, 0xfffffffa, 0xfffffffb, 0xfffffffc, 0xfffffffd, 0xfffffffe, 0xffffffff, 0x00ffffff, 0x01000000}

// AddDamage alters the stored bytes of a file, mostly where it hurts.
func AddDamage(r *Rand, f *FileSpec) {
	b, err := f.Build()
	if err != nil || len(b.Data) == 0 {
		return
	}
	if f.Kind == "xlsx" && r.Pct(60) {
		damagePart(r, f, b)
		return
	}
	if f.Kind == "xls" && r.Pct(35) {
		damageRecord(r, f)
		return
	}
	n := len(b.Data)
	if (f.Kind == "xls" || f.Kind == "cfb") && r.P(8) && damageLimit(r, f, b) {
		return
	}
	if (f.Kind == "xls" || f.Kind == "cfb") && r.P(6) && damageChain(r, f, b) {
		return
	}
	if len(b.Marks) > 0 && r.Pct(75) {
		m := b.Marks[r.Intn(len(b.Marks))]
		// prefer rare kinds of places
		for k := 0; k < 3; k++ {
			m2 := b.Marks[r.Intn(len(b.Marks))]
			if m2.What < m.What {
				m = m2
			}
			if r.P(2) {
				break
			}
		}
		if m.Len > 0 {
			at := m.Off + r.Intn(m.Len)
			if r.P(2) {
				at = m.Off + r.Intn(min(m.Len, 24))
			}
			d := Damage{At: at}
			switch r.Intn(10) {
			case 0:
				d.Op, d.Val = "flip", uint32(r.Intn(8))
			case 1, 2, 3, 4:
				d.Op, d.Len, d.Val = "set", r.PickInt(1, 2, 2, 4, 4), odd32[r.Intn(len(odd32))]
				if r.P(2) {
					d.At = m.Off + r.Intn(m.Len)/2*2
				}
			case 5:
				d.Op, d.Len, d.Val = "set", r.PickInt(1, 2, 4), uint32(r.Intn(n/256+4))
			case 6:
				d.Op, d.Len = "zero", r.PickInt(1, 2, 4, 8, 64, 512)
			case 7:
				m2 := b.Marks[r.Intn(len(b.Marks))]
				d.Op, d.At, d.From, d.Len = r.Pick("copy", "swap"), m.Off, m2.Off, min(m.Len, 4096)
			case 8:
				d.Op, d.Len, d.Val = "fill", r.PickInt(2, 4, 8, 16), 0xff
			case 9:
				d.Op, d.Len = "del", r.PickInt(1, 2, 4, 16)
				if r.P(2) {
					d.Op, d.Val = "ins", uint32(r.Intn(256))
				}
			}
			f.Damage = append(f.Damage, d)
			return
		}
	}
	d := Damage{At: r.Intn(n)}
	switch r.Intn(9) {
	case 0, 1:
		d.Op, d.Val = "flip", uint32(r.Intn(8))
	case 2:
		d.Op, d.Len, d.Val = "set", r.PickInt(1, 2, 4), odd32[r.Intn(len(odd32))]
	case 3:
		d.Op, d.Len = "zero", r.PickInt(1, 16, 64, 512, 4096)
		if r.P(2) {
			d.At = d.At / 512 * 512
		}
	case 4, 5:
		d.Op, d.From, d.Len = r.Pick("copy", "swap"), r.Intn(n), r.PickInt(16, 64, 512, 4096)
		if r.Pct(80) {
			d.At, d.From = d.At/512*512, d.From/512*512
		}
	case 6:
		d.Op = "trunc"
		if r.P(3) {
			d.At = min(n, r.Intn(200))
		}
	case 7:
		d.Op, d.Len = "del", r.PickInt(1, 2, 4, 100, 512)
	case 8:
		d.Op, d.Len, d.Val = "ins", r.PickInt(1, 2, 4, 100, 512), uint32(r.Intn(256))
	}
	f.Damage = append(f.Damage, d)
}

// damagePart alters a part before it is packed, so that checksums hold.
func damagePart(r *Rand, f *FileSpec, b *Built) {
	l := f.XLSX
	p := b.Parts[r.Intn(len(b.Parts))]
	if r.Pct(50) {
		// a sheet
		for k := 0; k < 20 && !strings.Contains(p, "heet"); k++ {
			p = b.Parts[r.Intn(len(b.Parts))]
		}
	}
	data := b.Inner[p]
	if len(data) == 0 {
		return
	}
	d := Damage{Part: p, At: r.Intn(len(data))}
	// places with structure: digits, quotes, angle brackets
	seek := func(set string) {
		for k := 0; k < 200; k++ {
			at := r.Intn(len(data))
			if strings.IndexByte(set, data[at]) >= 0 {
				d.At = at
				return
			}
		}
	}
	switch r.Intn(10) {
	case 0:
		d.Op, d.Val = "flip", uint32(r.Intn(8))
	case 1, 2:
		seek("0123456789")
		d.Op, d.Len, d.Val = "ins", r.PickInt(1, 1, 2, 3, 6, 12, 25), uint32(r.Pick("0", "9", "1", "-", "A", "Z", ".", ":", "e")[0])
	case 3:
		seek("0123456789")
		d.Op, d.Len, d.Val = "set", 1, uint32(r.Pick("0", "9", "-", "A", " ", "\"", "Z", ":", "7")[0])
	case 4:
		seek("\"<>=/")
		d.Op, d.Len = "del", r.PickInt(1, 1, 2, 5, 10, 40)
	case 5:
		seek("\"<")
		d.Op, d.From, d.Len = r.Pick("copy", "swap"), r.Intn(len(data)), r.PickInt(4, 10, 40, 200)
	case 6:
		d.Op = "trunc"
	case 7:
		d.Op, d.Len = "zero", r.PickInt(1, 10, 100)
	case 8:
		d.Op, d.Len, d.Val = "fill", r.PickInt(1, 5, 30), uint32(r.Pick(" ", "<", "&", "9", "\xff", ">", "\"")[0])
	case 9:
		seek("\">")
		d.At++
		d.Op, d.Len, d.Val = "del", r.PickInt(1, 2, 3, 4), 0
	}
	l.Damage = append(l.Damage, d)
}

var attrRE = regexp.MustCompile(`[A-Za-z:]+="[^"]*"|<v>[^<]*</v>`)

var refValues = []string{"A1:XFD1048576", "A1:XFD1048576", "A1:A1048576", "A1:XFD1", "XFD1048576", "XFD1", "A1048576", "B2:XFD1048576", "A1:D1048576", "C3:CV9999", "XFD1048576:A1", "A1", "A1:", ":", "", "R1C1", "R1048576C16384", "R1C1:R1048576C16384", "A:XFD", "1:1048576", "A0", "A-1:B2", "XFE1", "A1048577", "A1:XFE1048577", "A1:B2:XFD1048576"}

var numValues = []string{"0", "1", "-1", "2", "163", "164", "255", "65535", "1048576", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "99999999999999999999", "1e9", "NaN", "", "x", "0x10"}

var typeValues = []string{"s", "b", "e", "n", "str", "inlineStr", "d", "", "z"}

// AddWild is AddDamage and, for workbooks made of XML parts, also gives
// well-formed but wild values to attributes. (The programs print as many
// empty cells as a workbook declares, so they are not given these.)
func AddWild(r *Rand, f *FileSpec) {
	if f.Kind == "xlsx" && f.XLSX != nil && r.P(6) {
		if b, err := f.Build(); err == nil && len(b.Parts) > 0 {
			p := b.Parts[r.Intn(len(b.Parts))]
			for k := 0; k < 20 && r.Pct(90) && !strings.Contains(p, "heet"); k++ {
				p = b.Parts[r.Intn(len(b.Parts))]
			}
			xf, si := 0, 0
			for _, q := range b.Parts {
				d := b.Inner[q]
				if i := bytes.Index(d, []byte("<cellXfs")); i >= 0 {
					xf = bytes.Count(d[i:], []byte("<xf "))
				}
				si += bytes.Count(d, []byte("</si>")) + bytes.Count(d, []byte(":si>"))/2
			}
			if damageAttrs(r, f.XLSX, p, b.Inner[p], []int{xf, si}) {
				return
			}
		}
	}
	AddDamage(r, f)
}

// damageAttrs gives well-formed but wild values to attributes of a part.
func damageAttrs(r *Rand, l *XLSXLayout, p string, data []byte, limits []int) bool {
	m := attrRE.FindAllIndex(data, -1)
	if len(m) == 0 {
		return false
	}
	var special []int // what spans cells
	for i, x := range m {
		if a := string(data[x[0]:x[1]]); strings.HasPrefix(a, "ref=") {
			special = append(special, i)
		}
	}
	// from the last to the first, so that positions hold
	pick := map[int]bool{}
	for k := r.PickInt(1, 1, 2, 3, 5); k > 0; k-- {
		if len(special) > 0 && r.P(2) {
			pick[special[r.Intn(len(special))]] = true
		} else {
			pick[r.Intn(len(m))] = true
		}
	}
	for i := len(m) - 1; i >= 0; i-- {
		if !pick[i] {
			continue
		}
		at, to := m[i][0], m[i][1]
		a := string(data[at:to])
		d := Damage{Op: "text", Part: p}
		if strings.HasPrefix(a, "<v>") {
			d.At, d.Len = at+3, to-at-7
		} else {
			q := strings.IndexByte(a, '"')
			d.At, d.Len = at+q+1, to-at-q-2
		}
		switch {
		case r.P(8):
			// a value from elsewhere
			x := m[r.Intn(len(m))]
			v := string(data[x[0]:x[1]])
			if q := strings.IndexByte(v, '"'); q >= 0 {
				v = v[q+1 : len(v)-1]
			} else {
				v = v[3 : len(v)-4]
			}
			d.Text = v
		case strings.HasPrefix(a, "ref="), strings.HasPrefix(a, "r=") && r.Pct(70):
			d.Text = refValues[r.Intn(len(refValues))]
		case len(limits) > 0 && r.P(3):
			// just beyond what there is, or the last one
			d.Text = fmt.Sprint(limits[r.Intn(len(limits))] + r.PickInt(0, 0, 0, -1, 1))
		case strings.HasPrefix(a, "t="):
			d.Text = typeValues[r.Intn(len(typeValues))]
		default:
			d.Text = numValues[r.Intn(len(numValues))]
		}
		l.Damage = append(l.Damage, d)
	}
	return true
}

var recTypes = []uint32{0x0809, 0x000A, 0x00FC, 0x003C, 0x0085, 0x00E0, 0x041E, 0x0022, 0x002F, 0x0042, 0x0200, 0x0201, 0x0203, 0x0204, 0x0205, 0x0006, 0x0207, 0x00BD, 0x00BE, 0x00D6, 0x00E5, 0x00FD, 0x027E, 0x01B8, 0x0208, 0x01B6, 0x0862, 0x1002, 0x04BC, 0x0221}

// damageRecord alters the sequence of records of a workbook.
func damageRecord(r *Rand, f *FileSpec) {
	w, spans := f.stream()
	n := len(w.recs)
	typ := func(i int) int { return int(w.b[w.recs[i]]) | int(w.b[w.recs[i]+1])<<8 }
	size := func(i int) int { return int(w.b[w.recs[i]+2]) | int(w.b[w.recs[i]+3])<<8 }
	pick := func() int {
		switch r.Intn(4) {
		case 0: // in the globals
			k := 0
			for k < n && len(spans) > 0 && w.recs[k] < spans[0][0] {
				k++
			}
			if k > 0 {
				return r.Intn(k)
			}
		case 1, 2: // a rare kind of record
			i := r.Intn(n)
			for k := 0; k < 4; k++ {
				j := r.Intn(n)
				if ti, tj := typ(i), typ(j); ti == 0x0203 || ti == 0x00FD || ti == 0x027E || ti == 0x0201 || ti == 0x00E0 && tj != 0x00E0 {
					i = j
				}
			}
			return i
		}
		return r.Intn(n)
	}
	if r.P(6) {
		damageExtreme(r, f, w)
		return
	}
	if r.P(5) {
		for k := r.PickInt(1, 1, 1, 2, 3); k > 0; k-- {
			damageEdge(r, f, w)
		}
		return
	}
	if r.P(3) {
		for k := r.PickInt(1, 1, 1, 2); k > 0; k-- {
			damageInner(r, f, w)
		}
		return
	}
	d := RecDamage{Rec: pick(), Fix: r.Pct(70)}
	if r.P(3) {
		// the shared strings, where a sheet begins or ends
		for k := 0; k < 40; k++ {
			if t := typ(d.Rec); t == 0x00FC || t == 0x003C || t == 0x000A || t == 0x0809 || t == 0x0085 {
				break
			}
			d.Rec = r.Intn(n)
		}
	}
	switch r.Intn(12) {
	case 0, 1:
		d.Op = "drop"
	case 2:
		d.Op, d.To = "dup", r.Intn(n+1)
		if r.P(2) {
			d.To = d.Rec
		}
	case 3:
		d.Op, d.To = "move", r.Intn(n)
	case 4, 5:
		d.Op, d.Val = "type", recTypes[r.Intn(len(recTypes))]
		if r.P(10) {
			d.Val = odd32[r.Intn(len(odd32))]
		}
	case 6, 7:
		d.Op = "end"
	case 8, 9:
		d.Op, d.To = "short", r.Intn(size(d.Rec)+1)
		if r.P(3) {
			d.To = r.Intn(min(size(d.Rec)+1, 9))
		}
	case 10:
		d.Op, d.To, d.Val = "long", r.PickInt(1, 2, 3, 4, 8, 100, 8224), uint32(r.PickInt(0, 1, 0xff, 0x41))
	case 11:
		d.Op, d.Len, d.Val = "set", r.PickInt(1, 2, 2, 4, 4), odd32[r.Intn(len(odd32))]
		if s := size(d.Rec); s > 0 {
			d.To = r.Intn(s)
			if r.P(2) {
				d.To = r.Intn(min(s, 24)) / 2 * 2
			}
		}
	}
	f.XLS.RecDamage = append(f.XLS.RecDamage, d)
}

// fields of records and the values at the limits of what they may hold
var extremes = map[int][]struct {
	off, size int
	vals      []uint32
}{
	0x0200: {{0, 4, []uint32{0, 0xFFFF}}, {4, 4, []uint32{0x10000, 0x10000, 0xFFFF, 0x8000}}, {8, 2, []uint32{0, 0xFF}}, {10, 2, []uint32{0x100, 0x100, 0xFF, 0}}},
	0x00E5: {{0, 2, []uint32{0xFFFF, 0}}, {2, 2, []uint32{0, 0xFFFF}}, {4, 2, []uint32{0xFFFF, 0xFFFF, 0xFFFE}}, {6, 2, []uint32{0, 0xFF, 0xFFFF}}, {8, 2, []uint32{0xFF, 0xFFFF, 0xFE, 0x100}}},
	0x01B8: {{0, 2, []uint32{0, 0xFFFF}}, {2, 2, []uint32{0xFFFF, 0xFFFE}}, {4, 2, []uint32{0, 0xFF}}, {6, 2, []uint32{0xFF, 0xFFFF, 0x100}}},
	0x0203: {{0, 2, []uint32{0xFFFF}}, {2, 2, []uint32{0xFF, 0x100, 0xFFFF}}, {4, 2, []uint32{0xFFFF, 0xFFF}}, {6, 4, []uint32{0xFFFFFFFF}}, {10, 4, []uint32{0x7FF00000, 0x7FF80000, 0xFFEFFFFF, 0x00000001, 0x7FEFFFFF, 0x41DFFFFF, 0xC3E00000}}},
	0x027E: {{0, 2, []uint32{0xFFFF}}, {2, 2, []uint32{0xFF, 0x100, 0xFFFF}}, {4, 2, []uint32{0xFFFF}}, {6, 4, []uint32{0xFFFFFFFF, 0x80000002, 0x7FFFFFFE, 0x7FFFFFFC}}},
	0x00BD: {{0, 2, []uint32{0xFFFF}}, {2, 2, []uint32{0xFF, 0xFFFF}}, {4, 2, []uint32{0xFFFF}}},
	0x00FD: {{0, 2, []uint32{0xFFFF}}, {2, 2, []uint32{0xFF, 0xFFFF}}, {6, 4, []uint32{0x7FFFFFFF, 0x80000000, 0xFFFFFFFF}}},
	0x0205: {{0, 2, []uint32{0xFFFF}}, {2, 2, []uint32{0xFF, 0xFFFF}}, {6, 1, []uint32{0xFF}}, {7, 1, []uint32{1, 0xFF}}},
	0x0006: {{0, 2, []uint32{0xFFFF}}, {2, 2, []uint32{0xFF, 0xFFFF}}, {6, 1, []uint32{0, 1, 2, 3, 0xFF}}, {12, 2, []uint32{0xFFFF, 0xFFFF, 0x7FF0}}},
	0x0207: {{0, 2, []uint32{0xFFFF, 0, 0x8000}}, {2, 1, []uint32{1, 0xFF}}},
	0x00FC: {{0, 4, []uint32{0xFFFFFFFF}}, {4, 4, []uint32{0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, 0}}, {8, 2, []uint32{0xFFFF, 0}}, {10, 1, []uint32{4, 8, 12, 13}}},
	0x0085: {{0, 4, []uint32{0, 0xFFFFFFFF, 0x7FFFFFFF}}, {6, 1, []uint32{0xFF, 0}}, {7, 1, []uint32{1, 0xFF}}},
	0x0081: {{0, 2, []uint32{0x10, 0xFFFF}}},
}

// damageExtreme sets fields to values at their limits, where arithmetic wraps.
func damageExtreme(r *Rand, f *FileSpec, w *biff) {
	n := len(w.recs)
	byType := map[int][]int{}
	var types []int
	for i := 0; i < n; i++ {
		t := int(w.b[w.recs[i]]) | int(w.b[w.recs[i]+1])<<8
		if extremes[t] == nil {
			continue
		}
		if byType[t] == nil {
			types = append(types, t)
		}
		byType[t] = append(byType[t], i)
	}
	if len(types) == 0 {
		return
	}
	set := func(rec, field, t int) {
		x := extremes[t][field]
		d := RecDamage{Rec: rec, Fix: true, Op: "set", To: x.off, Len: x.size, Val: x.vals[r.Intn(len(x.vals))]}
		f.XLS.RecDamage = append(f.XLS.RecDamage, d)
	}
	if l := byType[0x0200]; len(l) > 0 && r.P(2) {
		// as large as a table can be
		i := l[r.Intn(len(l))]
		f.XLS.RecDamage = append(f.XLS.RecDamage,
			RecDamage{Rec: i, Fix: true, Op: "set", To: 4, Len: 4, Val: 0x10000},
			RecDamage{Rec: i, Fix: true, Op: "set", To: 10, Len: 2, Val: uint32(r.PickInt(1, 2, 4, 0x100))})
	}
	for k := r.Range(1, 4); k > 0; k-- {
		t := types[r.Intn(len(types))]
		for _, m := range []int{0x00E5, 0x01B8} {
			if byType[m] != nil && r.P(2) {
				t = m
			}
		}
		rec, field := byType[t][r.Intn(len(byType[t]))], r.Intn(len(extremes[t]))
		set(rec, field, t)
		if (t == 0x00E5 || t == 0x01B8) && r.P(2) {
			// to the last row
			set(rec, len(extremes[t])-3, t)
		}
	}
}

// damageLimit sets numbers of sectors to the first one that does not exist
// (or the last which does).
func damageLimit(r *Rand, f *FileSpec, b *Built) bool {
	d := b.Data
	if len(d) < 1536 {
		return false
	}
	u32at := func(p int) int {
		return int(d[p]) | int(d[p+1])<<8 | int(d[p+2])<<16 | int(d[p+3])<<24
	}
	ss := 1 << d[30]
	sectors := (len(d) - ss) / ss
	limits := []int{sectors, u32at(44) * ss / 4, u32at(64) * ss / 4, u32at(64) * ss / 4 * 64 / ss}
	at := 0
	switch r.Intn(4) {
	case 0: // header
		at = r.PickInt(44, 48, 60, 64, 68, 72, 76, 76, 80)
	case 1: // a directory entry
		at = ss + u32at(48)*ss + 128*r.Intn(6) + r.PickInt(68, 72, 76, 116, 116, 116, 120)
		limits = append(limits, 4, 8, 5)
	case 2: // an entry of the allocation table
		at = ss + u32at(76)*ss + 4*r.Intn(min(sectors, ss/4)+1)
	case 3: // of the small one
		at = ss + u32at(60)*ss + 4*r.Intn(ss/4)
	}
	if at < 0 || at+4 > len(d) {
		return false
	}
	f.Damage = append(f.Damage, Damage{Op: "set", At: at, Len: 4, Val: uint32(limits[r.Intn(len(limits))] + r.PickInt(0, 0, 0, -1, 1))})
	return true
}

// damageEdge sets an index in a record to the first one that does not exist
// (or the last which does).
func damageEdge(r *Rand, f *FileSpec, w *biff) {
	n := len(w.recs)
	typ := func(i int) int { return int(w.b[w.recs[i]]) | int(w.b[w.recs[i]+1])<<8 }
	size := func(i int) int { return int(w.b[w.recs[i]+2]) | int(w.b[w.recs[i]+3])<<8 }
	u16at := func(i, off int) int {
		if off+2 > size(i) {
			return 0
		}
		p := w.recs[i] + 4 + off
		return int(w.b[p]) | int(w.b[p+1])<<8
	}
	xfs, sst := 0, 0
	for i := 0; i < n; i++ {
		switch typ(i) {
		case 0x00E0:
			xfs++
		case 0x00FC:
			sst = u16at(i, 4) | u16at(i, 6)<<16
		}
	}
	rec := r.Intn(n)
	for k := 0; k < 30; k++ {
		if t := typ(rec); t == 0x0205 || t == 0x0006 || t == 0x00E5 || t == 0x01B8 || t == 0x0085 || t == 0x0207 || t == 0x00FC || (t == 0x0203 || t == 0x00FD || t == 0x027E || t == 0x00BD || t == 0x0201) && r.P(3) {
			break
		}
		rec = r.Intn(n)
	}
	rows, cols := 0, 0
	for i := rec; i >= 0; i-- {
		if typ(i) == 0x0200 {
			rows, cols = u16at(i, 4)|u16at(i, 6)<<16, u16at(i, 10)
			break
		}
	}
	d := RecDamage{Rec: rec, Fix: true, Op: "set", Len: 2}
	v := 0
	field := func(f ...int) { // offset, value, ...
		k := r.Intn(len(f)/2) * 2
		d.To, v = f[k], f[k+1]
	}
	switch typ(rec) {
	case 0x0205, 0x0006, 0x0203, 0x0201:
		field(0, rows, 2, cols, 4, xfs, 4, xfs)
	case 0x027E:
		field(0, rows, 2, cols, 4, xfs)
	case 0x00FD:
		if field(0, rows, 2, cols, 4, xfs, 6, sst, 6, sst); d.To == 6 {
			d.Len = 4
		}
	case 0x00BD, 0x00BE:
		field(0, rows, 2, cols, 4, xfs, size(rec)-2, u16at(rec, size(rec)-2), size(rec)-2, cols)
	case 0x00E5:
		k := 2 + 8*r.Intn(max(1, u16at(rec, 0)))
		field(0, u16at(rec, 0), k, rows, k+2, rows, k+2, rows-1, k+4, cols, k+6, cols, k+6, cols-1)
	case 0x01B8:
		field(0, rows, 2, rows, 2, rows-1, 4, cols, 6, cols, 6, cols-1)
	case 0x0207:
		field(0, u16at(rec, 0))
	case 0x00FC:
		field(4, sst, 8, u16at(rec, 8))
	case 0x0085:
		d.Len, d.Fix = 4, false
		v = len(w.b)
		if r.P(2) {
			v = w.recs[r.Intn(n)]
		}
	case 0x0200:
		field(4, rows, 10, cols)
	default:
		return
	}
	if v += r.PickInt(0, 0, 0, 0, 1, -1); v < 0 {
		v = 0
	}
	d.Val = uint32(v)
	f.XLS.RecDamage = append(f.XLS.RecDamage, d)
}

// damageInner cuts a record short inside one of its parts, or changes one of
// the lengths or flags in it. Every kind of record is as likely as another.
func damageInner(r *Rand, f *FileSpec, w *biff) {
	n := len(w.recs)
	byType := map[int][]int{}
	var types []int
	for i := 0; i < n; i++ {
		t := int(w.b[w.recs[i]]) | int(w.b[w.recs[i]+1])<<8
		if byType[t] == nil {
			types = append(types, t)
			switch t {
			case 0x01B8, 0x00FC, 0x003C:
				types = append(types, t, t, t)
			case 0x0207, 0x041E, 0x0085, 0x002F, 0x00E5, 0x0006:
				types = append(types, t)
			}
		}
		byType[t] = append(byType[t], i)
	}
	t := types[r.Intn(len(types))]
	rec := byType[t][r.Intn(len(byType[t]))]
	at := w.recs[rec]
	data := w.b[at+4 : at+4+(int(w.b[at+2])|int(w.b[at+3])<<8)]
	u16 := func(p int) int {
		if p < 0 || p+2 > len(data) {
			return 0
		}
		return int(data[p]) | int(data[p+1])<<8
	}
	u32 := func(p int) int { return u16(p) | u16(p+2)<<16 }
	// where parts begin, and where lengths and flags are
	parts := []int{0, len(data)}
	var lens, flags []int // lengths: offset*8 + size
	part := func(p int) {
		if p <= len(data) {
			parts = append(parts, p)
		}
	}
	switch t {
	case 0x01B8:
		part(8)
		part(24)
		part(28)
		flags = append(flags, 24*8+1, 28*8+1)
		p := 32
		part(p)
		fl := u32(28)
		str := func(bit int) {
			if fl&bit != 0 && p+4 <= len(data) {
				lens = append(lens, p*8+4)
				part(p)
				part(p + 4)
				p += 4 + 2*u32(p)
				part(p)
			}
		}
		str(0x10)
		str(0x80)
		if fl&1 != 0 && fl&0x100 != 0 {
			str(1)
		} else if fl&1 != 0 {
			part(p + 16)
			part(p + 17)
			part(p + 19)
			flags = append(flags, p*8+1, (p+4)*8+1)
			if u32(p) == 0x79EAC9E0 {
				lens = append(lens, (p+16)*8+4)
				part(p + 20)
				p += 20 + u32(p+16)
			} else {
				lens = append(lens, (p+18)*8+4)
				p += 22 + u32(p+18)
				part(p - 1)
				part(p)
				p += 24
				part(p)
				lens = append(lens, p*8+4)
				if k := u32(p); k > 0 {
					part(p + 4)
					part(p + 10)
					lens = append(lens, (p+4)*8+4)
					p += k
				}
				p += 4
			}
			part(p)
		}
		str(8)
	case 0x00FC:
		lens = append(lens, 4*8+4)
		for p := 8; p+3 <= len(data); {
			part(p)
			part(p + 3)
			lens = append(lens, p*8+2)
			flags = append(flags, (p+2)*8+1)
			k, fl := u16(p), int(data[p+2])
			if fl&1 != 0 {
				k *= 2
			}
			p += 3
			if fl&8 != 0 {
				lens = append(lens, p*8+2)
				k += 4 * u16(p)
				p += 2
				part(p)
			}
			if fl&4 != 0 {
				lens = append(lens, p*8+4)
				k += u32(p)
				p += 4
				part(p)
			}
			p += k
		}
	case 0x003C:
		flags = append(flags, 1)
		part(1)
	case 0x0207:
		lens = append(lens, 2)
		flags = append(flags, 2*8+1)
		part(3)
	case 0x041E:
		lens = append(lens, 2*8+2)
		flags = append(flags, 4*8+1)
		part(2)
		part(5)
	case 0x0085:
		lens = append(lens, 6*8+1)
		flags = append(flags, 7*8+1)
		part(4)
		part(6)
		part(8)
	case 0x00E5:
		lens = append(lens, 2)
		for p := 2; p+8 <= len(data); p += 8 {
			part(p)
		}
	case 0x002F:
		flags = append(flags, 1, 2*8+1, 4*8+1, 4*8+2, 2*8+2)
		part(2)
		part(6)
		part(22)
		part(38)
	case 0x0809:
		flags = append(flags, 1, 2*8+2, 2)
		part(2)
		part(4)
	default:
		for p := 2; p < min(len(data), 16); p += 2 {
			part(p)
		}
	}
	d := RecDamage{Rec: rec, Fix: true}
	switch {
	case len(lens) > 0 && r.P(2):
		x := lens[r.Intn(len(lens))]
		d.Op, d.To, d.Len = "set", x/8, x%8
		old, rest := u16(d.To), len(data)-d.To-d.Len
		switch d.Len {
		case 1:
			old &= 0xff
		case 4:
			old = u32(d.To)
		}
		v := r.PickInt(old+1, old+1, old-1, old+2, rest, rest+1, rest/2, rest/2+1, rest/2-1, (rest-28)&0xffffff, rest-27, rest-6, 5, 1, 0, 2*old, 0x7fffffff, -1, 0x40000000, 0x80000000)
		d.Val = uint32(v)
	case len(flags) > 0 && r.P(3):
		x := flags[r.Intn(len(flags))]
		d.Op, d.To, d.Len = "set", x/8, x%8
		if d.To < len(data) {
			d.Val = uint32(data[d.To])
		}
		d.Val ^= uint32(r.PickInt(1, 2, 4, 8, 0x10, 0x80, 0xc, 0xff, 0x100))
	default:
		p := parts[r.Intn(len(parts))] + r.PickInt(0, 0, 1, -1, 2, 3, 4, -2, 8)
		if p < 0 {
			p = 0
		}
		d.Op, d.To = "short", p
		if r.P(3) {
			d.To = r.Intn(len(data) + 1)
		}
		if (t == 0x00FC || t == 0x003C) && r.P(2) {
			// without the rest of it
			f.XLS.RecDamage = append(f.XLS.RecDamage, d)
			for k := rec + 1; k < n && k < rec+20; k++ {
				if w.b[w.recs[k]] != 0x3C || w.b[w.recs[k]+1] != 0 {
					break
				}
				// they move up, as each is dropped
				f.XLS.RecDamage = append(f.XLS.RecDamage, RecDamage{Rec: rec + 1, Fix: true, Op: "drop"})
			}
			return
		}
	}
	f.XLS.RecDamage = append(f.XLS.RecDamage, d)
}

// AddInner damages a record of a workbook inside.
func AddInner(r *Rand, f *FileSpec) {
	w, _ := f.stream()
	damageInner(r, f, w)
}

// damageChain makes chains of sectors lead back into themselves, or elsewhere.
func damageChain(r *Rand, f *FileSpec, b *Built) bool {
	d := b.Data
	if len(d) < 1536 {
		return false
	}
	ss := 1 << d[30]
	u32at := func(p int) int {
		if p < 0 || p+4 > len(d) {
			return -1
		}
		return int(d[p]) | int(d[p+1])<<8 | int(d[p+2])<<16 | int(d[p+3])<<24
	}
	sectors := len(d)/ss - 1
	if sectors < 4 {
		return false
	}
	set := func(at, v int) {
		if at >= 0 && at+4 <= len(d) {
			f.Damage = append(f.Damage, Damage{Op: "set", At: at, Len: 4, Val: uint32(v)})
		}
	}
	// where the allocation table has the entry of a sector
	entry := func(sid int) int {
		k := sid / (ss / 4)
		if sid < 0 || k >= 109 {
			return -1
		}
		s := u32at(76 + 4*k)
		if s < 0 || s >= sectors {
			return -1
		}
		return ss*(s+1) + 4*(sid%(ss/4))
	}
	follow := func(sid int) (l []int) {
		for sid >= 0 && sid < sectors && len(l) < 5000 {
			l = append(l, sid)
			if sid = u32at(entry(sid)); sid < 0 {
				break
			}
		}
		return
	}
	free, end := 0xFFFFFFFF, 0xFFFFFFFE
	if r.P(4) {
		// the list of the allocation table's sectors
		s, t := r.Intn(sectors), r.Intn(sectors)
		set(68, s)
		set(72, r.PickInt(1, 1, 2, sectors, 0x7fffffff))
		last := func(s int) int { return ss*(s+2) - 4 }
		switch r.Intn(4) {
		case 0:
			set(last(s), s)
		case 1:
			set(last(s), t)
			set(last(t), s)
		case 2:
			set(last(s), r.PickInt(free, end))
		case 3:
			set(last(s), t)
			set(last(t), r.PickInt(free, end))
		}
		return true
	}
	if r.P(8) {
		// without the table of small sectors, or the directory
		set(r.PickInt(48, 60, 60, 60), r.PickInt(end, end, free, r.Intn(sectors)))
		return true
	}
	dirs := follow(u32at(48))
	start := u32at(r.PickInt(48, 60))
	mini := false
	if len(dirs) > 0 && !r.P(3) {
		p := ss*(dirs[r.Intn(len(dirs))]+1) + 128*r.Intn(ss/128)
		if r.P(4) {
			p = ss * (dirs[0] + 1)
		}
		start = u32at(p + 116)
		if d[p+66] != 5 && u32at(p+120) < u32at(56) {
			mini = true
		}
		if r.P(3) {
			// longer than it was
			set(p+120, r.PickInt(len(d), len(d)-ss, len(d)/2, 4096, 4095, 1<<30))
		}
	}
	if mini {
		l := follow(u32at(60))
		if len(l) == 0 || start < 0 {
			return false
		}
		at := func(k int) int {
			if k/(ss/4) >= len(l) {
				return -1
			}
			return ss*(l[k/(ss/4)]+1) + 4*(k%(ss/4))
		}
		k := start
		for n := r.Intn(8); n > 0 && u32at(at(k)) >= 0 && u32at(at(k)) < free-8; n-- {
			k = u32at(at(k))
		}
		set(at(k), r.PickInt(start, k, k, end, free, 0))
		return true
	}
	l := follow(start)
	if len(l) == 0 {
		return false
	}
	k := len(l) - 1
	if r.P(2) {
		k = r.Intn(len(l))
	}
	set(entry(l[k]), r.PickInt(l[0], l[r.Intn(len(l))], l[k], end, free, r.Intn(sectors)))
	return true
}
