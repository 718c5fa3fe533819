package gen

import (
	"archive/zip"
	"bytes"
	"compress/flate"
	"fmt"
	"hash/crc32"
	"io"
	"strconv"
	"strings"
)

// XLSXLayout decides how a workbook is stored.
type XLSXLayout struct {
	Store    int      `json:"store,omitempty"`    // 0 deflated, 1 stored, 2 mixed
	Level    int      `json:"level,omitempty"`    // compression level
	Stream   bool     `json:"stream,omitempty"`   // sizes after the data (data descriptors)
	Shuffle  uint64   `json:"shuffle,omitempty"`  // order of the parts
	Comment  int      `json:"comment,omitempty"`  // length of the archive comment
	Junk     int      `json:"junk,omitempty"`     // unrelated parts
	JunkSize int      `json:"junksize,omitempty"` // size of each
	Pretty   int      `json:"pretty,omitempty"`   // 0 compact, 1 indented, 2 with comments and prolog
	Abs      bool     `json:"abs,omitempty"`      // absolute targets
	Names    int      `json:"names,omitempty"`    // naming scheme of the parts
	Split    int      `json:"split,omitempty"`    // texts: 0 plain, 1 rich runs, 2 CDATA sections, 3 character references, 4 rotating
	Phon     bool     `json:"phon,omitempty"`     // phonetic hints
	NoShare  bool     `json:"noshare,omitempty"`  // every cell has its own shared string
	Unused   int      `json:"unused,omitempty"`   // unused shared strings in front
	SST      int      `json:"sst,omitempty"`      // shared string parts (0 = 1 when needed)
	Styles   int      `json:"styles,omitempty"`   // style parts (0 = 1)
	XFBase   int      `json:"xfbase,omitempty"`   // cell formats in front
	NumBase  numBase  `json:"numbase,omitempty"`  // numbers of custom formats beyond 164
	Custom   uint64   `json:"custom,omitempty"`   // which numbers the formats have
	NoStyle  bool     `json:"nostyle,omitempty"`  // no style part at all (general cells only)
	Spans    bool     `json:"spans,omitempty"`    // optional attributes
	Formula  bool     `json:"formula,omitempty"`  // values of formulas
	RelOrder uint64   `json:"relorder,omitempty"` // order of the relationships
	Prefix   string   `json:"prefix,omitempty"`   // namespace prefix of the worksheet elements
	NoRef    int      `json:"noref,omitempty"`    // positions left out where they follow: 1 of cells, 2 of rows, 3 of both
	AbsMain  int      `json:"absmain,omitempty"`  // target of the main part: 1 absolute, 2 with a dot
	Zip64    bool     `json:"zip64,omitempty"`    // big-archive structures
	Damage   []Damage `json:"damage,omitempty"`   // damage inside parts
	DirOnly  bool     `json:"dironly,omitempty"`  // directory entries
	Case     uint64   `json:"case,omitempty"`     // names of parts differ in case from the targets
	Other    int      `json:"other,omitempty"`    // sheets without cells: 0 chart, 1 dialog, 2 macro, 3 international macro
}

// Valid reports unsupported layouts.
func (l *XLSXLayout) Valid(f *FileSpec) error {
	if l.Comment < 0 || l.Comment > 60000 || l.Junk < 0 || l.Junk > 300 || l.JunkSize < 0 || l.JunkSize > 1<<20 || l.Unused < 0 || l.Unused > 70000 || l.NumBase < 0 || l.NumBase > 30000 || l.SST < 0 || l.SST > 20 || l.Styles < 0 || l.Styles > 20 || l.XFBase < 0 || l.XFBase > 4000 || l.NoRef < 0 || l.NoRef > 3 || l.AbsMain < 0 || l.AbsMain > 2 || l.Other < 0 || l.Other > 3 {
		return fmt.Errorf("xlsx knobs")
	}
	if l.Level < -2 || l.Level > 9 {
		return fmt.Errorf("level")
	}
	switch l.Prefix {
	case "", "x", "main":
	default:
		return fmt.Errorf("prefix")
	}
	if l.NoStyle {
		for i := range f.Sheets {
			for _, c := range f.Sheets[i].Cells {
				if c.F != "" {
					return fmt.Errorf("format without styles")
				}
			}
		}
	}
	return nil
}

type part struct {
	name string
	data []byte
}

const (
	relBase   = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/"
	mainNS    = "http://schemas.openxmlformats.org/spreadsheetml/2006/main"
	xmlProlog = `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>` + "\n"
)

func colName(c int) string {
	s := ""
	for c++; c > 0; c = (c - 1) / 26 {
		s = string(rune('A'+(c-1)%26)) + s
	}
	return s
}

func ref(r, c int) string { return colName(c) + strconv.Itoa(r+1) }

func esc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;").Replace(s)
}

func charRefs(s string) string {
	var b strings.Builder
	for i, r := range []rune(s) {
		if i%3 == 1 || r < 32 || strings.ContainsRune(`&<>"`, r) {
			if i%2 == 0 {
				fmt.Fprintf(&b, "&#x%X;", r)
			} else {
				fmt.Fprintf(&b, "&#%d;", r)
			}
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func cdata(s string) string {
	rs := []rune(s)
	h := len(rs) / 2
	in := func(t string) string {
		return "<![CDATA[" + strings.ReplaceAll(t, "]]>", "]]]]><![CDATA[>") + "]]>"
	}
	return esc(string(rs[:h])) + in(string(rs[h:]))
}

func tTag(p, s, body string) string {
	if strings.TrimSpace(s) != s || strings.ContainsAny(s, "\n\t") {
		return "<" + p + `t xml:space="preserve">` + body + "</" + p + "t>"
	}
	return "<" + p + "t>" + body + "</" + p + "t>"
}

// text renders a string item.
func (l *XLSXLayout) text(p, s string, k int) string {
	m := l.Split
	if m == 4 {
		m = k % 4
	}
	var b string
	switch m {
	case 1:
		rs := []rune(s)
		h := len(rs) / 2
		if h == 0 {
			b = "<" + p + "r>" + tTag(p, s, esc(s)) + "</" + p + "r>"
			break
		}
		for i, t := range []string{string(rs[:h]), string(rs[h:])} {
			pr := ""
			if i == 1 {
				pr = "<" + p + "rPr><" + p + "b/><" + p + `sz val="11"/></` + p + "rPr>"
			}
			b += "<" + p + "r>" + pr + tTag(p, t, esc(t)) + "</" + p + "r>"
			if l.Pretty > 0 {
				b += "\n  "
			}
		}
	case 2:
		b = tTag(p, s, cdata(s))
	case 3:
		b = tTag(p, s, charRefs(s))
	default:
		b = tTag(p, s, esc(s))
	}
	if l.Phon && k%2 == 0 {
		b += "<" + p + `rPh sb="0" eb="1"><` + p + "t>フリガナ</" + p + "t></" + p + "rPh><" + p + `phoneticPr fontId="1"/>`
	}
	return b
}

func (f *FileSpec) parts() []part {
	l := f.XLSX
	nl := ""
	if l.Pretty > 0 {
		nl = "\n  "
	}
	prolog := xmlProlog
	if l.Pretty == 2 {
		prolog += "<!-- generated -->\n"
	}
	wbDir, wb, shDir := "xl/", "workbook.xml", "worksheets/"
	sheetName := func(i int) string { return fmt.Sprintf("sheet%d.xml", i+1) }
	switch l.Names {
	case 1:
		sheetName = func(i int) string { return fmt.Sprintf("table-%c.xml", 'z'-rune(i%26)) + "" }
		if len(f.Sheets) > 26 {
			sheetName = func(i int) string { return fmt.Sprintf("t%d.xml", 1000-i) }
		}
	case 2:
		wb, shDir = "wb.xml", "sheets/data/"
	}
	target := func(t string) string {
		if l.Abs {
			return "/" + wbDir + t
		}
		return t
	}
	// shared strings
	var strs []string
	index := map[string]int{}
	for i := 0; i < l.Unused; i++ {
		strs = append(strs, fmt.Sprintf("unused %d", i))
	}
	total := 0
	p := ""
	if l.Prefix != "" {
		p = l.Prefix + ":"
	}
	ns := `xmlns="` + mainNS + `"`
	if p != "" {
		ns = "xmlns:" + l.Prefix + `="` + mainNS + `"`
	}
	var parts []part
	var rels, ctypes []string
	rel := func(typ, tgt string) string {
		id := fmt.Sprintf("rId%d", len(rels)+1)
		base := relBase
		if strings.HasPrefix(typ, "xl") {
			base = "http://schemas.microsoft.com/office/2006/relationships/"
		}
		rels = append(rels, fmt.Sprintf(`<Relationship Id="%s" Type="%s%s" Target="%s"/>`, id, base, typ, tgt))
		return id
	}
	formatIndex, formatNumber, codes := numFormats(l.Custom, f.Odd, f.usedFormats())
	formatNumber = l.NumBase.renumber(formatNumber)
	xf := func(name string) int { return l.XFBase + formatIndex[name] }
	sheetsXML := ""
	type late struct {
		name string
		data string
	}
	var sheetParts []late
	for i := range f.Sheets {
		s := &f.Sheets[i]
		var b strings.Builder
		b.WriteString(prolog)
		b.WriteString("<" + p + "worksheet " + ns + ` xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships">` + nl)
		rows, cols := s.extent()
		cells := s.all()
		if s.Dim >= 0 {
			rng := "A1"
			if r, c := rows+s.Dim, cols+s.Dim; rows > 0 && (r > 1 || c > 1) {
				rng = "A1:" + ref(r-1, c-1)
			}
			b.WriteString("<" + p + `dimension ref="` + rng + `"/>` + nl)
		}
		if l.Spans {
			b.WriteString("<" + p + `sheetViews><` + p + `sheetView workbookViewId="0"/></` + p + "sheetViews>" + nl)
			b.WriteString("<" + p + `cols><` + p + `col min="1" max="3" width="9.5"/></` + p + "cols>" + nl)
		}
		b.WriteString("<" + p + "sheetData>" + nl)
		nextRow := 0
		for k := 0; k < len(cells); {
			r := cells[k].R
			nextCol := 0
			sp := ""
			if l.Spans {
				sp = fmt.Sprintf(` spans="1:%d" ht="15"`, cols)
			}
			at := fmt.Sprintf(` r="%d"`, r+1)
			if l.NoRef&2 != 0 && r == nextRow {
				at = ""
			}
			nextRow = r + 1
			fmt.Fprintf(&b, `<%srow%s%s>%s`, p, at, sp, nl)
			for ; k < len(cells) && cells[k].R == r; k++ {
				c := cells[k]
				attr := fmt.Sprintf(`r="%s"`, ref(c.R, c.C))
				if l.NoRef&1 != 0 && c.C == nextCol {
					attr = ""
				}
				nextCol = c.C + 1
				if x := xf(c.F); !l.NoStyle && (x > 0 || c.E%2 == 1) {
					if c.E%3 == 1 {
						attr = fmt.Sprintf(`s="%d" %s`, x, attr)
					} else {
						attr += fmt.Sprintf(` s="%d"`, x)
					}
				}
				fm := ""
				if l.Formula && (c.E+k)%2 == 0 {
					fm = "<" + p + "f>SUM(B1:B2)&amp;\"t\"</" + p + "f>" + nl
				}
				v := func(t, val string) {
					if t != "" {
						t = ` t="` + t + `"`
					}
					fmt.Fprintf(&b, "<%sc %s%s>%s%s<%sv>%s</%sv>%s</%sc>%s", p, attr, t, nl, fm, p, val, p, nl, p, nl)
				}
				switch c.K {
				case "z":
					fmt.Fprintf(&b, "<%sc %s/>%s", p, attr, nl)
				case "n":
					val := strconv.FormatFloat(c.N, 'f', -1, 64)
					if c.E%4 == 2 {
						val = strconv.FormatFloat(c.N, 'E', -1, 64)
					}
					if c.E%4 == 1 {
						v("n", val)
					} else {
						v("", val)
					}
				case "b":
					if c.B {
						v("b", "1")
					} else {
						v("b", "0")
					}
				case "e":
					v("e", esc(c.S))
				case "s":
					switch c.E % 4 {
					case 1: // inline
						fmt.Fprintf(&b, "<%sc %s t=\"inlineStr\">%s<%sis>%s</%sis>%s</%sc>%s", p, attr, nl, p, l.text(p, c.S, k), p, nl, p, nl)
					case 3: // result of a formula
						body := esc(c.S)
						if l.Split == 3 {
							body = charRefs(c.S)
						}
						fm = "<" + p + "f>A1&amp;B1</" + p + "f>" + nl
						v("str", body)
					default:
						q, ok := index[c.S]
						if !ok || l.NoShare {
							q = len(strs)
							strs = append(strs, c.S)
							index[c.S] = q
						}
						total++
						val := strconv.Itoa(q)
						v("s", val)
					}
				}
			}
			b.WriteString("</" + p + "row>" + nl)
		}
		b.WriteString("</" + p + "sheetData>" + nl)
		if len(s.Merges) > 0 {
			fmt.Fprintf(&b, `<%smergeCells count="%d">%s`, p, len(s.Merges), nl)
			for _, m := range s.Merges {
				fmt.Fprintf(&b, `<%smergeCell ref="%s:%s"/>%s`, p, ref(m.R1, m.C1), ref(m.R2, m.C2), nl)
			}
			b.WriteString("</" + p + "mergeCells>" + nl)
		}
		dir := wbDir + shDir
		if len(s.Links) > 0 {
			var rb strings.Builder
			rb.WriteString(prolog + `<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">` + nl)
			b.WriteString("<" + p + "hyperlinks>" + nl)
			for k, ln := range s.Links {
				id := fmt.Sprintf("rId%d", len(s.Links)-k)
				fmt.Fprintf(&rb, `<Relationship Id="%s" Type="%shyperlink" Target="%s" TargetMode="External"/>%s`, id, relBase, esc(ln.URL), nl)
				rng := ref(ln.R1, ln.C1)
				fmt.Fprintf(&b, `<%shyperlink ref="%s" r:id="%s"`, p, rng, id)
				if ln.Text != "" {
					fmt.Fprintf(&b, ` display="%s"`, esc(ln.Text))
				}
				b.WriteString("/>" + nl)
			}
			b.WriteString("</" + p + "hyperlinks>" + nl)
			rb.WriteString("</Relationships>")
			parts = append(parts, part{dir + "_rels/" + sheetName(i) + ".rels", []byte(rb.String())})
		} else if l.Spans {
			parts = append(parts, part{dir + "_rels/" + sheetName(i) + ".rels", []byte(prolog + `<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="` + relBase + `printerSettings" Target="../printerSettings/printerSettings1.bin"/></Relationships>`)})
		}
		b.WriteString("<" + p + `pageMargins left="0.7" right="0.7" top="0.75" bottom="0.75" header="0.3" footer="0.3"/>`)
		b.WriteString("</" + p + "worksheet>")
		sheetParts = append(sheetParts, late{dir + sheetName(i), b.String()})
		typ := "worksheet"
		relType := typ
		switch {
		case s.Dialog && l.Other == 1:
			typ, relType = "dialogsheet", "dialogsheet"
			dir = wbDir + "dialogsheets/"
			sheetParts[len(sheetParts)-1] = late{dir + sheetName(i), prolog + `<dialogsheet xmlns="` + mainNS + `"><sheetPr/><sheetViews><sheetView showRowColHeaders="0" workbookViewId="0"/></sheetViews><sheetFormatPr defaultRowHeight="13"/><pageMargins left="0.7" right="0.7" top="0.75" bottom="0.75" header="0.3" footer="0.3"/></dialogsheet>`}
		case s.Dialog && l.Other > 1:
			typ, relType = "macrosheet", [...]string{"xlMacrosheet", "xlIntlMacrosheet"}[l.Other-2]
			dir = wbDir + "macrosheets/"
			sheetParts[len(sheetParts)-1] = late{dir + sheetName(i), prolog + `<xm:macrosheet xmlns="` + mainNS + `" xmlns:xm="http://schemas.microsoft.com/office/excel/2006/main"><dimension ref="A1"/><sheetViews><sheetView workbookViewId="0"/></sheetViews><sheetData/><pageMargins left="0.7" right="0.7" top="0.75" bottom="0.75" header="0.3" footer="0.3"/></xm:macrosheet>`}
		case s.Dialog:
			typ, relType = "chartsheet", "chartsheet"
			dir = wbDir + "chartsheets/"
			sheetParts[len(sheetParts)-1] = late{dir + sheetName(i), prolog + `<chartsheet xmlns="` + mainNS + `" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships"><sheetPr/><sheetViews><sheetView workbookViewId="0"/></sheetViews><pageMargins left="0.7" right="0.7" top="0.75" bottom="0.75" header="0.3" footer="0.3"/><drawing r:id="rId1"/></chartsheet>`}
		}
		id := rel(relType, target(strings.TrimPrefix(dir, wbDir)+sheetName(i)))
		sheetsXML += fmt.Sprintf(`<%ssheet name="%s" sheetId="%d" r:id="%s"/>%s`, p, esc(s.Name), i+1, id, nl)
		ctypes = append(ctypes, fmt.Sprintf(`<Override PartName="/%s" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.%s+xml"/>`, dir+sheetName(i), typ))
	}
	for _, s := range sheetParts {
		parts = append(parts, part{s.name, []byte(s.data)})
	}
	if !l.NoStyle {
		n := l.Styles
		if n < 1 {
			n = 1
		}
		for k := 0; k < n; k++ {
			var b strings.Builder
			b.WriteString(prolog + `<styleSheet xmlns="` + mainNS + `">` + nl)
			fmt.Fprintf(&b, `<numFmts count="%d">`, len(codes))
			for j, c := range codes {
				fmt.Fprintf(&b, `<numFmt numFmtId="%d" formatCode="%s"/>`, 164+int(l.NumBase)+j, esc(c))
			}
			b.WriteString(`</numFmts>` + nl)
			b.WriteString(`<fonts count="1"><font><sz val="11"/></font></fonts>` + nl)
			b.WriteString(`<cellStyleXfs count="2"><xf numFmtId="0" fontId="0"/><xf numFmtId="9" fontId="0" applyNumberFormat="0"/></cellStyleXfs>` + nl)
			fmt.Fprintf(&b, `<cellXfs count="%d">%s`, l.XFBase+len(formatNumber), nl)
			for j := 0; j < l.XFBase; j++ {
				b.WriteString(`<xf numFmtId="0" fontId="0" xfId="0"/>`)
			}
			for j, fn := range formatNumber {
				if k+1 < n {
					fn = 0 // only the last one counts
				}
				if j%2 == 0 {
					fmt.Fprintf(&b, `<xf numFmtId="%d" fontId="0" xfId="0" applyNumberFormat="1"/>%s`, fn, nl)
				} else {
					fmt.Fprintf(&b, `<xf numFmtId="%d" fontId="0" xfId="1"><alignment horizontal="left"/></xf>%s`, fn, nl)
				}
			}
			b.WriteString(`</cellXfs>` + nl + `<cellStyles count="1"><cellStyle name="Normal" xfId="0" builtinId="0"/></cellStyles><dxfs count="0"/></styleSheet>`)
			name := "styles.xml"
			if n > 1 {
				name = fmt.Sprintf("styles%d.xml", k)
			}
			parts = append(parts, part{wbDir + name, []byte(b.String())})
			rel("styles", target(name))
		}
	}
	if len(strs) > 0 || l.SST > 0 {
		n := l.SST
		if n < 1 {
			n = 1
		}
		per := (len(strs) + n - 1) / n
		for k := 0; k < n; k++ {
			lo, hi := k*per, (k+1)*per
			if lo > len(strs) {
				lo = len(strs)
			}
			if hi > len(strs) {
				hi = len(strs)
			}
			var b strings.Builder
			fmt.Fprintf(&b, `%s<%ssst %s count="%d" uniqueCount="%d">%s`, prolog, p, ns, total, hi-lo, nl)
			for j := lo; j < hi; j++ {
				b.WriteString("<" + p + "si>" + l.text(p, strs[j], j) + "</" + p + "si>" + nl)
			}
			b.WriteString("</" + p + "sst>")
			name := "sharedStrings.xml"
			if n > 1 {
				name = fmt.Sprintf("sharedStrings%d.xml", k)
			}
			parts = append(parts, part{wbDir + name, []byte(b.String())})
			rel("sharedStrings", target(name))
		}
	}
	dates := ""
	switch {
	case f.D1904 && len(f.Sheets)%2 == 0:
		dates = ` date1904="true"`
	case f.D1904:
		dates = ` date1904="1"`
	case len(f.Sheets)%2 == 0:
		dates = ` date1904="0"`
	}
	parts = append(parts, part{wbDir + wb, []byte(prolog + "<" + p + "workbook " + ns + ` xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships">` + nl + "<" + p + "workbookPr" + dates + ` defaultThemeVersion="1"/>` + nl + "<" + p + "sheets>" + nl + sheetsXML + "</" + p + "sheets>" + nl + "<" + p + `calcPr calcId="1"/></` + p + "workbook>")})
	if l.RelOrder != 0 {
		r2 := make([]string, len(rels))
		for i, j := range NewRand(l.RelOrder).Perm(len(rels)) {
			r2[j] = rels[i]
		}
		rels = r2
	}
	parts = append(parts, part{wbDir + "_rels/" + wb + ".rels", []byte(prolog + `<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">` + nl + strings.Join(rels, nl) + nl + "</Relationships>")})
	top := fmt.Sprintf(`<Relationship Id="rId3" Type="%sextended-properties" Target="docProps/app.xml"/>%s<Relationship Id="rId1" Type="%sofficeDocument" Target="%s"/>`, relBase, nl, relBase, [...]string{"", "/", "./"}[l.AbsMain]+wbDir+wb)
	parts = append(parts, part{"_rels/.rels", []byte(prolog + `<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">` + nl + top + "</Relationships>")})
	parts = append(parts, part{"[Content_Types].xml", []byte(prolog + `<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="xml" ContentType="application/xml"/>` + strings.Join(ctypes, "") + "</Types>")})
	for i := 0; i < l.Junk; i++ {
		d := (&Stream{Size: l.JunkSize, Seed: uint64(i)}).Bytes()
		parts = append(parts, part{fmt.Sprintf("xl/media/image%d.png", i), d})
	}
	if l.Shuffle != 0 {
		p2 := make([]part, len(parts))
		for i, j := range NewRand(l.Shuffle).Perm(len(parts)) {
			p2[j] = parts[i]
		}
		parts = p2
	}
	return parts
}

// stored is the name of a part in the archive, where case means nothing.
func (l *XLSXLayout) stored(i int, name string) string {
	if l.Case == 0 {
		return name
	}
	b := []byte(name)
	r := NewRand(l.Case + uint64(i))
	how := r.Intn(4)
	for k, c := range b {
		up := c >= 'a' && c <= 'z'
		low := c >= 'A' && c <= 'Z'
		switch {
		case how == 1 && up, how == 3 && up && r.P(2):
			b[k] -= 32
		case how == 2 && low, how == 3 && low:
			b[k] += 32
		}
	}
	return string(b)
}

func (f *FileSpec) buildXLSX() *Built {
	l := f.XLSX
	parts := f.parts()
	var buf bytes.Buffer
	zw := zip.NewWriter(&buf)
	if l.Level != 0 {
		zw.RegisterCompressor(zip.Deflate, func(w io.Writer) (io.WriteCloser, error) { return flate.NewWriter(w, l.Level) })
	}
	b := &Built{Inner: map[string][]byte{}}
	type span struct {
		name     string
		from, to int
	}
	var spans []span
	for i, p := range parts {
		b.Parts = append(b.Parts, p.name)
		for _, d := range l.Damage {
			if d.Part == p.name {
				p.data = d.Apply(p.data)
			}
		}
		b.Inner[p.name] = p.data
		if l.DirOnly && i == 0 {
			zw.CreateHeader(&zip.FileHeader{Name: "xl/"})
		}
		m := zip.Deflate
		if l.Store == 1 || (l.Store == 2 && i%2 == 0) {
			m = zip.Store
		}
		zw.Flush()
		from := buf.Len()
		if l.Stream {
			w, _ := zw.CreateHeader(&zip.FileHeader{Name: l.stored(i, p.name), Method: m})
			w.Write(p.data)
		} else {
			var cb bytes.Buffer
			if m == zip.Store {
				cb.Write(p.data)
			} else {
				lv := l.Level
				if lv == 0 {
					lv = -1
				}
				fw, _ := flate.NewWriter(&cb, lv)
				fw.Write(p.data)
				fw.Close()
			}
			w, _ := zw.CreateRaw(&zip.FileHeader{Name: l.stored(i, p.name), Method: m, CRC32: crc32.ChecksumIEEE(p.data), CompressedSize64: uint64(cb.Len()), UncompressedSize64: uint64(len(p.data))})
			w.Write(cb.Bytes())
		}
		zw.Flush()
		spans = append(spans, span{p.name, from, buf.Len()})
	}
	if l.Comment > 0 {
		zw.SetComment(strings.Repeat("c", l.Comment))
	}
	zw.Close()
	b.Data = buf.Bytes()
	cd := 0
	for _, s := range spans {
		h := 30 + len(s.name)
		if s.from+h <= s.to {
			b.Marks = append(b.Marks, Mark{s.from, h, "local"}, Mark{s.from + h, s.to - s.from - h, "part " + s.name})
		}
		cd = s.to
	}
	b.Marks = append(b.Marks, Mark{cd, len(b.Data) - cd - 22 - l.Comment, "central"}, Mark{len(b.Data) - 22 - l.Comment, 22, "end"})
	return b
}
