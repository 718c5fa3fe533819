package gen

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// TextLayout decides how a delimited file is written.
type TextLayout struct {
	CRLF    bool `json:"crlf,omitempty"`
	NoFinal bool `json:"nofinal,omitempty"` // no line end after the last row
	Quote   int  `json:"quote,omitempty"`   // csv: 0 only when needed, 1 always, 2 alternating
	Blank   int  `json:"blank,omitempty"`   // csv: an empty line after every n-th row
}

// rows of a delimited file: the cells of the first sheet, all as text.
func (f *FileSpec) textRows() [][]string {
	var rows [][]string
	for _, c := range f.Sheets[0].all() {
		for len(rows) <= c.R {
			rows = append(rows, nil)
		}
		for len(rows[c.R]) <= c.C {
			rows[c.R] = append(rows[c.R], "")
		}
		t, _ := c.expect(f.Kind, false)
		rows[c.R][c.C] = t
	}
	return rows
}

func (f *FileSpec) validText() error {
	if len(f.Sheets) != 1 || f.Text == nil || len(f.Sheets[0].Merges)+len(f.Sheets[0].Links) > 0 {
		return fmt.Errorf("text file layout")
	}
	rows := f.textRows()
	if len(rows) == 0 {
		return fmt.Errorf("no rows")
	}
	n := map[int]int{}
	for i, r := range rows {
		n[len(r)]++
		for _, t := range r {
			if !utf8.ValidString(t) {
				return fmt.Errorf("utf-8")
			}
			if f.Kind == "tsv" && (strings.ContainsAny(t, "\t\n\r") || len(t) > 60000) {
				return fmt.Errorf("tsv text")
			}
			if f.Kind == "csv" && strings.Contains(t, "\r") {
				return fmt.Errorf("csv text")
			}
		}
		if f.Kind == "csv" && (len(r) == 0 || len(r) == 1 && r[0] == "") {
			return fmt.Errorf("blank csv row")
		}
		if f.Kind == "tsv" && i == len(rows)-1 && f.Text.NoFinal && strings.Join(r, "\t") == "" {
			return fmt.Errorf("blank last row")
		}
		if f.Kind == "tsv" && len(strings.Join(r, "\t")) > 60000 {
			return fmt.Errorf("long line")
		}
		if f.Kind == "tsv" && i == 0 && len(r) > 0 && (strings.HasPrefix(r[0], "PK\x03\x04")) {
			return fmt.Errorf("looks like an archive")
		}
	}
	// files whose shape is in doubt belong to another property
	for c, k := range n {
		if c > 1 && k > 25 && float64(k)/float64(len(rows)) <= 0.85 {
			return fmt.Errorf("ambiguous shape")
		}
	}
	if f.Text.Blank < 0 {
		return fmt.Errorf("blank lines")
	}
	return nil
}

func (f *FileSpec) expectText() []Table {
	t := Table{}
	i := strings.LastIndexByte(f.Path, '/')
	t.Name = f.Path[i+1:]
	for _, r := range f.textRows() {
		if len(r) == 0 {
			r = []string{""}
		}
		var ty []string
		for _, c := range r {
			if c == "" {
				ty = append(ty, "blank")
			} else {
				ty = append(ty, "string")
			}
		}
		t.Rows, t.Types = append(t.Rows, r), append(t.Types, ty)
	}
	return []Table{t}
}

func (f *FileSpec) buildText() *Built {
	var b strings.Builder
	eol := "\n"
	if f.Text.CRLF {
		eol = "\r\n"
	}
	rows := f.textRows()
	bu := &Built{}
	for i, r := range rows {
		for k, t := range r {
			if k > 0 {
				if f.Kind == "csv" {
					b.WriteByte(',')
				} else {
					b.WriteByte('\t')
				}
			}
			if f.Kind == "csv" && (f.Text.Quote == 1 || (f.Text.Quote == 2 && (i+k)%2 == 0) || strings.ContainsAny(t, "\",\n\r") || strings.HasPrefix(t, " ")) {
				bu.Marks = append(bu.Marks, Mark{b.Len(), len(t) + 2, "quoted"})
				b.WriteString(`"` + strings.ReplaceAll(t, `"`, `""`) + `"`)
			} else {
				b.WriteString(t)
			}
		}
		if i+1 < len(rows) || !f.Text.NoFinal {
			bu.Marks = append(bu.Marks, Mark{b.Len(), len(eol), "eol"})
			b.WriteString(eol)
		}
		if f.Kind == "csv" && f.Text.Blank > 0 && i%f.Text.Blank == 0 {
			b.WriteString(eol)
		}
	}
	bu.Data = []byte(b.String())
	return bu
}
