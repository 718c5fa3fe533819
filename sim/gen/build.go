package gen

import (
	"fmt"
	"os"
	"path/filepath"
)

// Damage changes stored bytes.
type Damage struct {
	Op   string `json:"op"` // flip set zero copy trunc ins del fill swap text
	At   int    `json:"at,omitempty"`
	Len  int    `json:"len,omitempty"`
	From int    `json:"from,omitempty"`
	Val  uint32 `json:"val,omitempty"`
	Part string `json:"part,omitempty"` // inside this part of an archive
	Text string `json:"text,omitempty"` // put in place of Len bytes (op "text")
}

// Apply returns the damaged bytes.
func (d *Damage) Apply(b []byte) []byte {
	at, n := d.At, d.Len
	if at < 0 || n < 0 || at > len(b) {
		return b
	}
	if d.Op != "ins" && at+n > len(b) {
		n = len(b) - at
	}
	out := append([]byte(nil), b...)
	switch d.Op {
	case "flip": // one bit
		if at < len(out) {
			out[at] ^= 1 << (d.Val % 8)
		}
	case "set": // a little-endian number of Len bytes
		for i := 0; i < n && i < 4; i++ {
			out[at+i] = byte(d.Val >> (8 * i))
		}
	case "zero":
		for i := 0; i < n; i++ {
			out[at+i] = 0
		}
	case "fill":
		for i := 0; i < n; i++ {
			out[at+i] = byte(d.Val)
		}
	case "copy": // stale or misplaced content
		for i := 0; i < n && d.From+i < len(b) && d.From >= 0; i++ {
			out[at+i] = b[d.From+i]
		}
	case "swap":
		for i := 0; i < n && d.From+i < len(b) && d.From >= 0; i++ {
			out[at+i], out[d.From+i] = b[d.From+i], b[at+i]
		}
	case "trunc":
		out = out[:at]
	case "del":
		out = append(out[:at], b[at+n:]...)
	case "text":
		out = append(append(out[:at], d.Text...), b[at+n:]...)
	case "ins":
		if n > 1<<20 {
			n = 1 << 20
		}
		m := make([]byte, n)
		for i := range m {
			m[i] = byte(d.Val)
		}
		out = append(append(out[:at], m...), b[at:]...)
	}
	return out
}

// Repo is where corpus files are found.
var Repo = "/repo"

var corpusData map[string][]byte

// LoadCorpus reads the corpus (before the simulation takes over the file system).
func LoadCorpus() {
	corpusData = map[string][]byte{}
	l, _ := filepath.Glob(filepath.Join(Repo, "testdata", "*"))
	for _, p := range l {
		if b, err := os.ReadFile(p); err == nil {
			corpusData[filepath.Base(p)] = b
		}
	}
}

// Damaged reports whether the stored bytes differ from what the layout says.
func (f *FileSpec) Damaged() bool {
	return len(f.Damage) > 0 || f.XLSX != nil && len(f.XLSX.Damage) > 0 || f.XLS != nil && len(f.XLS.RecDamage) > 0
}

// Check validates the whole specification.
func (f *FileSpec) Check() error {
	if f.Path == "" {
		return fmt.Errorf("path")
	}
	if err := f.Valid(); err != nil {
		return err
	}
	switch f.Kind {
	case "xls":
		return f.XLS.Valid()
	case "xlsx":
		return f.XLSX.Valid(f)
	case "cfb":
		if f.CFB == nil || len(f.CFB.Extra) == 0 {
			return fmt.Errorf("no streams")
		}
		return f.CFB.Valid()
	case "csv", "tsv", "raw":
	case "corpus":
		if filepath.Base(f.Corpus) != f.Corpus || f.Corpus == "" {
			return fmt.Errorf("corpus name")
		}
	default:
		return fmt.Errorf("kind")
	}
	return nil
}

// Build returns the undamaged bytes.
func (f *FileSpec) Build() (*Built, error) {
	if err := f.Check(); err != nil {
		return nil, err
	}
	switch f.Kind {
	case "xls":
		return f.buildXLS(), nil
	case "xlsx":
		return f.buildXLSX(), nil
	case "csv", "tsv":
		return f.buildText(), nil
	case "cfb":
		l := *f.CFB
		l.Extra = nil
		b, _ := BuildCFB(f.CFB.Extra, l)
		return b, nil
	case "raw":
		return &Built{Data: f.Raw}, nil
	}
	if corpusData == nil {
		LoadCorpus()
	}
	data, ok := corpusData[f.Corpus]
	if !ok {
		return nil, fmt.Errorf("no %s in testdata", f.Corpus)
	}
	return &Built{Data: append([]byte(nil), data...)}, nil
}

// Bytes returns the stored (damaged) bytes.
func (f *FileSpec) Bytes() ([]byte, error) {
	b, err := f.Build()
	if err != nil {
		return nil, err
	}
	out := b.Data
	for i := range f.Damage {
		out = f.Damage[i].Apply(out)
	}
	return out, nil
}
