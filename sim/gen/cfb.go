package gen

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"unicode/utf16"
)

// CFBLayout decides where everything lies inside a compound file.
type CFBLayout struct {
	V4          bool     `json:"v4,omitempty"`          // 4096-byte sectors
	Shuffle     uint64   `json:"shuffle,omitempty"`     // order of the sectors, 0 = as written
	Gaps        int      `json:"gaps,omitempty"`        // free sectors in between
	MiniShuffle uint64   `json:"minishuffle,omitempty"` // order of the small blocks
	MiniGaps    int      `json:"minigaps,omitempty"`    // free small blocks in between
	Extra       []Stream `json:"extra,omitempty"`       // other streams
	First       bool     `json:"first,omitempty"`       // the other streams come first
	DirShuffle  uint64   `json:"dirshuffle,omitempty"`  // order of the directory entries
	Empty       int      `json:"empty,omitempty"`       // unused directory entries in between
	Storages    int      `json:"storages,omitempty"`    // storages besides the root
	Nested      []Stream `json:"nested,omitempty"`      // streams within those storages
	ExtraFAT    int      `json:"extrafat,omitempty"`    // allocation table sectors beyond need
	Sequential  bool     `json:"seqfat,omitempty"`      // allocation table at the end instead of shuffled in
}

// Stream is a named stream of pseudo-random (or given) content.
type Stream struct {
	Name string `json:"name"`
	Size int    `json:"size,omitempty"`
	Seed uint64 `json:"seed,omitempty"`
	In   int    `json:"in,omitempty"` // nested: which storage
	Data []byte `json:"-"`
}

// Bytes returns the content.
func (s *Stream) Bytes() []byte {
	if s.Data != nil {
		return s.Data
	}
	b := make([]byte, s.Size)
	r := NewRand(s.Seed)
	for i := range b {
		if i%8 == 0 {
			// something which identifies the position
			b[i] = byte(i >> 3)
			continue
		}
		b[i] = byte(r.U64())
	}
	return b
}

// Mark is an interesting place inside a built file.
type Mark struct {
	Off  int
	Len  int
	What string
}

// Built is a file with its landmarks.
type Built struct {
	Data  []byte
	Marks []Mark
	Parts []string          // names of the parts (zip based files)
	Inner map[string][]byte // their contents
}

const (
	cfbFree  = 0xFFFFFFFF
	cfbEnd   = 0xFFFFFFFE
	cfbFAT   = 0xFFFFFFFD
	cfbDIFAT = 0xFFFFFFFC
)

// Valid reports layouts the writer does not support.
func (l *CFBLayout) Valid() error {
	names := map[string]bool{"Root Entry": true, "Workbook": true}
	if l.Gaps < 0 || l.Gaps > 60000 || l.MiniGaps < 0 || l.MiniGaps > 20000 || l.Empty < 0 || l.Empty > 100 || l.Storages < 0 || l.Storages > 100 || l.ExtraFAT < 0 || l.ExtraFAT > 600 {
		return fmt.Errorf("cfb knobs")
	}
	for _, s := range l.Extra {
		if s.Name == "" || len(utf16.Encode([]rune(s.Name))) > 31 || names[s.Name] || s.Size < 0 || s.Size > 8<<20 {
			return fmt.Errorf("stream")
		}
		names[s.Name] = true
	}
	nested := map[string]bool{}
	for _, s := range l.Nested {
		if s.Name == "" || len(utf16.Encode([]rune(s.Name))) > 31 || nested[s.Name] || s.Size < 0 || s.Size > 8<<20 || s.In < 0 || s.In >= l.Storages {
			return fmt.Errorf("nested stream")
		}
		nested[s.Name] = true
	}
	return nil
}

// BuildCFB writes a compound file holding the streams. The places of the
// bytes of streams[0] are returned too (offset of each of its blocks).
func BuildCFB(streams []Stream, l CFBLayout) (*Built, func(int) int) {
	shift := uint(9)
	if l.V4 {
		shift = 12
	}
	ss := 1 << shift
	main := 0
	all := append([]Stream(nil), streams...)
	if l.First {
		all = append(append([]Stream(nil), l.Extra...), streams...)
		main = len(l.Extra)
	} else {
		all = append(all, l.Extra...)
	}
	nroot := len(all)
	all = append(all, l.Nested...)
	le := binary.LittleEndian

	// the small blocks
	type ministr struct{ blocks []int }
	minis := make([][]int, len(all))
	nmini := 0
	datas := make([][]byte, len(all))
	for i := range all {
		datas[i] = all[i].Bytes()
		if n := len(datas[i]); n > 0 && n < 4096 {
			for k := 0; k < (n+63)/64; k++ {
				minis[i] = append(minis[i], nmini)
				nmini++
			}
		}
	}
	if nmini > 0 {
		nmini += l.MiniGaps
		if l.MiniShuffle != 0 {
			p := NewRand(l.MiniShuffle).Perm(nmini)
			for _, m := range minis {
				for k := range m {
					m[k] = p[m[k]]
				}
			}
		}
	}
	mini := make([]byte, nmini*64)
	for i := range mini {
		mini[i] = 0xEE // slack
	}
	minifat := make([]uint32, nmini)
	for i := range minifat {
		minifat[i] = cfbFree
	}
	for i, m := range minis {
		for k, b := range m {
			d := datas[i][k*64:]
			if len(d) > 64 {
				d = d[:64]
			}
			copy(mini[b*64:], d)
			minifat[b] = cfbEnd
			if k+1 < len(m) {
				minifat[b] = uint32(m[k+1])
			}
		}
	}

	// directory entries
	type entry struct {
		name  string
		typ   byte
		data  int // index of the stream, -1 root, -2 none
		start uint32
		size  int
		tree  [3]uint32 // left and right sibling, child
	}
	dir := []entry{{name: "Root Entry", typ: 5, data: -1}}
	kids := map[int][]int{}
	for i := 0; i < l.Storages; i++ {
		at := len(dir)
		kids[0] = append(kids[0], at)
		dir = append(dir, entry{name: fmt.Sprintf("Storage%d", i), typ: 1, data: -2})
		for k, s := range l.Nested {
			if s.In == i {
				kids[at] = append(kids[at], len(dir))
				dir = append(dir, entry{name: s.Name, typ: 2, data: nroot + k})
			}
		}
	}
	for i := range all[:nroot] {
		if i%3 == 1 {
			for k := 0; k < l.Empty; k++ {
				dir = append(dir, entry{data: -2})
			}
		}
		kids[0] = append(kids[0], len(dir))
		dir = append(dir, entry{name: all[i].Name, typ: 2, data: i})
	}
	if l.DirShuffle != 0 {
		p := append([]int{0}, NewRand(l.DirShuffle).Perm(len(dir)-1)...)
		for i := range p[1:] {
			p[1+i]++
		}
		moved := make([]entry, len(dir))
		for i := range dir {
			moved[p[i]] = dir[i]
		}
		dir = moved
		nk := map[int][]int{}
		for at, ks := range kids {
			for _, k := range ks {
				nk[p[at]] = append(nk[p[at]], p[k])
			}
		}
		kids = nk
	}
	// the entries of a storage are a balanced tree, in order of their names
	var tree func(ids []int) uint32
	tree = func(ids []int) uint32 {
		if len(ids) == 0 {
			return cfbFree
		}
		m := len(ids) / 2
		dir[ids[m]].tree[0], dir[ids[m]].tree[1] = tree(ids[:m]), tree(ids[m+1:])
		return uint32(ids[m])
	}
	for i := range dir {
		dir[i].tree = [3]uint32{cfbFree, cfbFree, cfbFree}
	}
	for at, ids := range kids {
		sort.Slice(ids, func(i, j int) bool {
			a, b := utf16.Encode([]rune(strings.ToUpper(dir[ids[i]].name))), utf16.Encode([]rune(strings.ToUpper(dir[ids[j]].name)))
			if len(a) != len(b) {
				return len(a) < len(b)
			}
			for k := range a {
				if a[k] != b[k] {
					return a[k] < b[k]
				}
			}
			return ids[i] < ids[j]
		})
		dir[at].tree[2] = tree(ids)
	}
	for len(dir)%(ss/128) != 0 {
		dir = append(dir, entry{data: -2})
	}

	// logical sectors: groups of chained data
	type group struct {
		what string
		data []byte
		secs []int
	}
	var groups []*group
	next := 0
	add := func(what string, data []byte) *group {
		g := &group{what: what, data: data}
		for k := 0; k < (len(data)+ss-1)/ss; k++ {
			g.secs = append(g.secs, next)
			next++
		}
		groups = append(groups, g)
		return g
	}
	gdir := add("dir", make([]byte, len(dir)*128))
	gstreams := make([]*group, len(all))
	for i := range all {
		if len(datas[i]) >= 4096 {
			gstreams[i] = add("stream", datas[i])
		}
	}
	var gmini, gminifat *group
	if nmini > 0 {
		gmini = add("ministream", mini)
		mf := make([]byte, (4*nmini+ss-1)/ss*ss)
		for i := range mf {
			mf[i] = 0xFF
		}
		for i, v := range minifat {
			le.PutUint32(mf[4*i:], v)
		}
		gminifat = add("minifat", mf)
	}
	next += l.Gaps
	// allocation table
	per := ss / 4
	nfat, ndifat := 1, 0
	for {
		total := next + nfat + ndifat
		need := (total+per-1)/per + l.ExtraFAT
		nd := 0
		if need > 109 {
			nd = (need - 109 + per - 2) / (per - 1)
		}
		if need == nfat && nd == ndifat {
			break
		}
		nfat, ndifat = need, nd
	}
	fatsec := make([]int, nfat)
	difsec := make([]int, ndifat)
	for i := range fatsec {
		fatsec[i] = next
		next++
	}
	for i := range difsec {
		difsec[i] = next
		next++
	}
	if l.Shuffle != 0 {
		n := next
		if l.Sequential {
			n = next - nfat - ndifat
		}
		p := NewRand(l.Shuffle).Perm(n)
		m := func(s []int) {
			for k := range s {
				if s[k] < n {
					s[k] = p[s[k]]
				}
			}
		}
		for _, g := range groups {
			m(g.secs)
		}
		m(fatsec)
		m(difsec)
	}
	fat := make([]uint32, nfat*per)
	for i := range fat {
		fat[i] = cfbFree
	}
	for _, g := range groups {
		for k, s := range g.secs {
			fat[s] = cfbEnd
			if k+1 < len(g.secs) {
				fat[s] = uint32(g.secs[k+1])
			}
		}
	}
	for _, s := range fatsec {
		fat[s] = cfbFAT
	}
	for _, s := range difsec {
		fat[s] = cfbDIFAT
	}

	out := make([]byte, (next+1)*ss)
	for i := ss; i < len(out); i++ {
		out[i] = 0xDD // stale content of free sectors and slack
	}
	off := func(s int) int { return (s + 1) * ss }
	b := &Built{Data: out}
	mark := func(o, n int, what string) { b.Marks = append(b.Marks, Mark{o, n, what}) }

	first := func(g *group) uint32 {
		if g == nil || len(g.secs) == 0 {
			return cfbEnd
		}
		return uint32(g.secs[0])
	}
	for i := range dir {
		e := &dir[i]
		switch {
		case e.data == -1:
			e.start, e.size = first(gmini), len(mini)
		case e.data == -2:
			e.start = 0
		default:
			e.size = len(datas[e.data])
			e.start = first(gstreams[e.data])
			if m := minis[e.data]; len(m) > 0 {
				e.start = uint32(m[0])
			}
		}
		d := gdir.data[i*128 : i*128+128]
		u := utf16.Encode([]rune(e.name))
		for k, c := range u {
			le.PutUint16(d[2*k:], c)
		}
		if e.typ != 0 {
			le.PutUint16(d[64:], uint16(2*len(u)+2))
			d[66] = e.typ
			d[67] = 1
		}
		if e.typ == 0 {
			e.tree = [3]uint32{cfbFree, cfbFree, cfbFree}
		}
		le.PutUint32(d[68:], e.tree[0])
		le.PutUint32(d[72:], e.tree[1])
		le.PutUint32(d[76:], e.tree[2])
		le.PutUint32(d[116:], e.start)
		le.PutUint64(d[120:], uint64(e.size))
	}
	for _, g := range groups {
		for k, s := range g.secs {
			d := g.data[k*ss:]
			if len(d) > ss {
				d = d[:ss]
			}
			copy(out[off(s):], d)
			if g.what != "stream" && g.what != "ministream" {
				mark(off(s), ss, g.what)
			}
		}
	}
	for i, s := range fatsec {
		for k := 0; k < per; k++ {
			le.PutUint32(out[off(s)+4*k:], fat[i*per+k])
		}
		if i < 20 {
			mark(off(s), ss, "fat")
		}
	}
	for i, s := range difsec {
		o := out[off(s):]
		for k := 0; k < per-1; k++ {
			v := uint32(cfbFree)
			if n := 109 + i*(per-1) + k; n < nfat {
				v = uint32(fatsec[n])
			}
			le.PutUint32(o[4*k:], v)
		}
		nx := uint32(cfbEnd)
		if i+1 < ndifat {
			nx = uint32(difsec[i+1])
		}
		le.PutUint32(o[4*(per-1):], nx)
		mark(off(s), ss, "difat")
	}
	// header
	h := out[:512]
	for i := range h {
		h[i] = 0
	}
	copy(h, []byte{0xD0, 0xCF, 0x11, 0xE0, 0xA1, 0xB1, 0x1A, 0xE1})
	le.PutUint16(h[24:], 0x3E)
	le.PutUint16(h[26:], 3)
	if l.V4 {
		le.PutUint16(h[26:], 4)
		le.PutUint32(h[40:], uint32(len(gdir.secs)))
	}
	le.PutUint16(h[28:], 0xFFFE)
	le.PutUint16(h[30:], uint16(shift))
	le.PutUint16(h[32:], 6)
	le.PutUint32(h[44:], uint32(nfat))
	le.PutUint32(h[48:], first(gdir))
	le.PutUint32(h[56:], 4096)
	le.PutUint32(h[60:], first(gminifat))
	if gminifat != nil {
		le.PutUint32(h[64:], uint32(len(gminifat.secs)))
	}
	le.PutUint32(h[68:], cfbEnd)
	if ndifat > 0 {
		le.PutUint32(h[68:], uint32(difsec[0]))
	}
	le.PutUint32(h[72:], uint32(ndifat))
	for i := 0; i < 109; i++ {
		v := uint32(cfbFree)
		if i < nfat {
			v = uint32(fatsec[i])
		}
		le.PutUint32(h[76+4*i:], v)
	}
	mark(24, 60, "header")
	mark(76, 16, "difat0")
	where := func(p int) int {
		d := datas[main]
		if p < 0 || p >= len(d) {
			return -1
		}
		if g := gstreams[main]; g != nil {
			return off(g.secs[p/ss]) + p%ss
		}
		q := minis[main][p/64]*64 + p%64
		return off(gmini.secs[q/ss]) + q%ss
	}
	return b, where
}
