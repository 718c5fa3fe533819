From a2d5a666014550270ab5d85eac58e67f637718a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 01/61] fix: cfb.Open closes the file once it is loaded

---
 xls/cfb/interface.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xls/cfb/interface.go b/xls/cfb/interface.go
index ec5a6a9..487ec09 100644
--- a/xls/cfb/interface.go
+++ b/xls/cfb/interface.go
@@ -13,6 +13,8 @@ func Open(filename string) (*Document, error) {
 	if err != nil {
 		return nil, err
 	}
+	// the whole file is loaded into memory, so it's not needed afterwards
+	defer f.Close()
 	err = d.load(f)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 4aca3b4630ac9f6ea0d9722498f738ff02f640de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 02/61] fix: cfb checks the allocation tables against the file
 before using them

---
 xls/cfb/cfb.go | 119 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 80 insertions(+), 39 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index 2692ba4..f970573 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -20,6 +20,8 @@ import (
 
 const fullAssertions = true
 
+const cfbSignature uint64 = 0xe11ab1a1e011cfd0
+
 const (
 	secFree       uint32 = 0xFFFFFFFF // FREESECT
 	secEndOfChain uint32 = 0xFFFFFFFE // ENDOFCHAIN
@@ -102,6 +104,45 @@ type Document struct {
 	ministreamsize  uint32
 }
 
+// sector returns the content of a regular sector. It is only shorter
+// than a full sector when the file ends within it.
+func (d *Document) sector(sid uint32) ([]byte, error) {
+	offs := (1 + int64(sid)) << d.header.SectorShift
+	if offs >= int64(len(d.data)) {
+		return nil, errors.New("xls/cfb: sector is outside of the file")
+	}
+	end := offs + int64(1)<<d.header.SectorShift
+	if end > int64(len(d.data)) {
+		end = int64(len(d.data))
+	}
+	return d.data[offs:end], nil
+}
+
+// fullSector returns the content of a regular sector which MUST be complete.
+func (d *Document) fullSector(sid uint32) ([]byte, error) {
+	data, err := d.sector(sid)
+	if err != nil {
+		return nil, err
+	}
+	if len(data) != 1<<d.header.SectorShift {
+		return nil, errors.New("xls/cfb: incomplete sector")
+	}
+	return data, nil
+}
+
+// chain lists the sectors of the chain starting at sid.
+func (d *Document) chain(sid uint32) ([]uint32, error) {
+	var res []uint32
+	for sid != secEndOfChain && sid != secFree {
+		if int64(sid) >= int64(len(d.fat)) || len(res) > len(d.fat) {
+			return nil, errors.New("xls/cfb: invalid sector chain")
+		}
+		res = append(res, sid)
+		sid = d.fat[sid]
+	}
+	return res, nil
+}
+
 func (d *Document) load(rx io.ReadSeeker) error {
 	var err error
 	d.data, err = ioutil.ReadAll(rx)
@@ -110,10 +151,14 @@ func (d *Document) load(rx io.ReadSeeker) error {
 	}
 	br := bytes.NewReader(d.data)
 
+	if len(d.data) < 8 || binary.LittleEndian.Uint64(d.data) != cfbSignature {
+		return grate.ErrNotInFormat // errors.New("ole2: invalid format")
+	}
 	h := &header{}
 	err = binary.Read(br, binary.LittleEndian, h)
-	if h.Signature != 0xe11ab1a1e011cfd0 {
-		return grate.ErrNotInFormat // errors.New("ole2: invalid format")
+	if err != nil {
+		// it has the right signature, so it's a damaged file
+		return err
 	}
 	if h.ByteOrder != 0xFFFE {
 		return grate.ErrNotInFormat //errors.New("ole2: invalid format")
@@ -159,66 +204,65 @@ func (d *Document) load(rx io.ReadSeeker) error {
 
 	numFATentries := (1 << (h.SectorShift - 2))
 	le := binary.LittleEndian
-	d.fat = make([]uint32, 0, numFATentries*int(1+d.header.NumFATSectors))
-	d.minifat = make([]uint32, 0, numFATentries*int(1+h.NumMiniFATSectors))
 
 	// step 1: read the DIFAT sector list
+	fatSectors := make([]uint32, 0, 109)
 	for i := 0; i < 109; i++ {
 		sid := h.DIFAT[i]
 		if sid == secFree {
 			break
 		}
-		offs := int64(1+sid) << int32(h.SectorShift)
-		if offs >= int64(len(d.data)) {
-			return errors.New("xls/cfb: unable to load file")
-		}
-		sector := d.data[offs:]
-		for j := 0; j < numFATentries; j++ {
-			sid2 := le.Uint32(sector)
-			d.fat = append(d.fat, sid2)
-			sector = sector[4:]
-		}
+		fatSectors = append(fatSectors, sid)
 	}
 	if h.NumDIFATSectors > 0 {
 		sid1 := h.FirstDIFATSectorLocation
+		maxSectors := len(d.data) >> h.SectorShift
 
-		for sid1 != secEndOfChain {
-			offs := int64(1+sid1) << int32(h.SectorShift)
-			difatSector := d.data[offs:]
+		for n := 0; sid1 != secEndOfChain && sid1 != secFree; n++ {
+			if n > maxSectors {
+				return errors.New("xls/cfb: DIFAT chain does not end")
+			}
+			difatSector, err := d.fullSector(sid1)
+			if err != nil {
+				return err
+			}
 
 			for i := 0; i < numFATentries-1; i++ {
 				sid2 := le.Uint32(difatSector)
+				difatSector = difatSector[4:]
 				if sid2 == secFree || sid2 == secEndOfChain {
-					difatSector = difatSector[4:]
 					continue
 				}
-
-				offs := int64(1+sid2) << int32(h.SectorShift)
-				if offs >= int64(len(d.data)) {
-					return errors.New("xls/cfb: unable to load file")
-				}
-				sector := d.data[offs:]
-				for j := 0; j < numFATentries; j++ {
-					sid3 := le.Uint32(sector)
-					d.fat = append(d.fat, sid3)
-					sector = sector[4:]
-				}
-
-				difatSector = difatSector[4:]
+				fatSectors = append(fatSectors, sid2)
 			}
 			// chain the next DIFAT sector
 			sid1 = le.Uint32(difatSector)
 		}
 	}
+	if len(fatSectors) > 1+len(d.data)>>h.SectorShift {
+		return errors.New("xls/cfb: more FAT sectors than the file holds")
+	}
+	d.fat = make([]uint32, 0, numFATentries*len(fatSectors))
+	for _, sid := range fatSectors {
+		sector, err := d.fullSector(sid)
+		if err != nil {
+			return err
+		}
+		for j := 0; j < numFATentries; j++ {
+			d.fat = append(d.fat, le.Uint32(sector[4*j:]))
+		}
+	}
 
 	// step 2: read the mini FAT
 	sid := h.FirstMiniFATSectorLocation
-	for sid != secEndOfChain {
-		offs := int64(1+sid) << int32(h.SectorShift)
-		if offs >= int64(len(d.data)) {
-			return errors.New("xls/cfb: unable to load file")
+	for n := 0; sid != secEndOfChain && sid != secFree; n++ {
+		if n > len(d.data)>>h.SectorShift {
+			return errors.New("xls/cfb: mini FAT chain does not end")
+		}
+		sector, err := d.fullSector(sid)
+		if err != nil {
+			return err
 		}
-		sector := d.data[offs:]
 		for j := 0; j < numFATentries; j++ {
 			sid = le.Uint32(sector)
 			d.minifat = append(d.minifat, sid)
@@ -228,9 +272,6 @@ func (d *Document) load(rx io.ReadSeeker) error {
 		if len(d.minifat) >= int(h.NumMiniFATSectors) {
 			break
 		}
-
-		// chain the next mini FAT sector
-		sid = le.Uint32(sector)
 	}
 
 	// step 3: read the Directory Entries
-- 
2.43.0


From f9b141f75744805e23ae00582b4f60c625f49646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 03/61] fix: cfb reads the whole mini FAT

---
 xls/cfb/cfb.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index f970573..6b8aeac 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -254,23 +254,17 @@ func (d *Document) load(rx io.ReadSeeker) error {
 	}
 
 	// step 2: read the mini FAT
-	sid := h.FirstMiniFATSectorLocation
-	for n := 0; sid != secEndOfChain && sid != secFree; n++ {
-		if n > len(d.data)>>h.SectorShift {
-			return errors.New("xls/cfb: mini FAT chain does not end")
-		}
+	miniSectors, err := d.chain(h.FirstMiniFATSectorLocation)
+	if err != nil {
+		return err
+	}
+	for _, sid := range miniSectors {
 		sector, err := d.fullSector(sid)
 		if err != nil {
 			return err
 		}
 		for j := 0; j < numFATentries; j++ {
-			sid = le.Uint32(sector)
-			d.minifat = append(d.minifat, sid)
-			sector = sector[4:]
-		}
-
-		if len(d.minifat) >= int(h.NumMiniFATSectors) {
-			break
+			d.minifat = append(d.minifat, le.Uint32(sector[4*j:]))
 		}
 	}
 
-- 
2.43.0


From 3db4418cbc36f1b6a752feed1fd9aba56a23e2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 04/61] fix: cfb reads every directory entry instead of the
 first four

---
 xls/cfb/cfb.go | 87 +++++++++++++++++++++++++++++---------------------
 1 file changed, 51 insertions(+), 36 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index 6b8aeac..766127e 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -269,49 +269,64 @@ func (d *Document) load(rx io.ReadSeeker) error {
 	}
 
 	// step 3: read the Directory Entries
-	err = d.buildDirs(br)
-
-	return err
+	return d.buildDirs()
 }
 
-func (d *Document) buildDirs(br *bytes.Reader) error {
-	h := d.header
-	le := binary.LittleEndian
+const dirEntrySize = 128
 
-	// step 2: read the Directory
-	sid := h.FirstDirectorySectorLocation
-	offs := int64(1+sid) << int64(h.SectorShift)
-	br.Seek(offs, io.SeekStart)
-
-	for j := 0; j < 4; j++ {
-		dirent := &directory{}
-		binary.Read(br, le, dirent)
-		if d.header.MajorVersion == 3 {
-			// mask out upper 32bits
-			dirent.StreamSize = dirent.StreamSize & 0xFFFFFFFF
+func (d *Document) buildDirs() error {
+	// step 2: read the Directory, which is a chain of sectors
+	sectors, err := d.chain(d.header.FirstDirectorySectorLocation)
+	if err != nil {
+		return err
+	}
+	for _, sid := range sectors {
+		sector, err := d.fullSector(sid)
+		if err != nil {
+			return err
 		}
-
-		switch dirent.ObjectType {
-		case typeRootStorage:
-			d.ministreamstart = uint32(dirent.StartingSectorLocation)
-			d.ministreamsize = uint32(dirent.StreamSize)
-		case typeStorage:
-			//log.Println("got a storage? what to do now?")
-		case typeStream:
-			/*
-				var freader io.Reader
-				if dirent.StreamSize < uint64(d.header.MiniStreamCutoffSize) {
-					freader = d.getMiniStreamReader(uint32(dirent.StartingSectorLocation), dirent.StreamSize)
-				} else if dirent.StreamSize != 0 {
-					freader = d.getStreamReader(uint32(dirent.StartingSectorLocation), dirent.StreamSize)
-				}
-			*/
-		case typeUnknown:
-			return nil
+		for len(sector) >= dirEntrySize {
+			err = d.addDir(sector[:dirEntrySize])
+			if err != nil {
+				return err
+			}
+			sector = sector[dirEntrySize:]
 		}
-		d.dir = append(d.dir, dirent)
 	}
+	return nil
+}
 
+func (d *Document) addDir(data []byte) error {
+	dirent := &directory{}
+	err := binary.Read(bytes.NewReader(data), binary.LittleEndian, dirent)
+	if err != nil {
+		return err
+	}
+	if d.header.MajorVersion == 3 {
+		// mask out upper 32bits
+		dirent.StreamSize = dirent.StreamSize & 0xFFFFFFFF
+	}
+
+	switch dirent.ObjectType {
+	case typeRootStorage:
+		d.ministreamstart = uint32(dirent.StartingSectorLocation)
+		d.ministreamsize = uint32(dirent.StreamSize)
+	case typeStorage:
+		//log.Println("got a storage? what to do now?")
+	case typeStream:
+		/*
+			var freader io.Reader
+			if dirent.StreamSize < uint64(d.header.MiniStreamCutoffSize) {
+				freader = d.getMiniStreamReader(uint32(dirent.StartingSectorLocation), dirent.StreamSize)
+			} else if dirent.StreamSize != 0 {
+				freader = d.getStreamReader(uint32(dirent.StartingSectorLocation), dirent.StreamSize)
+			}
+		*/
+	case typeUnknown:
+		// unused entry
+		return nil
+	}
+	d.dir = append(d.dir, dirent)
 	return nil
 }
 
-- 
2.43.0


From 9434910dde89f81faef7ea95bd00426cc93716cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 05/61] fix: cfb checks stream chains against the file and
 reports incomplete streams

---
 xls/cfb/cfb.go | 93 +++++++++++++++++++++++++-------------------------
 1 file changed, 46 insertions(+), 47 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index 766127e..bff734a 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -79,7 +79,7 @@ type directory struct {
 }
 
 func (d *directory) String() string {
-	if (d.NameByteLen&1) == 1 || d.NameByteLen > 64 {
+	if (d.NameByteLen&1) == 1 || d.NameByteLen < 2 || d.NameByteLen > 64 {
 		return "<invalid utf16 string>"
 	}
 	r16 := utf16.Decode(d.Name[:int(d.NameByteLen)/2])
@@ -333,81 +333,80 @@ func (d *Document) addDir(data []byte) error {
 func (d *Document) getStreamReader(sid uint32, size uint64) (io.ReadSeeker, error) {
 	// NB streamData is a slice of slices of the raw data, so this is the
 	// only allocation - for the (much smaller) list of sector slices
-	streamData := make([][]byte, 1+(size>>d.header.SectorShift))
+	streamData, err := d.streamSlices(sid, size)
+	if err != nil {
+		return nil, err
+	}
+	return &SliceReader{Data: streamData}, nil
+}
 
-	x := 0
-	secSize := int64(1) << int32(d.header.SectorShift)
-	for sid != secEndOfChain && sid != secFree {
-		offs := int64(1+sid) << int64(d.header.SectorShift)
-		if offs > int64(len(d.data)) {
-			return nil, errors.New("ole2: corrupt data format")
+func (d *Document) streamSlices(sid uint32, size uint64) ([][]byte, error) {
+	if size > uint64(len(d.data)) {
+		return nil, errors.New("ole2: corrupt data format")
+	}
+	streamData := make([][]byte, 0, 1+(size>>d.header.SectorShift))
+	for size > 0 && sid != secEndOfChain && sid != secFree {
+		slice, err := d.sector(sid)
+		if err != nil {
+			return nil, err
 		}
-		slice := d.data[offs : offs+secSize]
+		short := len(slice) < 1<<d.header.SectorShift
 		if size < uint64(len(slice)) {
 			slice = slice[:size]
-			size = 0
-		} else {
-			size -= uint64(len(slice))
 		}
-		streamData[x] = slice
+		size -= uint64(len(slice))
+		streamData = append(streamData, slice)
 		if size == 0 {
 			break
 		}
+		if short || int64(sid) >= int64(len(d.fat)) {
+			return nil, errors.New("ole2: corrupt data format")
+		}
 		sid = d.fat[sid]
-		x++
 	}
 	if size != 0 {
 		return nil, errors.New("ole2: incomplete read")
 	}
-
-	return &SliceReader{Data: streamData}, nil
+	return streamData, nil
 }
 
 func (d *Document) getMiniStreamReader(sid uint32, size uint64) (io.ReadSeeker, error) {
 	// TODO: move into a separate cache so we don't recalculate it each time
-	fatStreamData := make([][]byte, 1+(d.ministreamsize>>d.header.SectorShift))
+	fatStreamData, err := d.streamSlices(d.ministreamstart, uint64(d.ministreamsize))
+	if err != nil {
+		return nil, err
+	}
 
 	// NB streamData is a slice of slices of the raw data, so this is the
 	// only allocation - for the (much smaller) list of sector slices
-	streamData := make([][]byte, 1+(size>>d.header.MiniSectorShift))
+	streamData := make([][]byte, 0, 1+(size>>d.header.MiniSectorShift))
 
-	x := 0
-	fsid := d.ministreamstart
-	fsize := uint64(d.ministreamsize)
 	secSize := int64(1) << int64(d.header.SectorShift)
-	for fsid != secEndOfChain && fsid != secFree {
-		offs := int64(1+fsid) << int64(d.header.SectorShift)
-		slice := d.data[offs : offs+secSize]
-		if fsize < uint64(len(slice)) {
-			slice = slice[:fsize]
-			fsize = 0
-		} else {
-			fsize -= uint64(len(slice))
-		}
-		fatStreamData[x] = slice
-		x++
-		fsid = d.fat[fsid]
-	}
-
-	x = 0
 	miniSecSize := int64(1) << int64(d.header.MiniSectorShift)
-	for sid != secEndOfChain && sid != secFree {
+	for size > 0 && sid != secEndOfChain && sid != secFree {
 		offs := int64(sid) << int64(d.header.MiniSectorShift)
+		want := miniSecSize
+		if size < uint64(want) {
+			want = int64(size)
+		}
 
 		so, si := offs/secSize, offs%secSize
-		data := fatStreamData[so]
-
-		slice := data[si : si+miniSecSize]
-		if size < uint64(len(slice)) {
-			slice = slice[:size]
-			size = 0
-		} else {
-			size -= uint64(len(slice))
+		if so >= int64(len(fatStreamData)) || si+want > int64(len(fatStreamData[so])) {
+			return nil, errors.New("ole2: corrupt data format")
+		}
+		streamData = append(streamData, fatStreamData[so][si:si+want])
+		size -= uint64(want)
+		if size == 0 {
+			break
+		}
+		if int64(sid) >= int64(len(d.minifat)) {
+			return nil, errors.New("ole2: corrupt data format")
 		}
-		streamData[x] = slice
-		x++
 		sid = d.minifat[sid]
 	}
+	if size != 0 {
+		return nil, errors.New("ole2: incomplete read")
+	}
 
 	return &SliceReader{Data: streamData}, nil
 }
-- 
2.43.0


From c9be6844ff8f6b9676e184b47aabaf6b5d0d03e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:36 +0000
Subject: [PATCH 06/61] fix: SliceReader handles every position in the stream
 and refuses all others

---
 xls/cfb/slicereader.go | 75 +++++++++++++++++-------------------------
 1 file changed, 30 insertions(+), 45 deletions(-)

diff --git a/xls/cfb/slicereader.go b/xls/cfb/slicereader.go
index e6e7aff..2b09bb8 100644
--- a/xls/cfb/slicereader.go
+++ b/xls/cfb/slicereader.go
@@ -3,6 +3,7 @@ package cfb
 import (
 	"errors"
 	"io"
+	"sort"
 )
 
 // SliceReader wraps a list of slices as a io.ReadSeeker that
@@ -16,17 +17,19 @@ type SliceReader struct {
 
 // Read implements the io.Reader interface.
 func (s *SliceReader) Read(b []byte) (int, error) {
-	if s.Index >= uint(len(s.Data)) {
-		return 0, io.EOF
+	if len(b) == 0 {
+		return 0, nil
 	}
-	n := copy(b, s.Data[s.Index][s.Offset:])
-	if n > 0 {
+	for s.Index < uint(len(s.Data)) {
+		n := copy(b, s.Data[s.Index][s.Offset:])
 		s.Offset += uint(n)
 		if s.Offset == uint(len(s.Data[s.Index])) {
 			s.Offset = 0
 			s.Index++
 		}
-		return n, nil
+		if n > 0 {
+			return n, nil
+		}
 	}
 
 	return 0, io.EOF
@@ -45,57 +48,39 @@ func (s *SliceReader) Seek(offset int64, whence int) (int64, error) {
 			sz += int64(len(d))
 		}
 	}
-	if s.Index >= uint(len(s.CSize)) {
-		s.Index = uint(len(s.CSize) - 1)
-		s.Offset = uint(len(s.Data[s.Index]))
+	// current offset and total size of the stream
+	size := int64(0)
+	if n := len(s.Data); n > 0 {
+		size = s.CSize[n-1] + int64(len(s.Data[n-1]))
 	}
-	// current offset in stream
-	trueOffset := int64(s.Offset) + s.CSize[int(s.Index)]
-	if offset == 0 && whence == io.SeekCurrent {
-		// just asking for current position
-		return trueOffset, nil
+	trueOffset := size
+	if s.Index < uint(len(s.Data)) {
+		trueOffset = s.CSize[s.Index] + int64(s.Offset)
 	}
 
 	switch whence {
 	case io.SeekStart:
-		if offset < 0 {
-			return -1, errors.New("xls: invalid seek offset")
-		}
-		s.Index = 0
-		s.Offset = 0
 		trueOffset = 0
-
+	case io.SeekCurrent:
+		// current position already defined
 	case io.SeekEnd:
-		if offset > 0 {
-			return -1, errors.New("xls: invalid seek offset")
-		}
-
-		s.Index = uint(len(s.Data) - 1)
-		s.Offset = uint(len(s.Data[s.Index]))
-		trueOffset = int64(s.Offset) + s.CSize[s.Index]
-
+		trueOffset = size
 	default:
-		// current position already defined
+		return -1, errors.New("xls: invalid seek whence")
 	}
 
-	wantOffset := offset + trueOffset
-	for trueOffset != wantOffset {
-		loOffset := s.CSize[int(s.Index)]
-		hiOffset := s.CSize[int(s.Index)] + int64(len(s.Data[s.Index]))
-		if wantOffset > loOffset && wantOffset < hiOffset {
-			s.Offset = uint(wantOffset - loOffset)
-			return wantOffset, nil
-		}
+	if offset < -trueOffset || offset > size-trueOffset {
+		return -1, errors.New("xls: invalid seek offset")
+	}
+	wantOffset := trueOffset + offset
 
-		if trueOffset > wantOffset {
-			s.Index--
-			s.Offset = 0
-			trueOffset = s.CSize[int(s.Index)]
-		} else if trueOffset < wantOffset {
-			s.Index++
-			s.Offset = 0
-			trueOffset = s.CSize[int(s.Index)]
-		}
+	// find the slice which contains the wanted offset
+	s.Index = uint(sort.Search(len(s.Data), func(i int) bool {
+		return s.CSize[i]+int64(len(s.Data[i])) > wantOffset
+	}))
+	s.Offset = 0
+	if s.Index < uint(len(s.Data)) {
+		s.Offset = uint(wantOffset - s.CSize[s.Index])
 	}
 	return wantOffset, nil
 }
-- 
2.43.0


From a122c5d3224e13d390c037543af70958b30312ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 07/61] fix: xls checks record lengths before decoding them

---
 xls/strings.go | 64 +++++++++++++++++++++-----------------------------
 xls/structs.go | 34 +++++++++++++++++++++++++++
 xls/xls.go     |  6 +++++
 3 files changed, 67 insertions(+), 37 deletions(-)

diff --git a/xls/strings.go b/xls/strings.go
index ae96981..074a45c 100644
--- a/xls/strings.go
+++ b/xls/strings.go
@@ -11,53 +11,43 @@ import (
 // 2.5.240
 func decodeShortXLUnicodeString(raw []byte) (string, int, error) {
 	// identical to decodeXLUnicodeString except for cch=8bits instead of 16
-	cch := int(raw[0])
-	flags := raw[1]
-	raw = raw[2:]
-
-	content := make([]uint16, cch)
-	if (flags & 0x1) == 0 {
-		// 16-bit characters but only the bottom 8bits
-		contentBytes := raw[:cch]
-		for i, x := range contentBytes {
-			content[i] = uint16(x)
-		}
-		cch += 2 // to return the offset
-	} else {
-		// 16-bit characters
-		for i := 0; i < cch; i++ {
-			content[i] = binary.LittleEndian.Uint16(raw[:2])
-			raw = raw[2:]
-		}
-		cch += cch + 2 // to return the offset
+	if len(raw) < 2 {
+		return "", 0, errTruncated
 	}
-	return string(utf16.Decode(content)), cch, nil
+	s, n, err := decodeXLChars(raw[2:], int(raw[0]), raw[1])
+	return s, n + 2, err
 }
 
 // 2.5.294
 func decodeXLUnicodeString(raw []byte) (string, int, error) {
 	// identical to decodeShortXLUnicodeString except for cch=16bits instead of 8
-	cch := int(binary.LittleEndian.Uint16(raw[:2]))
-	flags := raw[2]
-	raw = raw[3:]
+	if len(raw) < 3 {
+		return "", 0, errTruncated
+	}
+	s, n, err := decodeXLChars(raw[3:], int(binary.LittleEndian.Uint16(raw)), raw[2])
+	return s, n + 3, err
+}
 
+// decodes cch characters and returns the number of bytes they use.
+func decodeXLChars(raw []byte, cch int, flags byte) (string, int, error) {
+	n := cch
+	if (flags & 0x1) != 0 {
+		n *= 2
+	}
+	if len(raw) < n {
+		return "", 0, errTruncated
+	}
 	content := make([]uint16, cch)
-	if (flags & 0x1) == 0 {
-		// 16-bit characters but only the bottom 8bits
-		contentBytes := raw[:cch]
-		for i, x := range contentBytes {
-			content[i] = uint16(x)
-		}
-		cch += 3 // to return the offset
-	} else {
-		// 16-bit characters
-		for i := 0; i < cch; i++ {
-			content[i] = binary.LittleEndian.Uint16(raw[:2])
-			raw = raw[2:]
+	for i := range content {
+		if (flags & 0x1) == 0 {
+			// 16-bit characters but only the bottom 8bits
+			content[i] = uint16(raw[i])
+		} else {
+			// 16-bit characters
+			content[i] = binary.LittleEndian.Uint16(raw[2*i:])
 		}
-		cch += cch + 3 // to return the offset
 	}
-	return string(utf16.Decode(content)), cch, nil
+	return string(utf16.Decode(content)), n, nil
 }
 
 // 2.5.293
diff --git a/xls/structs.go b/xls/structs.go
index c8d49a7..a04848d 100644
--- a/xls/structs.go
+++ b/xls/structs.go
@@ -1,6 +1,7 @@
 package xls
 
 import (
+	"errors"
 	"fmt"
 	"math"
 )
@@ -20,6 +21,39 @@ type rec struct {
 	Data    []byte     // len(rec.data) = rec.recsize
 }
 
+// minimum data length of each record type that gets parsed
+var minRecordSize = map[recordType]int{
+	RecTypeBOF:         16,
+	RecTypeFilePass:    2,
+	RecTypeCodePage:    2,
+	RecTypeDate1904:    2,
+	RecTypeFormat:      5,
+	RecTypeXF:          4,
+	RecTypeBoundSheet8: 8,
+	RecTypeSST:         8,
+
+	RecTypeWsBool:     2,
+	RecTypeDimensions: 12,
+	RecTypeBoolErr:    8,
+	RecTypeMulRk:      6,
+	RecTypeNumber:     14,
+	RecTypeRK:         10,
+	RecTypeFormula:    14,
+	RecTypeString:     3,
+	RecTypeLabelSst:   10,
+	RecTypeHLink:      8,
+	RecTypeMergeCells: 2,
+}
+
+var errTruncated = errors.New("xls: record data is truncated")
+
+func checkRecord(r *rec) error {
+	if len(r.Data) < minRecordSize[r.RecType] {
+		return errTruncated
+	}
+	return nil
+}
+
 type boundSheet struct {
 	Position    uint32 // A FilePointer as specified in [MS-OSHARED] section 2.2.1.5 that specifies the stream position of the start of the BOF record for the sheet.
 	HiddenState byte   // (2 bits) An unsigned integer that specifies the hidden state of the sheet. MUST be a value from the following table:
diff --git a/xls/xls.go b/xls/xls.go
index 15ff55c..160dbd7 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -205,6 +205,12 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 			nestedBOF++
 		}
 		b.fpos += int64(4 + len(nr.Data))
+		if substr < 0 {
+			return errors.New("xls: record outside of any substream")
+		}
+		if err = checkRecord(nr); err != nil {
+			return err
+		}
 
 		// if there's a FilePass record, the data is encrypted
 		if nr.RecType == RecTypeFilePass && !isDecrypted {
-- 
2.43.0


From bad6ac8df8a1eb43491c2440d7d80cafc91ed691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 08/61] fix: xls shared strings are checked against their
 records

---
 xls/strings.go | 94 ++++++++++++++++++++++++++------------------------
 1 file changed, 48 insertions(+), 46 deletions(-)

diff --git a/xls/strings.go b/xls/strings.go
index 074a45c..88d884b 100644
--- a/xls/strings.go
+++ b/xls/strings.go
@@ -130,45 +130,62 @@ func parseSST(recs []*rec) ([]string, error) {
 	// from an 8-bit encoding to 16-bit or vice versa.
 
 	//totalRefs := binary.LittleEndian.Uint32(recs[0].Data[0:4])
-	numStrings := binary.LittleEndian.Uint32(recs[0].Data[4:8])
+	numStrings := int64(binary.LittleEndian.Uint32(recs[0].Data[4:8]))
+	total := int64(0)
+	for _, r := range recs {
+		total += int64(len(r.Data))
+	}
+	if numStrings > total/3 {
+		// each string needs at least 3 bytes
+		numStrings = total / 3
+	}
 
 	all := make([]string, 0, numStrings)
 	current := make([]uint16, 32*1024)
 
 	buf := recs[0].Data[8:]
 	for i := 0; i < len(recs); {
-		var cRunBytes int
-		var flags byte
-		var cbExtRs uint32
+		// skip n bytes, which may extend across records
+		skip := func(n int64) error {
+			for n > int64(len(buf)) {
+				n -= int64(len(buf))
+				i++
+				if i >= len(recs) {
+					return errTruncated
+				}
+				buf = recs[i].Data
+			}
+			buf = buf[n:]
+			return nil
+		}
 
 		for len(buf) > 0 {
+			var cRunBytes, cbExtRs int64
+
+			if len(buf) < 3 {
+				return nil, errTruncated
+			}
 			slen := binary.LittleEndian.Uint16(buf)
-			buf = buf[2:]
-			flags = buf[0]
-			buf = buf[1:]
+			flags := buf[2]
+			buf = buf[3:]
 
 			if (flags & 0x8) != 0 {
 				// rich formating data is present
-				cRun := binary.LittleEndian.Uint16(buf)
-				cRunBytes = int(cRun) * 4
+				if len(buf) < 2 {
+					return nil, errTruncated
+				}
+				cRunBytes = int64(binary.LittleEndian.Uint16(buf)) * 4
 				buf = buf[2:]
 			}
 			if (flags & 0x4) != 0 {
 				// phonetic string data is present
-				cbExtRs = binary.LittleEndian.Uint32(buf)
+				if len(buf) < 4 {
+					return nil, errTruncated
+				}
+				cbExtRs = int64(binary.LittleEndian.Uint32(buf))
 				buf = buf[4:]
 			}
 
-			///////
-			blx := len(buf)
-			bly := len(buf) - 5
-			if blx > 5 {
-				blx = 5
-			}
-			if bly < 0 {
-				bly = 0
-			}
-
 			// this block will read the string data, but transparently
 			// handle continuing across records
 			if int(slen) > cap(current) {
@@ -179,6 +196,9 @@ func parseSST(recs []*rec) ([]string, error) {
 			for j := 0; j < int(slen); j++ {
 				if len(buf) == 0 {
 					i++
+					if i >= len(recs) || len(recs[i].Data) == 0 {
+						return nil, errTruncated
+					}
 					if (recs[i].Data[0] & 1) == 0 {
 						flags &= 0xFE
 					} else {
@@ -188,42 +208,25 @@ func parseSST(recs []*rec) ([]string, error) {
 				}
 
 				if (flags & 1) == 0 { //8-bit
+					if len(buf) < 1 {
+						return nil, errTruncated
+					}
 					current[j] = uint16(buf[0])
 					buf = buf[1:]
 				} else { //16-bit
-					current[j] = uint16(binary.LittleEndian.Uint16(buf[:2]))
-					buf = buf[2:]
-					if len(buf) == 1 {
+					if len(buf) < 2 {
 						return nil, errors.New("xls: off by one")
 					}
+					current[j] = uint16(binary.LittleEndian.Uint16(buf[:2]))
+					buf = buf[2:]
 				}
 			}
 
 			s := string(utf16.Decode(current))
 			all = append(all, s)
 
-			///////
-
-			for cRunBytes > 0 {
-				if len(buf) >= int(cRunBytes) {
-					buf = buf[cRunBytes:]
-					cRunBytes = 0
-				} else {
-					cRunBytes -= len(buf)
-					i++
-					buf = recs[i].Data
-				}
-			}
-
-			for cbExtRs > 0 {
-				if len(buf) >= int(cbExtRs) {
-					buf = buf[cbExtRs:]
-					cbExtRs = 0
-				} else {
-					cbExtRs -= uint32(len(buf))
-					i++
-					buf = recs[i].Data
-				}
+			if err := skip(cRunBytes + cbExtRs); err != nil {
+				return nil, err
 			}
 		}
 		i++
@@ -231,6 +234,5 @@ func parseSST(recs []*rec) ([]string, error) {
 			buf = recs[i].Data
 		}
 	}
-
 	return all, nil
 }
-- 
2.43.0


From 3b5be43477fd087be40c9fd458e279214989d115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 09/61] fix: xls decryption checks record lengths

---
 xls/xls.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xls/xls.go b/xls/xls.go
index 160dbd7..25252c7 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -96,7 +96,7 @@ func (b *WorkBook) loadFromStreamWithDecryptor(raw []byte, dec crypto.Decryptor)
 	}
 
 	pos := 0
-	zeros := [8224]byte{}
+	zeros := [0x10000]byte{}
 
 	type overlay struct {
 		Pos int
@@ -114,6 +114,9 @@ func (b *WorkBook) loadFromStreamWithDecryptor(raw []byte, dec crypto.Decryptor)
 		o.RecType = recordType(binary.LittleEndian.Uint16(raw[pos : pos+2]))
 		o.DataBytes = binary.LittleEndian.Uint16(raw[pos+2 : pos+4])
 		pos += 4
+		if len(raw[pos:]) < int(o.DataBytes) {
+			return io.ErrUnexpectedEOF
+		}
 
 		// copy to output and decryption stream
 		binary.Write(dec, binary.LittleEndian, o.RecType)
@@ -130,6 +133,9 @@ func (b *WorkBook) loadFromStreamWithDecryptor(raw []byte, dec crypto.Decryptor)
 
 		case RecTypeBoundSheet8:
 			// copy 32-bit position to output
+			if o.DataBytes < 4 {
+				return errTruncated
+			}
 			o.Data = raw[pos : pos+4]
 			pos += 4
 			dec.Write(zeros[:4])
-- 
2.43.0


From e70428f2305ea8bb3ee31c6778206203ddd58eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 10/61] fix: xls Get fails for missing content and after Close

---
 xls/sheets.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index 7f30402..6bb5dda 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -37,7 +37,13 @@ func (b *WorkBook) ListHidden() ([]string, error) {
 func (b *WorkBook) Get(sheetName string) (grate.Collection, error) {
 	for _, s := range b.sheets {
 		if s.Name == sheetName {
-			ss := b.pos2substream[int64(s.Position)]
+			ss, ok := b.pos2substream[int64(s.Position)]
+			if !ok {
+				return nil, errors.New("xls: sheet content not found")
+			}
+			if ss >= len(b.substreams) {
+				return nil, errors.New("xls: workbook is closed")
+			}
 			return b.parseSheet(s, ss)
 		}
 	}
-- 
2.43.0


From 37863eb3b671c621211c7c52305c70bd74c9e9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:55 +0000
Subject: [PATCH 11/61] fix: xls dialog sheets are empty tables, and other
 sheets are not dialogs

---
 xls/sheets.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index 6bb5dda..2c5896f 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -78,9 +78,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				continue
 			}
 		case RecTypeWsBool:
-			if (r.Data[1] & 0x10) != 0 {
+			if (r.Data[0] & 0x10) != 0 {
 				// it's a dialog
-				return nil, nil
+				return &commonxl.Sheet{Formatter: &b.nfmt}, nil
 			}
 
 		case RecTypeDimensions:
-- 
2.43.0


From 602607d137138e6bb6375871573fa4e931fbf94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 12/61] fix: xls formula strings may continue in the middle and
 are checked against their records

---
 xls/sheets.go | 62 +++++++++++++++++++++------------------------------
 1 file changed, 25 insertions(+), 37 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index 2c5896f..6f01c1a 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -266,47 +266,35 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			// at each gap indicates if the encoding switches
 			// to/from 8/16-bit characters.
 
-			charCount := binary.LittleEndian.Uint16(r.Data[:2])
-			flags := r.Data[2]
-			fstr := ""
-			if (flags & 1) == 0 {
-				fstr = string(r.Data[3:])
-			} else {
-				raw := r.Data[3:]
-				if int(charCount) > cap(us) {
-					us = make([]uint16, charCount)
-				}
-				us = us[:charCount]
-				for i := 0; i < int(charCount); i++ {
-					us[i] = binary.LittleEndian.Uint16(raw)
-					raw = raw[2:]
-				}
-				fstr = string(utf16.Decode(us))
-			}
-
-			if (ridx + 1) < len(b.substreams[ss]) {
-				ridx2 := ridx + 1
-				nrecs := len(b.substreams[ss])
-				for ridx2 < nrecs {
-					r2 := b.substreams[ss][ridx2]
-					if r2.RecType != RecTypeContinue {
-						break
+			charCount := int(binary.LittleEndian.Uint16(r.Data[:2]))
+			us = us[:0]
+			flags, raw := r.Data[2], r.Data[3:]
+			for ridx2 := ridx + 1; ; ridx2++ {
+				for len(us) < charCount && len(raw) > 0 {
+					if (flags & 1) == 0 {
+						us = append(us, uint16(raw[0]))
+						raw = raw[1:]
+						continue
 					}
-					if (r2.Data[0] & 1) == 0 {
-						fstr += string(r2.Data[1:])
-					} else {
-						raw := r2.Data[1:]
-						slen := len(raw) / 2
-						us = us[:slen]
-						for i := 0; i < slen; i++ {
-							us[i] = binary.LittleEndian.Uint16(raw)
-							raw = raw[2:]
-						}
-						fstr += string(utf16.Decode(us))
+					if len(raw) < 2 {
+						return nil, errTruncated
 					}
-					ridx2++
+					us = append(us, binary.LittleEndian.Uint16(raw))
+					raw = raw[2:]
+				}
+				if len(us) == charCount {
+					break
+				}
+				if ridx2 >= len(b.substreams[ss]) || b.substreams[ss][ridx2].RecType != RecTypeContinue {
+					return nil, errTruncated
+				}
+				r2 := b.substreams[ss][ridx2]
+				if len(r2.Data) == 0 {
+					return nil, errTruncated
 				}
+				flags, raw = r2.Data[0], r2.Data[1:]
 			}
+			fstr := string(utf16.Decode(us))
 			res.Set(int(formulaRow), int(formulaCol), fstr)
 			//log.Printf("String direct: %d %d '%s'", int(formulaRow), int(formulaCol), fstr)
 
-- 
2.43.0


From 6f3374f8036305507ab367b7ebcafd165181c17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 13/61] fix: xls sheet records are checked against their data,
 the strings and the sheet

---
 xls/sheets.go | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index 6f01c1a..546f8c1 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -56,6 +56,7 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 	}
 	var minRow, maxRow uint32
 	var minCol, maxCol uint16
+	hasFormula := false
 
 	// temporary string buffer
 	us := make([]uint16, 8224)
@@ -94,10 +95,10 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 					minCol, minRow, maxCol, maxRow)
 			}
 			if minRow > 0x0000FFFF || maxRow > 0x00010000 {
-				log.Println("invalid dimensions")
+				return nil, errors.New("xls: invalid dimensions")
 			}
 			if minCol > 0x00FF || maxCol > 0x0100 {
-				log.Println("invalid dimensions")
+				return nil, errors.New("xls: invalid dimensions")
 			}
 
 			// pre-allocate cells
@@ -163,7 +164,7 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 
 		case RecTypeMulRk:
 			// MulRk encodes multiple RK values in a row
-			nrk := int((r.RecSize - 6) / 6)
+			nrk := (len(r.Data) - 6) / 6
 			rowIndex := int(binary.LittleEndian.Uint16(r.Data[:2]))
 			colIndex := int(binary.LittleEndian.Uint16(r.Data[2:4]))
 			for i := 0; i < nrk; i++ {
@@ -219,6 +220,7 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			//log.Printf("RK spec: %d %d = %+v", rowIndex, colIndex, rval)
 
 		case RecTypeFormula:
+			hasFormula = true
 			formulaRow = binary.LittleEndian.Uint16(r.Data[:2])
 			formulaCol = binary.LittleEndian.Uint16(r.Data[2:4])
 			ixfe := int(binary.LittleEndian.Uint16(r.Data[4:6]))
@@ -266,6 +268,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			// at each gap indicates if the encoding switches
 			// to/from 8/16-bit characters.
 
+			if !hasFormula {
+				return nil, errors.New("xls: string without a formula")
+			}
 			charCount := int(binary.LittleEndian.Uint16(r.Data[:2]))
 			us = us[:0]
 			flags, raw := r.Data[2], r.Data[3:]
@@ -303,7 +308,7 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			colIndex := int(binary.LittleEndian.Uint16(r.Data[2:4]))
 			ixfe := int(binary.LittleEndian.Uint16(r.Data[4:6]))
 			sstIndex := int(binary.LittleEndian.Uint32(r.Data[6:]))
-			if sstIndex > len(b.strings) {
+			if sstIndex >= len(b.strings) {
 				return nil, errors.New("xls: invalid sst index")
 			}
 			var fno uint16
@@ -335,6 +340,17 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				lastCol = uint16(maxCol) - 1
 			}
 
+			// only mark cells within the sheet
+			if int(firstRow) >= res.NumRows || int(firstCol) >= res.NumCols {
+				continue
+			}
+			if int(lastRow) >= res.NumRows {
+				lastRow = uint16(res.NumRows - 1)
+			}
+			if int(lastCol) >= res.NumCols {
+				lastCol = uint16(res.NumCols - 1)
+			}
+
 			// decode the hyperlink datastructure and try to find the
 			// display text and separate the URL itself.
 			displayText, linkText, err := decodeHyperlinks(r.Data[8:])
@@ -379,6 +395,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 
 			cmcs := binary.LittleEndian.Uint16(r.Data[:2])
 			raw := r.Data[2:]
+			if len(raw) < 8*int(cmcs) {
+				return nil, errTruncated
+			}
 			for i := 0; i < int(cmcs); i++ {
 				firstRow := binary.LittleEndian.Uint16(raw[:2])
 				lastRow := binary.LittleEndian.Uint16(raw[2:4])
@@ -392,6 +411,16 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				if lastCol == 0xFF { // placeholder value indicate "last"
 					lastCol = uint16(maxCol) - 1
 				}
+				// only mark cells within the sheet
+				if int(firstRow) >= res.NumRows || int(firstCol) >= res.NumCols {
+					continue
+				}
+				if int(lastRow) >= res.NumRows {
+					lastRow = uint16(res.NumRows - 1)
+				}
+				if int(lastCol) >= res.NumCols {
+					lastCol = uint16(res.NumCols - 1)
+				}
 				for rn := int(firstRow); rn <= int(lastRow); rn++ {
 					for cn := int(firstCol); cn <= int(lastCol); cn++ {
 						if rn == int(firstRow) && cn == int(firstCol) {
-- 
2.43.0


From da7767a2f629b483b1bb80d30ad457ad2d7831fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 14/61] fix: xls hyperlinks are checked against their record

---
 xls/hyperlinks.go | 78 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 54 insertions(+), 24 deletions(-)

diff --git a/xls/hyperlinks.go b/xls/hyperlinks.go
index 894bd45..33a7b04 100644
--- a/xls/hyperlinks.go
+++ b/xls/hyperlinks.go
@@ -9,6 +9,9 @@ import (
 )
 
 func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
+	if len(raw) < 24 {
+		return "", "", errTruncated
+	}
 	raw = raw[16:] // skip classid
 	slen := binary.LittleEndian.Uint32(raw[:4])
 	if slen != 2 {
@@ -18,54 +21,44 @@ func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
 	flags := binary.LittleEndian.Uint32(raw[4:8])
 	raw = raw[8:]
 	if (flags & hlstmfHasDisplayName) != 0 {
-		slen = binary.LittleEndian.Uint32(raw[:4])
-		raw = raw[4:]
-		us := make([]uint16, slen)
-		for i := 0; i < int(slen); i++ {
-			us[i] = binary.LittleEndian.Uint16(raw)
-			raw = raw[2:]
+		displayText, raw, err = decodeHyperlinkString(raw)
+		if err != nil {
+			return "", "", err
 		}
-		displayText = string(utf16.Decode(us))
 	}
 
 	if (flags & hlstmfHasFrameName) != 0 {
 		// skip a HyperlinkString containing target Frame
-		slen = binary.LittleEndian.Uint32(raw[:4])
-		raw = raw[4+(slen*2):]
+		_, raw, err = decodeHyperlinkString(raw)
+		if err != nil {
+			return "", "", err
+		}
 	}
 
 	if (flags & hlstmfHasMoniker) != 0 {
 		if (flags & hlstmfMonikerSavedAsStr) != 0 {
 			// read HyperlinkString containing the URL
-			slen = binary.LittleEndian.Uint32(raw[:4])
-			raw = raw[4:]
-			us := make([]uint16, slen)
-			for i := 0; i < int(slen); i++ {
-				us[i] = binary.LittleEndian.Uint16(raw)
-				raw = raw[2:]
+			linkText, raw, err = decodeHyperlinkString(raw)
+			if err != nil {
+				return "", "", err
 			}
-			linkText = string(utf16.Decode(us))
 
 		} else {
 			n := 0
 			var err error
 			linkText, n, err = parseHyperlinkMoniker(raw)
-			raw = raw[n:]
 			if err != nil {
 				return "", "", err
 			}
+			raw = raw[n:]
 		}
 	}
 
 	if (flags & hlstmfHasLocationStr) != 0 {
-		slen = binary.LittleEndian.Uint32(raw[:4])
-		raw = raw[4:]
-		us := make([]uint16, slen)
-		for i := 0; i < int(slen); i++ {
-			us[i] = binary.LittleEndian.Uint16(raw)
-			raw = raw[2:]
+		linkText, _, err = decodeHyperlinkString(raw)
+		if err != nil {
+			return "", "", err
 		}
-		linkText = string(utf16.Decode(us))
 	}
 
 	linkText = strings.Trim(linkText, " \v\f\t\r\n\x00")
@@ -73,7 +66,29 @@ func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
 	return
 }
 
+// decode a HyperlinkString and return the rest of the data.
+func decodeHyperlinkString(raw []byte) (string, []byte, error) {
+	if len(raw) < 4 {
+		return "", nil, errTruncated
+	}
+	slen := int64(binary.LittleEndian.Uint32(raw[:4]))
+	raw = raw[4:]
+	if int64(len(raw)) < slen*2 {
+		return "", nil, errTruncated
+	}
+	us := make([]uint16, slen)
+	for i := range us {
+		us[i] = binary.LittleEndian.Uint16(raw)
+		raw = raw[2:]
+	}
+	return string(utf16.Decode(us)), raw, nil
+}
+
+// returns the link text and the number of bytes used.
 func parseHyperlinkMoniker(raw []byte) (string, int, error) {
+	if len(raw) < 16 {
+		return "", 0, errTruncated
+	}
 	classid := raw[:16]
 	no := 16
 
@@ -90,8 +105,14 @@ func parseHyperlinkMoniker(raw []byte) (string, int, error) {
 		}
 	}
 	if isURLMoniker {
+		if len(raw) < no+4 {
+			return "", 0, errTruncated
+		}
 		length := binary.LittleEndian.Uint32(raw[no:])
 		no += 4
+		if int64(len(raw[no:])) < int64(length) {
+			return "", 0, errTruncated
+		}
 		length /= 2
 		buf := make([]uint16, length)
 		for i := 0; i < int(length); i++ {
@@ -105,8 +126,14 @@ func parseHyperlinkMoniker(raw []byte) (string, int, error) {
 	}
 	if isFileMoniker {
 		//x := binary.LittleEndian.Uint16(raw[no:])        //cAnti
+		if len(raw) < no+6 {
+			return "", 0, errTruncated
+		}
 		length := binary.LittleEndian.Uint32(raw[no+2:]) //ansiLength
 		no += 6
+		if int64(len(raw[no:])) < int64(length)+24+4 {
+			return "", 0, errTruncated
+		}
 		buf := raw[no : no+int(length)]
 
 		// skip 24 more bytes for misc fixed properties
@@ -115,6 +142,9 @@ func parseHyperlinkMoniker(raw []byte) (string, int, error) {
 		length = binary.LittleEndian.Uint32(raw[no:]) // cbUnicodePathSize
 		no += 4
 		if length > 0 {
+			if length < 6 || int64(len(raw[no:])) < int64(length) {
+				return "", 0, errTruncated
+			}
 			no += 6
 			length -= 6
 			buf2 := make([]uint16, length/2)
-- 
2.43.0


From fdf7aa2ef84852d1c048ede929761fef1242e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 15/61] fix: formatting handles unknown number formats and
 empty text

---
 commonxl/fmt.go     | 4 ++--
 commonxl/formats.go | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index f99e01b..359e17c 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -24,7 +24,7 @@ func surround(pre string, ff FmtFunc, post string) FmtFunc {
 func addNegParens(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		s1 := ff(x, v)
-		if s1[0] == '-' {
+		if strings.HasPrefix(s1, "-") {
 			return "(" + s1[1:] + ")"
 		}
 		return s1
@@ -35,7 +35,7 @@ func addCommas(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		s1 := ff(x, v)
 		isNeg := false
-		if s1[0] == '-' {
+		if strings.HasPrefix(s1, "-") {
 			isNeg = true
 			s1 = s1[1:]
 		}
diff --git a/commonxl/formats.go b/commonxl/formats.go
index 49b58a9..87ce3f3 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -219,6 +219,7 @@ func (x *Formatter) Apply(fmtID uint16, val interface{}) (string, bool) {
 		if ok2 {
 			return fs(x, val), true
 		}
+		ff = identFunc
 	}
 	return ff(x, val), ok
 }
-- 
2.43.0


From 11f9a7cfc504bd9a232288a391be4883f3f29e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 16/61] fix: sheets allocate cells on use and accept every
 location within their size

---
 commonxl/cell.go  |  3 ++
 commonxl/sheet.go | 73 +++++++++++++++++++++++++++++++----------------
 2 files changed, 51 insertions(+), 25 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 9b1c5b2..7f3b825 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -64,6 +64,9 @@ func (c Cell) Value() interface{} {
 
 // SetURL adds a URL hyperlink to the cell.
 func (c *Cell) SetURL(link string) {
+	if len(*c) < 2 {
+		*c = make(Cell, 2)
+	}
 	(*c)[1] = HyperlinkStringCell
 	if len(*c) == 2 {
 		*c = append(*c, uint16(0), link)
diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index a165334..eecf55b 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -21,17 +21,6 @@ type Sheet struct {
 // Resize the sheet for the number of rows and cols given.
 // Newly added cells default to blank.
 func (s *Sheet) Resize(rows, cols int) {
-	for i := range s.Rows {
-		if i > rows {
-			break
-		}
-		n := cols - len(s.Rows[i])
-		if n <= 0 {
-			continue
-		}
-		s.Rows[i] = append(s.Rows[i], make([]Cell, n)...)
-	}
-
 	if rows <= 0 {
 		rows = 1
 	}
@@ -39,12 +28,26 @@ func (s *Sheet) Resize(rows, cols int) {
 		cols = 1
 	}
 	s.CurRow = 0
-	s.NumRows = rows
-	s.NumCols = cols
+	if rows > s.NumRows {
+		s.NumRows = rows
+	}
+	if cols > s.NumCols {
+		s.NumCols = cols
+	}
+
+	// NB the cells of each row are only allocated when they're used, since
+	// the size given is often far larger than the contents (or corrupt).
+	if n := rows + 1 - len(s.Rows); n > 0 {
+		s.Rows = append(s.Rows, make([][]Cell, n)...)
+	}
+}
 
-	for rows >= len(s.Rows) {
-		s.Rows = append(s.Rows, make([]Cell, cols))
+// cell returns the cell at the location given, which MUST be within the sheet.
+func (s *Sheet) cell(row, col int) *Cell {
+	if n := col + 1 - len(s.Rows[row]); n > 0 {
+		s.Rows[row] = append(s.Rows[row], make([]Cell, n)...)
 	}
+	return &s.Rows[row][col]
 }
 
 // Put the value at the cell location given.
@@ -69,41 +72,46 @@ func (s *Sheet) Put(row, col int, value interface{}, fmtNum uint16) {
 
 	if spec, ok := value.(string); ok {
 		if spec == grate.EndRowMerged || spec == grate.EndColumnMerged || spec == grate.ContinueRowMerged || spec == grate.ContinueColumnMerged {
-			s.Rows[row][col] = NewCell(value)
+			*s.cell(row, col) = NewCell(value)
 			s.Rows[row][col][1] = StaticCell
 			return
 		}
 	}
 
+	cell := s.cell(row, col)
 	ct, ok := s.Formatter.getCellType(fmtNum)
 	if !ok || fmtNum == 0 {
-		s.Rows[row][col] = NewCell(value)
+		*cell = NewCell(value)
 	} else {
-		s.Rows[row][col] = NewCellWithType(value, ct, s.Formatter)
+		*cell = NewCellWithType(value, ct, s.Formatter)
 	}
-	s.Rows[row][col].SetFormatNumber(fmtNum)
+	cell.SetFormatNumber(fmtNum)
 }
 
 // Set changes the value in an existing cell location.
 // NB Currently only used for populating string results for formulas.
 func (s *Sheet) Set(row, col int, value interface{}) {
-	if row > s.NumRows || col > s.NumCols {
+	if row < 0 || col < 0 || row >= s.NumRows || col >= s.NumCols {
 		log.Println("grate: cell out of bounds")
 		return
 	}
 
-	s.Rows[row][col][0] = value
-	s.Rows[row][col][1] = StringCell
+	cell := s.cell(row, col)
+	if len(*cell) < 2 {
+		*cell = make(Cell, 2)
+	}
+	(*cell)[0] = value
+	(*cell)[1] = StringCell
 }
 
 // SetURL adds a hyperlink to an existing cell location.
 func (s *Sheet) SetURL(row, col int, link string) {
-	if row > s.NumRows || col > s.NumCols {
+	if row < 0 || col < 0 || row >= s.NumRows || col >= s.NumCols {
 		log.Println("grate: cell out of bounds")
 		return
 	}
 
-	s.Rows[row][col].SetURL(link)
+	s.cell(row, col).SetURL(link)
 }
 
 // Next advances to the next record of content.
@@ -119,6 +127,9 @@ func (s *Sheet) Next() bool {
 // Raw extracts the raw Cell interfaces underlying the current row.
 func (s *Sheet) Raw() []Cell {
 	rr := make([]Cell, s.NumCols)
+	for i := range rr {
+		rr[i] = Cell{}
+	}
 	for i, cell := range s.Rows[s.CurRow-1] {
 		rr[i] = cell.Clone()
 	}
@@ -152,6 +163,9 @@ func (s *Sheet) Strings() []string {
 // and special cases: "blank", "hyperlink" which are string types
 func (s *Sheet) Types() []string {
 	res := make([]string, s.NumCols)
+	for i := range res {
+		res[i] = BlankCell.String()
+	}
 	for i, cell := range s.Rows[s.CurRow-1] {
 		res[i] = cell.Type().String()
 	}
@@ -162,6 +176,9 @@ func (s *Sheet) Types() []string {
 func (s *Sheet) Formats() []string {
 	ok := true
 	res := make([]string, s.NumCols)
+	for i := range res {
+		res[i] = builtInFormats[0]
+	}
 	for i, cell := range s.Rows[s.CurRow-1] {
 		res[i], ok = builtInFormats[cell.FormatNo()]
 		if !ok {
@@ -179,7 +196,13 @@ func (s *Sheet) Scan(args ...interface{}) error {
 	row := s.Rows[s.CurRow-1]
 
 	for i, a := range args {
-		val := row[i].Value()
+		if i >= s.NumCols {
+			return fmt.Errorf("scan destination %d is beyond the last column", i)
+		}
+		var val interface{} = ""
+		if i < len(row) {
+			val = row[i].Value()
+		}
 
 		switch v := a.(type) {
 		case bool, int64, float64, string, time.Time:
-- 
2.43.0


From 3966d200dc2fdbcf1146e1120109896e03234ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 17/61] fix: xlsx.Open closes the file when it fails

---
 xlsx/xlsx.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 3d5eaad..2d282fa 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -46,6 +46,15 @@ func Open(filename string) (grate.Source, error) {
 	if err != nil {
 		return nil, err
 	}
+	d, err := open(filename, f)
+	if err != nil {
+		f.Close()
+		return nil, err
+	}
+	return d, nil
+}
+
+func open(filename string, f *os.File) (*Document, error) {
 	info, err := f.Stat()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From bee1fb97cb2709ba316a52257502886bd8b1c59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 18/61] fix: xlsx.Open only declines files which are not in the
 format

---
 xlsx/xlsx.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 2d282fa..c4b878c 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -60,9 +60,12 @@ func open(filename string, f *os.File) (*Document, error) {
 		return nil, err
 	}
 	z, err := zip.NewReader(f, info.Size())
-	if err != nil {
+	if err == zip.ErrFormat && !hasZipSignature(f) {
 		return nil, grate.WrapErr(err, grate.ErrNotInFormat)
 	}
+	if err != nil {
+		return nil, err
+	}
 	d := &Document{
 		filename: filename,
 		f:        f,
@@ -73,13 +76,17 @@ func open(filename string, f *os.File) (*Document, error) {
 
 	// parse the primary relationships
 	dec, c, err := d.openXML("_rels/.rels")
-	if err != nil {
+	if err == io.EOF {
+		// a zip archive, but not an Open Packaging document
 		return nil, grate.WrapErr(err, grate.ErrNotInFormat)
 	}
+	if err != nil {
+		return nil, err
+	}
 	err = d.parseRels(dec, "")
 	c.Close()
 	if err != nil {
-		return nil, grate.WrapErr(err, grate.ErrNotInFormat)
+		return nil, err
 	}
 	if d.primaryDoc == "" {
 		return nil, errors.New("xlsx: invalid document")
@@ -141,6 +148,17 @@ func open(filename string, f *os.File) (*Document, error) {
 	return d, nil
 }
 
+// hasZipSignature returns true if the file starts like a zip archive.
+func hasZipSignature(r io.ReaderAt) bool {
+	var sig [4]byte
+	n, err := r.ReadAt(sig[:], 0)
+	if n < len(sig) {
+		// be sure not to mistake a read error for another format
+		return err != io.EOF
+	}
+	return string(sig[:]) == "PK\x03\x04"
+}
+
 func (d *Document) openXML(name string) (*xml.Decoder, io.Closer, error) {
 	if grate.Debug {
 		log.Println("    openXML", name)
-- 
2.43.0


From 1fce2269c7d8a5a62288c30b35f7432b8c731de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 19/61] fix: xlsx loads related parts in a repeatable order

---
 xlsx/xlsx.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index c4b878c..36c14c2 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -8,6 +8,7 @@ import (
 	"log"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	"github.com/pbnjay/grate"
@@ -118,7 +119,8 @@ func open(filename string, f *os.File) (*Document, error) {
 	}
 
 	styn := d.rels["http://schemas.openxmlformats.org/officeDocument/2006/relationships/styles"]
-	for _, sst := range styn {
+	for _, id := range sortedKeys(styn) {
+		sst := styn[id]
 		// parse the shared string table
 		dec, c, err = d.openXML(sst)
 		if err != nil {
@@ -132,7 +134,8 @@ func open(filename string, f *os.File) (*Document, error) {
 	}
 
 	ssn := d.rels["http://schemas.openxmlformats.org/officeDocument/2006/relationships/sharedStrings"]
-	for _, sst := range ssn {
+	for _, id := range sortedKeys(ssn) {
+		sst := ssn[id]
 		// parse the shared string table
 		dec, c, err = d.openXML(sst)
 		if err != nil {
@@ -148,6 +151,16 @@ func open(filename string, f *os.File) (*Document, error) {
 	return d, nil
 }
 
+// sortedKeys makes the iteration order of relationships repeatable.
+func sortedKeys(m map[string]string) []string {
+	res := make([]string, 0, len(m))
+	for k := range m {
+		res = append(res, k)
+	}
+	sort.Strings(res)
+	return res
+}
+
 // hasZipSignature returns true if the file starts like a zip archive.
 func hasZipSignature(r io.ReaderAt) bool {
 	var sig [4]byte
-- 
2.43.0


From a233c3dad41efd8957c08bc1b0cb6691d8d6326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 20/61] fix: xlsx Get returns an independent cursor every time

---
 xlsx/xlsx.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 36c14c2..7f6a92f 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -203,7 +203,13 @@ func (d *Document) Get(sheetName string) (grate.Collection, error) {
 			if s.err == errNotLoaded {
 				s.err = s.parseSheet()
 			}
-			return s.wrapped, s.err
+			if s.err != nil {
+				return nil, s.err
+			}
+			// every caller needs to have their own cursor
+			res := *s.wrapped
+			res.CurRow = 0
+			return &res, nil
 		}
 	}
 	return nil, errors.New("xlsx: sheet not found")
-- 
2.43.0


From d4e47df305df0cb0ee230c424fd81c8c78381f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 21/61] fix: xlsx styles handle invalid counts and references

---
 xlsx/workbook.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index d789562..3456be9 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -124,6 +124,9 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 				section = 2
 				ax := getAttrs(v.Attr, "count")
 				n, _ := strconv.ParseInt(ax[0], 10, 64)
+				if n < 0 || n > 0xFFFF {
+					n = 0 // it's only a hint
+				}
 				d.xfs = make([]uint16, 0, n)
 
 			case "xf":
@@ -140,7 +143,7 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 					// 1) get base style so we can inherit format properly
 					baseID, _ := strconv.ParseInt(ax[2], 10, 64)
 					numFmtID := "0"
-					if len(baseNumFormats) > int(baseID) {
+					if baseID >= 0 && len(baseNumFormats) > int(baseID) {
 						numFmtID = baseNumFormats[baseID]
 					}
 
@@ -154,8 +157,8 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 
 					nfid, _ := strconv.ParseInt(numFmtID, 10, 16)
 					d.xfs = append(d.xfs, uint16(nfid))
-				} else {
-					panic("wheres is this xf??")
+				} else if grate.Debug {
+					log.Println("  Unexpected xf outside of a style list")
 				}
 			default:
 				if grate.Debug {
-- 
2.43.0


From 5c57a1ac7f3bd8f5b5da2ce5943fedf39f9d861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 22/61] fix: xlsx references are checked and may be ranges

---
 xlsx/sheets.go | 32 ++++++++++++++++++--------------
 xlsx/types.go  | 18 ++++++++++++++++++
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index fc9c76b..5019cea 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -113,13 +113,9 @@ func (s *Sheet) parseSheet() error {
 					s.wrapped.Resize(1, 1)
 					continue
 				}
-				dims := strings.Split(ax[0], ":")
-				if len(dims) == 1 {
-					maxCol, maxRow = refToIndexes(dims[0])
-				} else {
-					//minCol, minRow := refToIndexes(dims[0])
-					maxCol, maxRow = refToIndexes(dims[1])
-				}
+				dims := strings.SplitN(ax[0], ":", 2)
+				//minCol, minRow := refToIndexes(dims[0])
+				maxCol, maxRow = refToIndexes(dims[len(dims)-1])
 				s.wrapped.Resize(maxRow, maxCol)
 				//log.Println("DIMENSION:", s.minRow, s.minCol, ">", s.maxRow, s.maxCol)
 			case "row":
@@ -134,7 +130,7 @@ func (s *Sheet) parseSheet() error {
 				currentCell = ax[1] // always an A1 style reference
 				style := ax[2]
 				sid, _ := strconv.ParseInt(style, 10, 64)
-				if len(s.d.xfs) > int(sid) {
+				if sid >= 0 && len(s.d.xfs) > int(sid) {
 					fno = s.d.xfs[sid]
 				} else {
 					fno = 0
@@ -151,11 +147,15 @@ func (s *Sheet) parseSheet() error {
 				if len(dims) > 1 {
 					endCol, endRow = refToIndexes(dims[1])
 				}
-				if endRow > maxRow {
-					endRow = maxRow
+				if startRow < 0 || startCol < 0 {
+					continue
 				}
-				if endCol > maxCol {
-					endCol = maxCol
+				// only mark cells within the sheet
+				if endRow > maxRow && endRow >= s.wrapped.NumRows {
+					endRow = s.wrapped.NumRows - 1
+				}
+				if endCol > maxCol && endCol >= s.wrapped.NumCols {
+					endCol = s.wrapped.NumCols - 1
 				}
 				for r := startRow; r <= endRow; r++ {
 					for c := startCol; c <= endCol; c++ {
@@ -179,8 +179,12 @@ func (s *Sheet) parseSheet() error {
 
 			case "hyperlink":
 				ax := getAttrs(v.Attr, "ref", "id")
-				col, row := refToIndexes(ax[0])
-				link := linkmap[ax[1]]
+				col, row := refToIndexes(strings.Split(ax[0], ":")[0])
+				link, ok := linkmap[ax[1]]
+				if !ok || row < 0 || col < 0 {
+					// invalid, or a location within the workbook
+					continue
+				}
 				s.wrapped.Put(row, col, link, 0)
 				s.wrapped.SetURL(row, col, link)
 
diff --git a/xlsx/types.go b/xlsx/types.go
index 427c0c0..2c18712 100644
--- a/xlsx/types.go
+++ b/xlsx/types.go
@@ -47,6 +47,9 @@ func (s staticCellType) String() string {
 //    "A"=0, "B"=1, "AA"=26, "BB"=53
 func col2int(col string) int {
 	idx := 0
+	if len(col) > 3 {
+		return -1
+	}
 	for _, c := range col {
 		idx *= 26
 		idx += int(c - '@')
@@ -54,7 +57,22 @@ func col2int(col string) int {
 	return idx - 1
 }
 
+// limits defined by the format
+const (
+	maxRows    = 1048576
+	maxColumns = 16384
+)
+
+// returns -1,-1 for invalid references.
 func refToIndexes(r string) (column, row int) {
+	column, row = parseRef(r)
+	if column < 0 || row < 0 || column >= maxColumns || row >= maxRows {
+		return -1, -1
+	}
+	return column, row
+}
+
+func parseRef(r string) (column, row int) {
 	if len(r) < 2 {
 		return -1, -1
 	}
-- 
2.43.0


From 123d29201c9d1f9b34b7c9d94f71a508230cdda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:27 +0000
Subject: [PATCH 23/61] fix: xlsx cell and shared string texts are complete and
 exclude markup

---
 xlsx/sheets.go   | 100 ++++++++++++++++++++++++++++-------------------
 xlsx/workbook.go |  16 ++++++--
 2 files changed, 73 insertions(+), 43 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 5019cea..35332f7 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -56,7 +56,8 @@ func (s *Sheet) parseSheet() error {
 	defer clo.Close()
 
 	currentCellType := BlankCellType
-	currentCell := ""
+	currentCell, cellText := "", ""
+	inText, inPhonetic := false, false
 	var fno uint16
 	var maxCol, maxRow int
 
@@ -64,44 +65,8 @@ func (s *Sheet) parseSheet() error {
 	for ; err == nil; tok, err = dec.RawToken() {
 		switch v := tok.(type) {
 		case xml.CharData:
-			if currentCell == "" {
-				continue
-			}
-			c, r := refToIndexes(currentCell)
-			if c >= 0 && r >= 0 {
-				var val interface{} = string(v)
-
-				switch currentCellType {
-				case BooleanCellType:
-					if v[0] == '1' {
-						val = true
-					} else {
-						val = false
-					}
-				case DateCellType:
-					log.Println("CELL DATE", val, fno)
-				case NumberCellType:
-					fval, err := strconv.ParseFloat(string(v), 64)
-					if err == nil {
-						val = fval
-					}
-					//log.Println("CELL NUMBER", val, numFormat)
-				case SharedStringCellType:
-					//log.Println("CELL SHSTR", val, currentCellType, numFormat)
-					si, _ := strconv.ParseInt(string(v), 10, 64)
-					val = s.d.strings[si]
-				case BlankCellType:
-					//log.Println("CELL BLANK")
-					// don't place any values
-					continue
-				case ErrorCellType, FormulaStringCellType, InlineStringCellType:
-					//log.Println("CELL ERR/FORM/INLINE", val, currentCellType)
-				default:
-					log.Println("CELL UNKNOWN", val, currentCellType, fno)
-				}
-				s.wrapped.Put(r, c, val, fno)
-			} else {
-				//log.Println("FAIL row/col: ", currentCell)
+			if inText {
+				cellText += string(v)
 			}
 		case xml.StartElement:
 			switch v.Name.Local {
@@ -136,8 +101,12 @@ func (s *Sheet) parseSheet() error {
 					fno = 0
 				}
 				//log.Println("CELL", currentCell, sid, numFormat, currentCellType)
-			case "v":
+				cellText = ""
+			case "v", "t":
 				//log.Println("CELL VALUE", ax)
+				inText = !inPhonetic
+			case "rPh":
+				inPhonetic = true
 
 			case "mergeCell":
 				ax := getAttrs(v.Attr, "ref")
@@ -200,7 +169,15 @@ func (s *Sheet) parseSheet() error {
 		case xml.EndElement:
 
 			switch v.Name.Local {
+			case "v", "t":
+				inText = false
+			case "rPh":
+				inPhonetic = false
 			case "c":
+				err = s.putCell(currentCell, currentCellType, cellText, fno)
+				if err != nil {
+					return err
+				}
 				currentCell = ""
 			case "row":
 				//currentRow = ""
@@ -216,3 +193,46 @@ func (s *Sheet) parseSheet() error {
 	}
 	return err
 }
+
+// putCell places the complete text of a cell into the sheet.
+func (s *Sheet) putCell(ref string, ctype CellType, text string, fno uint16) error {
+	if ref == "" || text == "" {
+		return nil
+	}
+	c, r := refToIndexes(ref)
+	if c < 0 || r < 0 {
+		//log.Println("FAIL row/col: ", ref)
+		return nil
+	}
+	var val interface{} = text
+
+	switch ctype {
+	case BooleanCellType:
+		val = text[0] == '1'
+	case DateCellType:
+		log.Println("CELL DATE", val, fno)
+	case NumberCellType:
+		fval, err := strconv.ParseFloat(text, 64)
+		if err == nil {
+			val = fval
+		}
+		//log.Println("CELL NUMBER", val, numFormat)
+	case SharedStringCellType:
+		//log.Println("CELL SHSTR", val, currentCellType, numFormat)
+		si, err := strconv.ParseInt(text, 10, 64)
+		if err != nil || si < 0 || si >= int64(len(s.d.strings)) {
+			return errors.New("xlsx: invalid shared string index")
+		}
+		val = s.d.strings[si]
+	case BlankCellType:
+		//log.Println("CELL BLANK")
+		// don't place any values
+		return nil
+	case ErrorCellType, FormulaStringCellType, InlineStringCellType:
+		//log.Println("CELL ERR/FORM/INLINE", val, currentCellType)
+	default:
+		log.Println("CELL UNKNOWN", val, ctype, fno)
+	}
+	s.wrapped.Put(r, c, val, fno)
+	return nil
+}
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 3456be9..0d4c072 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -186,17 +186,23 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 
 func (d *Document) parseSharedStrings(dec *xml.Decoder) error {
 	val := ""
+	inText, inPhonetic := false, false
 	tok, err := dec.RawToken()
 	for ; err == nil; tok, err = dec.RawToken() {
 		switch v := tok.(type) {
 		case xml.CharData:
-			val += string(v)
+			if inText {
+				val += string(v)
+			}
 		case xml.StartElement:
 			switch v.Name.Local {
 			case "si":
 				val = ""
 			case "t":
 				// no attributes to parse, we only want the CharData ...
+				inText = !inPhonetic
+			case "rPh":
+				inPhonetic = true
 			case "sst":
 				// main container
 			default:
@@ -205,9 +211,13 @@ func (d *Document) parseSharedStrings(dec *xml.Decoder) error {
 				}
 			}
 		case xml.EndElement:
-			if v.Name.Local == "si" {
+			switch v.Name.Local {
+			case "t":
+				inText = false
+			case "rPh":
+				inPhonetic = false
+			case "si":
 				d.strings = append(d.strings, val)
-				continue
 			}
 		default:
 			if grate.Debug {
-- 
2.43.0


From 55ccc1144e1df27ded5197fba268c2ea9c336d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 24/61] fix: xlsx sheet relationships which cannot be read are
 an error

---
 xlsx/sheets.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 35332f7..ee74434 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -35,6 +35,9 @@ func (s *Sheet) parseSheet() error {
 	sub := strings.TrimSuffix(s.docname, base)
 	relsname := filepath.Join(sub, "_rels", base+".rels")
 	dec, clo, err := s.d.openXML(relsname)
+	if err != nil && err != io.EOF {
+		return err
+	}
 	if err == nil {
 		// rels might not exist for every sheet
 		tok, err := dec.RawToken()
@@ -47,6 +50,9 @@ func (s *Sheet) parseSheet() error {
 			}
 		}
 		clo.Close()
+		if err != io.EOF {
+			return err
+		}
 	}
 
 	dec, clo, err = s.d.openXML(s.docname)
-- 
2.43.0


From 4c74cafafc9ed83519b89b03144f3ebc40b467b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:29 +0000
Subject: [PATCH 25/61] fix: simple tables have independent cursors and rows

---
 simple/simple.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simple/simple.go b/simple/simple.go
index b26669e..7e27a8a 100644
--- a/simple/simple.go
+++ b/simple/simple.go
@@ -29,7 +29,8 @@ func (t *simpleFile) Close() error {
 
 // Get a Collection from the source by name.
 func (t *simpleFile) Get(name string) (grate.Collection, error) {
-	return t, nil
+	// every caller needs to have their own cursor
+	return &simpleFile{filename: t.filename, rows: t.rows, iterRow: -1}, nil
 }
 
 // Next advances to the next record of content.
@@ -41,7 +42,7 @@ func (t *simpleFile) Next() bool {
 
 // Strings extracts values from the current record into a list of strings.
 func (t *simpleFile) Strings() []string {
-	return t.rows[t.iterRow]
+	return append([]string(nil), t.rows[t.iterRow]...)
 }
 
 // Formats extracts the format code for the current record into a list.
-- 
2.43.0


From bc709b49ced594a1a6034c11b2a9af1a03dd498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:29 +0000
Subject: [PATCH 26/61] fix: OpenCSV accepts the end of the file and reports
 read errors

---
 simple/csv.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/simple/csv.go b/simple/csv.go
index 8df92e5..9a1e26e 100644
--- a/simple/csv.go
+++ b/simple/csv.go
@@ -2,6 +2,7 @@ package simple
 
 import (
 	"encoding/csv"
+	"io"
 	"os"
 
 	"github.com/pbnjay/grate"
@@ -33,15 +34,12 @@ func OpenCSV(filename string) (grate.Source, error) {
 		total++
 		t.rows = append(t.rows, rec)
 	}
-	if err != nil {
+	if err != io.EOF {
 		switch perr := err.(type) {
 		case *csv.ParseError:
 			return nil, grate.WrapErr(perr, grate.ErrNotInFormat)
 		}
-		if total < 10 {
-			// probably? not in this format
-			return nil, grate.WrapErr(err, grate.ErrNotInFormat)
-		}
+		// this can only be read errors, not format
 		return nil, err
 	}
 
-- 
2.43.0


From 858be7a980e08e13c1df8d482f1b7e32d09a662d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 27/61] fix: binary files are not plain text tables

---
 simple/csv.go | 7 +++++++
 simple/tsv.go | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/simple/csv.go b/simple/csv.go
index 9a1e26e..ed92d53 100644
--- a/simple/csv.go
+++ b/simple/csv.go
@@ -4,6 +4,7 @@ import (
 	"encoding/csv"
 	"io"
 	"os"
+	"strings"
 
 	"github.com/pbnjay/grate"
 )
@@ -30,6 +31,12 @@ func OpenCSV(filename string) (grate.Source, error) {
 	ncols := make(map[int]int)
 	rec, err := s.Read()
 	for ; err == nil; rec, err = s.Read() {
+		for _, v := range rec {
+			if strings.IndexByte(v, 0) >= 0 {
+				// binary data
+				return nil, grate.ErrNotInFormat
+			}
+		}
 		ncols[len(rec)]++
 		total++
 		t.rows = append(t.rows, rec)
diff --git a/simple/tsv.go b/simple/tsv.go
index ae51707..06dfea0 100644
--- a/simple/tsv.go
+++ b/simple/tsv.go
@@ -27,6 +27,10 @@ func OpenTSV(filename string) (grate.Source, error) {
 	total := 0
 	ncols := make(map[int]int)
 	for s.Scan() {
+		if strings.IndexByte(s.Text(), 0) >= 0 {
+			// binary data
+			return nil, grate.ErrNotInFormat
+		}
 		r := strings.Split(s.Text(), "\t")
 		ncols[len(r)]++
 		total++
-- 
2.43.0


From bd6ec68c4c6e0157e0707072364b1bcf76b91685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 28/61] fix: grate2tsv works with a single CPU

---
 cmd/grate2tsv/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index 61550e4..73d0945 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -119,6 +119,9 @@ func main() {
 	// (e.g. each file-processor can use 2 cpus)
 	outMu := &sync.Mutex{}
 	nparallel := runtime.NumCPU() / 2
+	if nparallel < 1 {
+		nparallel = 1
+	}
 	procWG.Add(nparallel)
 	for i := 0; i < nparallel; i++ {
 		go runProcessor(filenameChan, outMu)
-- 
2.43.0


From 32c0a27dc1c7993bd4f07500b43676f510511fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:31 +0000
Subject: [PATCH 29/61] fix: grate2tsv reports output errors

---
 cmd/grate2tsv/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index 73d0945..82854bb 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -223,7 +223,9 @@ func processFile(fn string) ([]stats, error) {
 		if !*pretend {
 			f, err := os.Create(subdir + "/" + fn2 + "." + s2 + ".tsv")
 			if err != nil {
-				return nil, err
+				ps.Err = err
+				results = append(results, ps)
+				continue
 			}
 			ox = outpool.Get().(*output)
 			ox.f = f
@@ -260,10 +262,12 @@ func processFile(fn string) ([]stats, error) {
 				ps.NumRows++
 			}
 		}
-		results = append(results, ps)
 		if ox != nil {
+			// write errors MUST be known before the results are reported
+			ps.Err = ox.b.Flush()
 			cleanup <- ox
 		}
+		results = append(results, ps)
 	}
 	return results, nil
 }
-- 
2.43.0


From 732f7a4879c27343a5e98258ea14eade9a4318f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 30/61] fix: xls decodes integers stored as hundredths

---
 xls/structs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xls/structs.go b/xls/structs.go
index a04848d..e1f4b9a 100644
--- a/xls/structs.go
+++ b/xls/structs.go
@@ -130,6 +130,10 @@ func (r RKNumber) Float64() float64 {
 	if (r&1) != 0 && (r&2) == 0 {
 		return v2 / 100.0
 	}
+	if (r&1) != 0 && (r&2) != 0 {
+		// an integer number of hundredths
+		return float64(val) / 100.0
+	}
 	return 0.0
 }
 
-- 
2.43.0


From f664a2a965a071bb99b81bf2ab89513e4e006ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 31/61] fix: xlsx part that exists but cannot be reached is an
 error, not an absent part

---
 xlsx/xlsx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 7f6a92f..8db2e6f 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -179,6 +179,10 @@ func (d *Document) openXML(name string) (*xml.Decoder, io.Closer, error) {
 	for _, zf := range d.r.File {
 		if zf.Name == name {
 			zfr, err := zf.Open()
+			if err == io.EOF {
+				// the part exists but the archive has been cut short
+				err = io.ErrUnexpectedEOF
+			}
 			if err != nil {
 				return nil, nil, err
 			}
-- 
2.43.0


From 37ce80f90db2d85834f0404e7fd3e957b5f15734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 32/61] fix: xlsx R1C1 references are parsed at their own
 offsets

---
 xlsx/types.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/xlsx/types.go b/xlsx/types.go
index 2c18712..6ffc4b6 100644
--- a/xlsx/types.go
+++ b/xlsx/types.go
@@ -90,11 +90,13 @@ func parseRef(r string) (column, row int) {
 	}
 
 	// R1C1 Reference Mode
-	col1 = r[i1:i2]
-	row1 := r[i2+1:]
-	cn, _ := strconv.ParseInt(col1, 10, 64)
-	rn, _ := strconv.ParseInt(row1, 10, 64)
-	return int(cn), int(rn) - 1
+	if col1 != "R" {
+		return -1, -1
+	}
+	i2 += i1
+	rn, _ := strconv.ParseInt(r[i1:i2], 10, 64)
+	cn, _ := strconv.ParseInt(r[i2+1:], 10, 64)
+	return int(cn) - 1, int(rn) - 1
 }
 
 func getAttrs(attrs []xml.Attr, keys ...string) []string {
-- 
2.43.0


From c5558c7ef1c7c50d3be9e53f3cad3a1e220011e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 33/61] fix: OpenCSV reports read errors inside quoted fields
 as such

---
 simple/csv.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/simple/csv.go b/simple/csv.go
index ed92d53..40b75a4 100644
--- a/simple/csv.go
+++ b/simple/csv.go
@@ -11,6 +11,20 @@ import (
 
 var _ = grate.Register("csv", 15, OpenCSV)
 
+// errReader remembers why reading failed.
+type errReader struct {
+	r   io.Reader
+	err error
+}
+
+func (e *errReader) Read(p []byte) (int, error) {
+	n, err := e.r.Read(p)
+	if err != nil && err != io.EOF {
+		e.err = err
+	}
+	return n, err
+}
+
 // OpenCSV defines a Source's instantiation function.
 // It should return ErrNotInFormat immediately if filename is not of the correct file type.
 func OpenCSV(filename string) (grate.Source, error) {
@@ -24,7 +38,8 @@ func OpenCSV(filename string) (grate.Source, error) {
 		iterRow:  -1,
 	}
 
-	s := csv.NewReader(f)
+	er := &errReader{r: f}
+	s := csv.NewReader(er)
 	s.FieldsPerRecord = -1
 
 	total := 0
@@ -42,6 +57,10 @@ func OpenCSV(filename string) (grate.Source, error) {
 		t.rows = append(t.rows, rec)
 	}
 	if err != io.EOF {
+		if er.err != nil {
+			// the syntax error is only a consequence of this
+			return nil, er.err
+		}
 		switch perr := err.(type) {
 		case *csv.ParseError:
 			return nil, grate.WrapErr(perr, grate.ErrNotInFormat)
-- 
2.43.0


From 3a8217ade91cf44651099e40cdc44989d6e97717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:50 +0000
Subject: [PATCH 34/61] fix: xls records near the maximum length do not
 overflow their length

---
 xls/xls.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xls/xls.go b/xls/xls.go
index 25252c7..fee01a0 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -367,6 +367,7 @@ func (b *WorkBook) nextRecord(raw []byte) (*rec, int, error) {
 		recPool.Put(rec)
 		return nil, 4, io.ErrUnexpectedEOF
 	}
-	rec.Data = raw[4 : 4+rec.RecSize]
-	return rec, int(4 + rec.RecSize), nil
+	next := 4 + int(rec.RecSize)
+	rec.Data = raw[4:next]
+	return rec, next, nil
 }
-- 
2.43.0


From bbcc5458c45ef29f3adc38b22aa26736717036e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 35/61] fix: a sheet with a single value is not empty

---
 commonxl/sheet.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index eecf55b..452dcf7 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -246,7 +246,18 @@ func (s *Sheet) Scan(args ...interface{}) error {
 
 // IsEmpty returns true if there are no data values.
 func (s *Sheet) IsEmpty() bool {
-	return (s.NumCols <= 1 && s.NumRows <= 1)
+	if s.NumCols > 1 || s.NumRows > 1 {
+		return false
+	}
+	// a single cell is also the smallest size of a sheet without any values
+	for _, row := range s.Rows {
+		for _, c := range row {
+			if c.Type() != BlankCell {
+				return false
+			}
+		}
+	}
+	return true
 }
 
 // Err returns the last error that occured.
-- 
2.43.0


From 00e3afc1d542eab70c6d6116125d6df24f978059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:47 +0000
Subject: [PATCH 36/61] fix: WrapErr errors match every error they wrap

---
 errs.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/errs.go b/errs.go
index 784a551..1730c5c 100644
--- a/errs.go
+++ b/errs.go
@@ -35,6 +35,16 @@ func (e errx) Unwrap() error {
 	return nil
 }
 
+// Is returns true if any one of the wrapped errors matches the target.
+func (e errx) Is(target error) bool {
+	for _, err := range e.errs {
+		if errors.Is(err, target) {
+			return true
+		}
+	}
+	return false
+}
+
 // WrapErr wraps a set of errors.
 func WrapErr(e ...error) error {
 	if len(e) == 1 {
-- 
2.43.0


From a382f5427c340f4feae395177d609416552102ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 37/61] fix: bound the cells that merged ranges and hyperlinks
 may cover

A damaged range together with a damaged dimension (or a cell placed far
outside of the sheet) made a few bytes fill hundreds of millions of cells.
---
 commonxl/sheet.go | 27 +++++++++++++++++++++++++++
 xls/sheets.go     |  9 +++++++++
 xlsx/sheets.go    |  4 ++++
 3 files changed, 40 insertions(+)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 452dcf7..364ab2f 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -1,6 +1,7 @@
 package commonxl
 
 import (
+	"errors"
 	"fmt"
 	"log"
 	"time"
@@ -16,6 +17,8 @@ type Sheet struct {
 	Rows      [][]Cell
 
 	CurRow int
+
+	covered int
 }
 
 // Resize the sheet for the number of rows and cols given.
@@ -50,6 +53,30 @@ func (s *Sheet) cell(row, col int) *Cell {
 	return &s.Rows[row][col]
 }
 
+// maxCovered limits the number of cells that the ranges of a sheet may cover.
+const maxCovered = 1 << 20
+
+// Cover must be called before values are Put into every cell of a range.
+// It returns an error if the ranges of the sheet cover (or add) so many cells
+// that they have to be corrupt.
+func (s *Sheet) Cover(firstRow, lastRow, firstCol, lastCol int) error {
+	if lastCol < firstCol {
+		return nil
+	}
+	for rn := firstRow; rn <= lastRow; rn++ {
+		s.covered += lastCol + 1 - firstCol
+		if rn >= len(s.Rows) {
+			s.covered += lastCol + 1
+		} else if n := lastCol + 1 - len(s.Rows[rn]); n > 0 {
+			s.covered += n
+		}
+		if s.covered > maxCovered {
+			return errors.New("grate: cell range is too large")
+		}
+	}
+	return nil
+}
+
 // Put the value at the cell location given.
 func (s *Sheet) Put(row, col int, value interface{}, fmtNum uint16) {
 	//log.Println(row, col, value, fmtNum)
diff --git a/xls/sheets.go b/xls/sheets.go
index 546f8c1..22009b0 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -359,6 +359,11 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				continue
 			}
 
+			err = res.Cover(int(firstRow), int(lastRow), int(firstCol), int(lastCol))
+			if err != nil {
+				return nil, err
+			}
+
 			// apply merge cell rules (see RecTypeMergeCells below)
 			for rn := int(firstRow); rn <= int(lastRow); rn++ {
 				for cn := int(firstCol); cn <= int(lastCol); cn++ {
@@ -421,6 +426,10 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				if int(lastCol) >= res.NumCols {
 					lastCol = uint16(res.NumCols - 1)
 				}
+				err := res.Cover(int(firstRow), int(lastRow), int(firstCol), int(lastCol))
+				if err != nil {
+					return nil, err
+				}
 				for rn := int(firstRow); rn <= int(lastRow); rn++ {
 					for cn := int(firstCol); cn <= int(lastCol); cn++ {
 						if rn == int(firstRow) && cn == int(firstCol) {
diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index ee74434..621c9c8 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -132,6 +132,10 @@ func (s *Sheet) parseSheet() error {
 				if endCol > maxCol && endCol >= s.wrapped.NumCols {
 					endCol = s.wrapped.NumCols - 1
 				}
+				err = s.wrapped.Cover(startRow, endRow, startCol, endCol)
+				if err != nil {
+					return err
+				}
 				for r := startRow; r <= endRow; r++ {
 					for c := startCol; c <= endCol; c++ {
 						if r == startRow && c == startCol {
-- 
2.43.0


From bc250b3175dd03e65675d1a2966583d6b3a5ac6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:02 +0000
Subject: [PATCH 38/61] fix: text stays text whatever the number format of its
 cell

---
 commonxl/cell.go  | 18 ++----------------
 commonxl/dates.go |  7 +++++--
 commonxl/fmt.go   | 15 +++++++++++----
 3 files changed, 18 insertions(+), 22 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 7f3b825..cd8311b 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"math"
 	"net/url"
-	"strconv"
 	"time"
 	"unicode/utf16"
 )
@@ -121,8 +120,9 @@ var boolStrings = map[string]bool{
 // NewCellWithType creates a new cell value with the given type, coercing as necessary.
 func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 	c := NewCell(value)
-	if c[1] == t {
+	if c[1] == t || c[1] == StringCell || c[1] == BlankCell {
 		// fast path if it was already typed correctly
+		// (text and blanks stay what they are, whatever the number format)
 		return c
 	}
 
@@ -169,20 +169,6 @@ func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 			c[1] = BooleanCell
 		}
 	}
-	if c[1] == StringCell {
-		if t == IntegerCell {
-			x, _ := strconv.ParseInt(c[0].(string), 10, 64)
-			c[0] = x
-			c[1] = IntegerCell
-		} else if t == FloatCell {
-			x, _ := strconv.ParseFloat(c[0].(string), 64)
-			c[0] = x
-			c[1] = FloatCell
-		} else if t == BooleanCell {
-			c[0] = boolStrings[c[0].(string)]
-			c[1] = BooleanCell
-		}
-	}
 	if t == StringCell {
 		c[0] = fmt.Sprint(c[0])
 		c[1] = StringCell
diff --git a/commonxl/dates.go b/commonxl/dates.go
index dad6ae9..19796ef 100644
--- a/commonxl/dates.go
+++ b/commonxl/dates.go
@@ -1,6 +1,7 @@
 package commonxl
 
 import (
+	"fmt"
 	"strings"
 	"time"
 )
@@ -50,7 +51,8 @@ func timeFmtFunc(f string) FmtFunc {
 		if !ok {
 			fval, ok := convertToFloat64(v)
 			if !ok {
-				return "MUST BE time.Time OR numeric TO FORMAT CORRECTLY"
+				// strings etc returned as-is
+				return fmt.Sprint(v)
 			}
 			t = x.ConvertToDate(fval)
 		}
@@ -67,7 +69,8 @@ func cnTimeFmtFunc(f string) FmtFunc {
 		if !ok {
 			fval, ok := convertToFloat64(v)
 			if !ok {
-				return "MUST BE time.Time OR numeric TO FORMAT CORRECTLY"
+				// strings etc returned as-is
+				return fmt.Sprint(v)
 			}
 			t = x.ConvertToDate(fval)
 		}
diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 359e17c..a447e24 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -17,12 +17,18 @@ func staticFmtFunc(s string) FmtFunc {
 
 func surround(pre string, ff FmtFunc, post string) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
+		if s, ok := v.(string); ok {
+			return s
+		}
 		return pre + ff(x, v) + post
 	}
 }
 
 func addNegParens(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
+		if s, ok := v.(string); ok {
+			return s
+		}
 		s1 := ff(x, v)
 		if strings.HasPrefix(s1, "-") {
 			return "(" + s1[1:] + ")"
@@ -33,6 +39,9 @@ func addNegParens(ff FmtFunc) FmtFunc {
 
 func addCommas(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
+		if s, ok := v.(string); ok {
+			return s
+		}
 		s1 := ff(x, v)
 		isNeg := false
 		if strings.HasPrefix(s1, "-") {
@@ -138,9 +147,6 @@ func convertToFloat64(v interface{}) (float64, bool) {
 		return float64(val), true
 	case float32:
 		return float64(val), true
-	case string:
-		nf, err := strconv.ParseFloat(val, 64)
-		return nf, err == nil
 	default:
 		return 0.0, false
 	}
@@ -165,7 +171,8 @@ func fracFmtFunc(n int) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		f, ok := convertToFloat64(v)
 		if !ok {
-			return "MUST BE numeric TO FORMAT CORRECTLY"
+			// strings etc returned as-is
+			return fmt.Sprint(v)
 		}
 		w, n, d := DecimalToWholeFraction(f, n, n)
 		if n == 0 {
-- 
2.43.0


From d738036d7e36ef4ca9179d5d5b2c7977101d9297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:12 +0000
Subject: [PATCH 39/61] fix: dates of workbooks with the 1904 date system

---
 xls/xls.go       | 1 +
 xlsx/workbook.go | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/xls/xls.go b/xls/xls.go
index fee01a0..d7fc556 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -308,6 +308,7 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 
 			case RecTypeDate1904:
 				b.dateMode = binary.LittleEndian.Uint16(nr.Data)
+				b.nfmt.Mode1904(b.dateMode == 1)
 
 			case RecTypeFormat:
 				// Format maps a format ID to a code string
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 0d4c072..fced693 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -80,6 +80,9 @@ func (d *Document) parseWorkbook(dec *xml.Decoder) error {
 					err:     errNotLoaded,
 				}
 				d.sheets = append(d.sheets, s)
+			case "workbookPr":
+				date1904 := getAttrs(v.Attr, "date1904")[0]
+				d.fmt.Mode1904(date1904 == "1" || date1904 == "true")
 			case "workbook", "sheets":
 				// containers
 			default:
-- 
2.43.0


From 2de3e1d490042591f22c15d9e643d0d9fda634ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:41 +0000
Subject: [PATCH 40/61] fix: absolute target of the main part

---
 xlsx/workbook.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index fced693..74411b1 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -35,7 +35,7 @@ func (d *Document) parseRels(dec *xml.Decoder, basedir string) error {
 					d.rels[vals["Type"]][vals["Id"]] = filepath.Join(basedir, vals["Target"])
 				}
 				if vals["Type"] == "http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" {
-					d.primaryDoc = vals["Target"]
+					d.primaryDoc = d.rels[vals["Type"]][vals["Id"]]
 				}
 			default:
 				if grate.Debug {
-- 
2.43.0


From 8643be64c07346bcf9e44ece4849b5669fea5407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:56 +0000
Subject: [PATCH 41/61] fix: cells and rows without a reference

---
 xlsx/sheets.go | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 621c9c8..501bbf0 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -62,10 +62,11 @@ func (s *Sheet) parseSheet() error {
 	defer clo.Close()
 
 	currentCellType := BlankCellType
-	currentCell, cellText := "", ""
+	cellText := ""
 	inText, inPhonetic := false, false
 	var fno uint16
 	var maxCol, maxRow int
+	curCol, curRow := -1, -1
 
 	tok, err := dec.RawToken()
 	for ; err == nil; tok, err = dec.RawToken() {
@@ -90,15 +91,27 @@ func (s *Sheet) parseSheet() error {
 				s.wrapped.Resize(maxRow, maxCol)
 				//log.Println("DIMENSION:", s.minRow, s.minCol, ">", s.maxRow, s.maxCol)
 			case "row":
-				//currentRow = ax["r"] // unsigned int row index
-				//log.Println("ROW", currentRow)
+				// the index is optional, by default it's the next row
+				ax := getAttrs(v.Attr, "r")
+				rn, err := strconv.ParseInt(ax[0], 10, 32)
+				if err == nil && rn > 0 {
+					curRow = int(rn) - 1
+				} else {
+					curRow++
+				}
+				curCol = -1
 			case "c":
 				ax := getAttrs(v.Attr, "t", "r", "s")
 				currentCellType = CellType(ax[0])
 				if currentCellType == BlankCellType {
 					currentCellType = NumberCellType
 				}
-				currentCell = ax[1] // always an A1 style reference
+				// the reference is optional, by default it's the next cell
+				if ax[1] != "" {
+					curCol, curRow = refToIndexes(ax[1])
+				} else {
+					curCol++
+				}
 				style := ax[2]
 				sid, _ := strconv.ParseInt(style, 10, 64)
 				if sid >= 0 && len(s.d.xfs) > int(sid) {
@@ -106,7 +119,7 @@ func (s *Sheet) parseSheet() error {
 				} else {
 					fno = 0
 				}
-				//log.Println("CELL", currentCell, sid, numFormat, currentCellType)
+				//log.Println("CELL", curCol, curRow, sid, numFormat, currentCellType)
 				cellText = ""
 			case "v", "t":
 				//log.Println("CELL VALUE", ax)
@@ -184,13 +197,11 @@ func (s *Sheet) parseSheet() error {
 			case "rPh":
 				inPhonetic = false
 			case "c":
-				err = s.putCell(currentCell, currentCellType, cellText, fno)
+				err = s.putCell(curCol, curRow, currentCellType, cellText, fno)
 				if err != nil {
 					return err
 				}
-				currentCell = ""
-			case "row":
-				//currentRow = ""
+				cellText = ""
 			}
 		default:
 			if grate.Debug {
@@ -205,13 +216,12 @@ func (s *Sheet) parseSheet() error {
 }
 
 // putCell places the complete text of a cell into the sheet.
-func (s *Sheet) putCell(ref string, ctype CellType, text string, fno uint16) error {
-	if ref == "" || text == "" {
+func (s *Sheet) putCell(c, r int, ctype CellType, text string, fno uint16) error {
+	if text == "" {
 		return nil
 	}
-	c, r := refToIndexes(ref)
-	if c < 0 || r < 0 {
-		//log.Println("FAIL row/col: ", ref)
+	if c < 0 || r < 0 || c >= maxColumns || r >= maxRows {
+		//log.Println("FAIL row/col: ", c, r)
 		return nil
 	}
 	var val interface{} = text
-- 
2.43.0


From 87e78a08eda774a089be5ae9e3991297c553f014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:56 +0000
Subject: [PATCH 42/61] fix: fetching a chart sheet of an xlsx workbook

---
 xlsx/workbook.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 74411b1..3662557 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -79,6 +79,10 @@ func (d *Document) parseWorkbook(dec *xml.Decoder) error {
 					docname: d.rels["http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet"][sheetID],
 					err:     errNotLoaded,
 				}
+				if cs, ok := d.rels["http://schemas.openxmlformats.org/officeDocument/2006/relationships/chartsheet"][sheetID]; ok {
+					// has no cells, so it's an empty table
+					s.docname = cs
+				}
 				d.sheets = append(d.sheets, s)
 			case "workbookPr":
 				date1904 := getAttrs(v.Attr, "date1904")[0]
-- 
2.43.0


From ce37b4feb34bfa823dcf18b1f222a62f58bf0fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:01 +0000
Subject: [PATCH 43/61] fix: streams of embedded documents mistaken for the
 workbook

Document.Open searched the flat list of directory entries, so a stream of
the same name within another storage (e.g. the "Workbook" of an embedded
document) was opened when its entry came first. The streams of the root
storage are preferred now.
---
 xls/cfb/cfb.go       |  3 +--
 xls/cfb/interface.go | 31 +++++++++++++++++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index bff734a..65d0213 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -323,8 +323,7 @@ func (d *Document) addDir(data []byte) error {
 			}
 		*/
 	case typeUnknown:
-		// unused entry
-		return nil
+		// unused entry, but the others are referred to by position
 	}
 	d.dir = append(d.dir, dirent)
 	return nil
diff --git a/xls/cfb/interface.go b/xls/cfb/interface.go
index 487ec09..f274c1f 100644
--- a/xls/cfb/interface.go
+++ b/xls/cfb/interface.go
@@ -33,9 +33,36 @@ func (d *Document) List() ([]string, error) {
 	return res, nil
 }
 
-// Open the named stream contained in the document.
-func (d *Document) Open(name string) (io.ReadSeeker, error) {
+// rootStreams returns the entries directly within the root storage, other
+// storages (e.g. of embedded documents) may contain streams of the same name.
+func (d *Document) rootStreams() []*directory {
+	var res []*directory
+	var todo []uint32
 	for _, e := range d.dir {
+		if e.ObjectType == typeRootStorage {
+			todo = append(todo, e.ChildID)
+			break
+		}
+	}
+	seen := make([]bool, len(d.dir))
+	for len(todo) > 0 {
+		id := todo[len(todo)-1]
+		todo = todo[:len(todo)-1]
+		if int64(id) >= int64(len(d.dir)) || seen[id] {
+			continue
+		}
+		seen[id] = true
+		e := d.dir[id]
+		res = append(res, e)
+		todo = append(todo, e.LeftSiblingID, e.RightSiblingID)
+	}
+	return res
+}
+
+// Open the named stream contained in the document. When there are several
+// then the one which isn't within another storage is preferred.
+func (d *Document) Open(name string) (io.ReadSeeker, error) {
+	for _, e := range append(d.rootStreams(), d.dir...) {
 		if e.String() == name && e.ObjectType == typeStream {
 			if e.StreamSize < uint64(d.header.MiniStreamCutoffSize) {
 				return d.getMiniStreamReader(uint32(e.StartingSectorLocation), e.StreamSize)
-- 
2.43.0


From d3d148aac280be2369fa09de171d951d43157480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:02 +0000
Subject: [PATCH 44/61] fix: newlines kept when spaces are not trimmed

Without -w the cleaned up cell was only looked at for being blank, not
written, so embedded newlines and tabs broke the rows despite -r.
---
 cmd/grate2tsv/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index 82854bb..731bc64 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -242,8 +242,8 @@ func processFile(fn string) ([]stats, error) {
 				}
 				if *trimSpaces {
 					x = strings.TrimSpace(x)
-					row[i] = x
 				}
+				row[i] = x
 				if x != "" {
 					nonblank = true
 					if ps.NumCols < i {
-- 
2.43.0


From 10f21bb069a4dc0a893f832abb720ecf623bbcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:16 +0000
Subject: [PATCH 45/61] fix: output lost by grater without notice

When stdout could not be written (e.g. the disk is full) the rows were
dropped and the exit status was still 0.
---
 cmd/grater/main.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/grater/main.go b/cmd/grater/main.go
index 07d6b05..ca04c9e 100644
--- a/cmd/grater/main.go
+++ b/cmd/grater/main.go
@@ -46,12 +46,20 @@ func main() {
 			for sheet.Next() {
 				if *flagDebug {
 					dtypes := sheet.Types()
-					fmt.Println(strings.Join(dtypes, "\t"))
+					printLine(strings.Join(dtypes, "\t"))
 				}
 				row := sheet.Strings()
-				fmt.Println(strings.Join(row, "\t"))
+				printLine(strings.Join(row, "\t"))
 			}
 		}
 		wb.Close()
 	}
 }
+
+// printLine writes to stdout, there is nothing left to do if that fails.
+func printLine(line string) {
+	if _, err := fmt.Println(line); err != nil {
+		fmt.Fprintln(os.Stderr, err)
+		os.Exit(1)
+	}
+}
-- 
2.43.0


From d3346e646eb956b38333a2489b400208c63ef7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:33 +0000
Subject: [PATCH 46/61] fix: status lines lost by grate2tsv without notice

When the status file could not be written (e.g. the disk is full) lines were
dropped and the exit status was still 0.
---
 cmd/grate2tsv/main.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index 731bc64..6ff2836 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -42,7 +42,7 @@ var (
 	memprofile     = flag.String("memprofile", "", "write memory profile to file")
 
 	timeFormat = "2006-01-02 15:04:05"
-	fstats     *os.File
+	fstats     = &statsFile{}
 
 	procWG  sync.WaitGroup
 	cleanup = make(chan *output, 100)
@@ -56,9 +56,37 @@ type output struct {
 	b *bufio.Writer
 }
 
+// statsFile remembers the first failure, and adds nothing after it.
+type statsFile struct {
+	*os.File
+	err error
+}
+
+func (s *statsFile) Write(p []byte) (n int, err error) {
+	if s.err == nil {
+		n, s.err = s.File.Write(p)
+	}
+	return n, s.err
+}
+
+func (s *statsFile) Close() error {
+	if err := s.File.Close(); s.err == nil {
+		s.err = err
+	}
+	return s.err
+}
+
 func main() {
 	flag.Parse()
 
+	// after everything else is finished
+	defer func() {
+		if fstats.err != nil {
+			fmt.Fprintln(os.Stderr, fstats.err)
+			os.Exit(1)
+		}
+	}()
+
 	if *memprofile != "" {
 		f, err := os.Create(*memprofile)
 		if err != nil {
@@ -100,7 +128,7 @@ func main() {
 	}()
 
 	var err error
-	fstats, err = os.OpenFile(*infoFile, os.O_CREATE|os.O_RDWR, 0644)
+	fstats.File, err = os.OpenFile(*infoFile, os.O_CREATE|os.O_RDWR, 0644)
 	if err != nil {
 		log.Fatal(err)
 	}
-- 
2.43.0


From d3fefd3b450534594ec8be8902e0d255fcfc528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:58 +0000
Subject: [PATCH 47/61] fix: stream names of compound files are
 case-insensitive

Some producers write WORKBOOK, which was not found.
---
 xls/cfb/interface.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xls/cfb/interface.go b/xls/cfb/interface.go
index f274c1f..19c2b4a 100644
--- a/xls/cfb/interface.go
+++ b/xls/cfb/interface.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"strings"
 )
 
 // Open a Compound File Binary Format document.
@@ -60,10 +61,11 @@ func (d *Document) rootStreams() []*directory {
 }
 
 // Open the named stream contained in the document. When there are several
-// then the one which isn't within another storage is preferred.
+// then the one which isn't within another storage is preferred. Names are
+// case-insensitive.
 func (d *Document) Open(name string) (io.ReadSeeker, error) {
 	for _, e := range append(d.rootStreams(), d.dir...) {
-		if e.String() == name && e.ObjectType == typeStream {
+		if strings.EqualFold(e.String(), name) && e.ObjectType == typeStream {
 			if e.StreamSize < uint64(d.header.MiniStreamCutoffSize) {
 				return d.getMiniStreamReader(uint32(e.StartingSectorLocation), e.StreamSize)
 			} else if e.StreamSize != 0 {
-- 
2.43.0


From 30f902c994079ade3d11b1d994c8fd1eef16ddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:59 +0000
Subject: [PATCH 48/61] fix: part names of xlsx files are case-insensitive

A target which differs in case from the name of the part (as some producers
write them) was not found.
---
 xlsx/xlsx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 8db2e6f..e181c90 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -177,7 +177,8 @@ func (d *Document) openXML(name string) (*xml.Decoder, io.Closer, error) {
 		log.Println("    openXML", name)
 	}
 	for _, zf := range d.r.File {
-		if zf.Name == name {
+		// part names are case-insensitive
+		if strings.EqualFold(zf.Name, name) {
 			zfr, err := zf.Open()
 			if err == io.EOF {
 				// the part exists but the archive has been cut short
-- 
2.43.0


From 567119959ef282de0646d619e828c8fcbb3f89de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:00 +0000
Subject: [PATCH 49/61] fix: fetching a dialog or macro sheet of an xlsx
 workbook

As for chart sheets, Get of a listed sheet failed with EOF.
---
 xlsx/workbook.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 3662557..3b36739 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -56,6 +56,15 @@ func (d *Document) parseRels(dec *xml.Decoder, basedir string) error {
 	return err
 }
 
+// relationship types of the other kinds of sheets, which usually have no
+// cells, so they are empty tables.
+var otherSheets = []string{
+	"http://schemas.openxmlformats.org/officeDocument/2006/relationships/chartsheet",
+	"http://schemas.openxmlformats.org/officeDocument/2006/relationships/dialogsheet",
+	"http://schemas.microsoft.com/office/2006/relationships/xlMacrosheet",
+	"http://schemas.microsoft.com/office/2006/relationships/xlIntlMacrosheet",
+}
+
 func (d *Document) parseWorkbook(dec *xml.Decoder) error {
 	tok, err := dec.RawToken()
 	for ; err == nil; tok, err = dec.RawToken() {
@@ -79,9 +88,10 @@ func (d *Document) parseWorkbook(dec *xml.Decoder) error {
 					docname: d.rels["http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet"][sheetID],
 					err:     errNotLoaded,
 				}
-				if cs, ok := d.rels["http://schemas.openxmlformats.org/officeDocument/2006/relationships/chartsheet"][sheetID]; ok {
-					// has no cells, so it's an empty table
-					s.docname = cs
+				for _, typ := range otherSheets {
+					if other, ok := d.rels[typ][sheetID]; ok {
+						s.docname = other
+					}
 				}
 				d.sheets = append(d.sheets, s)
 			case "workbookPr":
-- 
2.43.0


From 5a23d6c2b4a6f44337b89a78b6ca38c301e1fb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:32 +0000
Subject: [PATCH 50/61] fix: times of dates were shown a second too early

A fraction of a day is seldom exact, and was cut off.
---
 commonxl/dates.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/commonxl/dates.go b/commonxl/dates.go
index 19796ef..0856426 100644
--- a/commonxl/dates.go
+++ b/commonxl/dates.go
@@ -2,6 +2,7 @@ package commonxl
 
 import (
 	"fmt"
+	"math"
 	"strings"
 	"time"
 )
@@ -32,7 +33,7 @@ func (x *Formatter) ConvertToDate(val float64) time.Time {
 		month := time.Month(J + 2 - 12*L)
 		year := 100*(N-49) + I + L
 
-		t := time.Duration(float64(time.Hour*24) * frac)
+		t := timeOfDay(frac)
 		return time.Date(year, month, day, 0, 0, 0, 0, time.UTC).Add(t)
 	}
 	frac := val - float64(v)
@@ -41,10 +42,15 @@ func (x *Formatter) ConvertToDate(val float64) time.Time {
 		date = time.Date(1899, 12, 30, 0, 0, 0, 0, time.UTC)
 	}
 
-	t := time.Duration(float64(time.Hour*24) * frac)
+	t := timeOfDay(frac)
 	return date.AddDate(0, 0, v).Add(t)
 }
 
+// timeOfDay converts a fraction of a day, which is seldom exact.
+func timeOfDay(frac float64) time.Duration {
+	return time.Duration(math.Round(frac*86400e3)) * time.Millisecond
+}
+
 func timeFmtFunc(f string) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		t, ok := v.(time.Time)
-- 
2.43.0


From 63972155fa457b5c076a9e46aca72b113aa4b183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:33 +0000
Subject: [PATCH 51/61] fix: numbers without decimals are rounded

They were cut off, which showed 2.7 as 2 and 0.29 as 28%.
---
 commonxl/cell.go | 2 +-
 commonxl/fmt.go  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index cd8311b..774aa27 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -153,7 +153,7 @@ func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 
 	if c[1] == FloatCell {
 		if t == IntegerCell {
-			c[0] = int64(c[0].(float64))
+			c[0] = int64(math.Round(c[0].(float64)))
 			c[1] = IntegerCell
 		} else if t == BooleanCell {
 			c[0] = c[0].(float64) != 0.0
diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index a447e24..3990b1d 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -2,6 +2,7 @@ package commonxl
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -102,7 +103,7 @@ func sprintfFunc(fs string, mul int) FmtFunc {
 		case float64:
 			val *= float64(mul)
 			if wantInt64 {
-				v2 := int64(val)
+				v2 := int64(math.Round(val))
 				return fmt.Sprintf(fs, v2)
 			}
 			return fmt.Sprintf(fs, val)
-- 
2.43.0


From 031270cdb08bf3fdaae323a1dc54f9d06404f70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:34 +0000
Subject: [PATCH 52/61] fix: custom percentages without decimals

The value became an integer before it was multiplied: 0.5 was shown as 0%.
---
 commonxl/formats.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 87ce3f3..1967fc9 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -162,6 +162,9 @@ func makeFormatter(s string) (FmtFunc, CellType) {
 		//log.Printf("   made int formatter '%s'", sf)
 		ff = sprintfFunc(sf, mul)
 		ctype = IntegerCell
+		if mul != 1 {
+			ctype = FloatCell
+		}
 	}
 
 	if strings.Contains(s, ",") {
-- 
2.43.0


From ecff18b979ec731035a6a53d8430701a4b0edd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:34 +0000
Subject: [PATCH 53/61] fix: date formats of several sections

Dates with a format such as yyyy-mm-dd;@ were shown in Go's notation.
---
 commonxl/fmt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 3990b1d..c7d1faa 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -5,6 +5,7 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"time"
 )
 
 // FmtFunc will format a value according to the designated style.
@@ -205,6 +206,9 @@ func switchFmtFunc(pos FmtFunc, others ...FmtFunc) FmtFunc {
 		}
 	}
 	return func(x *Formatter, v interface{}) string {
+		if _, ok := v.(time.Time); ok {
+			return pos(x, v)
+		}
 		val, ok := convertToFloat64(v)
 		if !ok {
 			return stringFF(x, v)
-- 
2.43.0


From 6ad6dd1010c895bacadfad81db28d58f03b3fa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:57 +0000
Subject: [PATCH 54/61] fix: negative numbers in sections of their own had two
 signs

The section for negative numbers (as in 0.00;-0.00 or the accounting formats)
shows the sign itself.
---
 commonxl/fmt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index c7d1faa..9efb280 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -217,6 +217,10 @@ func switchFmtFunc(pos FmtFunc, others ...FmtFunc) FmtFunc {
 			return zeroFF(x, v)
 		}
 		if val < 0.0 {
+			if len(others) > 0 {
+				// the section shows the sign itself
+				return negFF(x, -val)
+			}
 			return negFF(x, v)
 		}
 		return pos(x, v)
-- 
2.43.0


From 55e77641d3b68ded692817c5485ee28371dc2f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:57 +0000
Subject: [PATCH 55/61] fix: the sign precedes the text before a number

Such as a currency symbol: -$2.70 was shown as $-2.70.
---
 commonxl/fmt.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 9efb280..621fbe9 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -22,7 +22,11 @@ func surround(pre string, ff FmtFunc, post string) FmtFunc {
 		if s, ok := v.(string); ok {
 			return s
 		}
-		return pre + ff(x, v) + post
+		s1 := ff(x, v)
+		if strings.HasPrefix(s1, "-") {
+			return "-" + pre + s1[1:] + post
+		}
+		return pre + s1 + post
 	}
 }
 
-- 
2.43.0


From 98a5add14d785f7f28259fd88724e852bffea02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:57 +0000
Subject: [PATCH 56/61] fix: numbers shown as one of several texts

With a format such as "yes";"yes";"no" the number became a string before
it could select the text.
---
 commonxl/formats.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 1967fc9..ec2ec56 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -84,6 +84,10 @@ func makeFormatter(s string) (FmtFunc, CellType) {
 		for i, ps := range parts[1:] {
 			rem[i], _ = makeFormatter(ps)
 		}
+		if ctypePos == StringCell && parts[0] != "@" {
+			// numbers select a text
+			ctypePos = FloatCell
+		}
 		return switchFmtFunc(posFF, rem...), ctypePos
 	}
 
-- 
2.43.0


From 2f9df0608e6bce6127da8c2353c44dc3621e37bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:17 +0000
Subject: [PATCH 57/61] fix: custom date and time formats

Minutes were shown as the month unless both hours and seconds were shown too
(hh:mm, mm:ss), parts which occur twice only once (yyyy-mm-dd hh:mm), the name
of the day was mixed with its number (dddd), AM/PM was shown as AM/AM or AM/PM,
and codes in upper case were not known.
---
 commonxl/dates.go   | 117 ++++++++++++++++++++++++++++++++++++++++++++
 commonxl/formats.go |  45 +++--------------
 2 files changed, 124 insertions(+), 38 deletions(-)

diff --git a/commonxl/dates.go b/commonxl/dates.go
index 0856426..8adedc3 100644
--- a/commonxl/dates.go
+++ b/commonxl/dates.go
@@ -3,8 +3,10 @@ package commonxl
 import (
 	"fmt"
 	"math"
+	"regexp"
 	"strings"
 	"time"
+	"unicode/utf8"
 )
 
 // ConvertToDate converts a floating-point value using the
@@ -67,6 +69,121 @@ func timeFmtFunc(f string) FmtFunc {
 	}
 }
 
+var (
+	amPM             = regexp.MustCompile("(?i)am/pm|a/p")
+	fractionOfSecond = regexp.MustCompile(`^\.0+`)
+)
+
+// dateFormatFunc makes a formatter from the code of a date format.
+func dateFormatFunc(code string) FmtFunc {
+	type part struct {
+		text   string // to be copied, or
+		layout string // of a part of the date
+	}
+	var parts []part
+	layout := func(s string) {
+		parts = append(parts, part{layout: s})
+	}
+	hour12 := amPM.MatchString(code)
+	last := byte(0) // the unit before
+	for i := 0; i < len(code); {
+		c := code[i] | 0x20 // in lower case
+		n := 1
+		for i+n < len(code) && code[i+n]|0x20 == c {
+			n++
+		}
+		if loc := amPM.FindStringIndex(code[i:]); loc != nil && loc[0] == 0 {
+			layout("PM")
+			i += loc[1]
+			continue
+		}
+		short := 1 // for numbers of two digits
+		if n > 1 {
+			short = 0
+		}
+		switch {
+		case c == 'y' && n <= 2:
+			layout("06")
+		case c == 'y':
+			layout("2006")
+		case c == 'm' && n <= 2 && last == 'h':
+			layout("04"[short:])
+		case c == 'm' && n <= 2:
+			layout("01"[short:])
+		case c == 'm' && n == 4:
+			layout("January")
+		case c == 'm':
+			// the first letter only (mmmmm) would be ambiguous
+			layout("Jan")
+		case c == 'd' && n <= 2:
+			layout("02"[short:])
+		case c == 'd' && n == 3:
+			layout("Mon")
+		case c == 'd':
+			layout("Monday")
+		case c == 'h' && hour12:
+			layout("03"[short:])
+		case c == 'h':
+			layout("15")
+		case c == 's':
+			for k := len(parts) - 1; k >= 0 && last == 'm'; k-- {
+				// these were minutes
+				if l := parts[k].layout; l == "01" || l == "1" {
+					parts[k].layout = strings.Replace(l, "1", "4", 1)
+				}
+				if parts[k].layout != "" {
+					break
+				}
+			}
+			frac := fractionOfSecond.FindString(code[i+n:])
+			layout("05"[short:] + frac)
+			n += len(frac)
+		default:
+			_, n = utf8.DecodeRuneInString(code[i:])
+			switch code[i] {
+			case '"':
+				if n = strings.IndexByte(code[i+1:], '"'); n < 0 {
+					n = len(code) - i - 1
+				}
+				parts = append(parts, part{text: code[i+1 : i+1+n]})
+				n += 2
+			case '\\', '_', '*':
+				_, n = utf8.DecodeRuneInString(code[i+1:])
+				if code[i] == '\\' {
+					parts = append(parts, part{text: code[i+1 : i+1+n]})
+				}
+				n++
+			default:
+				parts = append(parts, part{text: code[i : i+n]})
+			}
+			i += n
+			continue
+		}
+		last = c
+		i += n
+	}
+	return func(x *Formatter, v interface{}) string {
+		t, ok := v.(time.Time)
+		if !ok {
+			fval, ok := convertToFloat64(v)
+			if !ok {
+				// strings etc returned as-is
+				return fmt.Sprint(v)
+			}
+			t = x.ConvertToDate(fval)
+		}
+		s := ""
+		for _, p := range parts {
+			if p.layout != "" {
+				s += t.Format(p.layout)
+			} else {
+				s += p.text
+			}
+		}
+		return s
+	}
+}
+
 // same as above but replaces "AM" and "PM" with chinese translations.
 // TODO: implement others
 func cnTimeFmtFunc(f string) FmtFunc {
diff --git a/commonxl/formats.go b/commonxl/formats.go
index ec2ec56..4505001 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -64,10 +64,9 @@ func (x *Formatter) getCellType(fmtID uint16) (CellType, bool) {
 }
 
 var (
-	minsMatch = regexp.MustCompile("h.*m.*s")
-	nonEsc    = regexp.MustCompile(`([^"]|^)"`)
-	squash    = regexp.MustCompile(`[*_].`)
-	fixEsc    = regexp.MustCompile(`\\(.)`)
+	nonEsc = regexp.MustCompile(`([^"]|^)"`)
+	squash = regexp.MustCompile(`[*_].`)
+	fixEsc = regexp.MustCompile(`\\(.)`)
 
 	formatMatchBrackets    = regexp.MustCompile(`\[[^\]]*\]`)
 	formatMatchTextLiteral = regexp.MustCompile(`"[^"]*"`)
@@ -93,42 +92,12 @@ func makeFormatter(s string) (FmtFunc, CellType) {
 
 	// escaped characters, and quoted text
 	s2 := fixEsc.ReplaceAllString(s, "")
-	s2 = formatMatchTextLiteral.ReplaceAllString(s, "")
+	s2 = formatMatchTextLiteral.ReplaceAllString(s2, "")
+	s2 = squash.ReplaceAllString(s2, "")
 
-	if strings.ContainsAny(s2, "ymdhs") {
+	if strings.ContainsAny(s2, "ymdhsYMDHS") {
 		// it's a date/time format
-
-		if loc := minsMatch.FindStringIndex(s); loc != nil {
-			// m or mm in loc[0]:loc[1] is a minute format
-			inner := s[loc[0]:loc[1]]
-			inner = strings.Replace(inner, "mm", "04", 1)
-			inner = strings.Replace(inner, "m", "4", 1)
-			s = s[:loc[0]] + inner + s[loc[1]:]
-		}
-		dfreps := [][]string{
-			{"hh", "15"}, {"h", "15"},
-			{"ss", "05"}, {"s", "5"},
-			{"mmmmm", "Jan"}, // super ambiguous, replace with 3-letter month
-			{"mmmm", "January"}, {"mmm", "Jan"},
-			{"mm", "01"}, {"m", "1"},
-			{"dddd", "Monday"}, {"ddd", "Mon"},
-			{"dd", "02"}, {"d", "2"},
-			{"yyyy", "2006"}, {"yy", "06"},
-		}
-		if strings.Contains(s, "AM") || strings.Contains(s, "PM") {
-			dfreps[0][1] = "03"
-			dfreps[1][1] = "3"
-		}
-		for _, dfr := range dfreps {
-			s = strings.Replace(s, dfr[0], dfr[1], 1)
-		}
-
-		s = nonEsc.ReplaceAllString(s, `$1`)
-		s = squash.ReplaceAllString(s, ``)
-		s = fixEsc.ReplaceAllString(s, `$1`)
-
-		//log.Printf("   made time formatter '%s'", s)
-		return timeFmtFunc(s), DateCell
+		return dateFormatFunc(s), DateCell
 	}
 
 	var ff FmtFunc
-- 
2.43.0


From 542f39ac4d76e3ab268541db7b87798b5bd93016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:28 +0000
Subject: [PATCH 58/61] fix: formats of elapsed time

The hours of [h]:mm:ss were left out, or shown within half a day by the
built-in format.
---
 commonxl/dates.go   | 32 ++++++++++++++++++++++++--------
 commonxl/fmt.go     |  4 ++--
 commonxl/formats.go |  8 +++++++-
 3 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/commonxl/dates.go b/commonxl/dates.go
index 8adedc3..16c0e57 100644
--- a/commonxl/dates.go
+++ b/commonxl/dates.go
@@ -39,13 +39,16 @@ func (x *Formatter) ConvertToDate(val float64) time.Time {
 		return time.Date(year, month, day, 0, 0, 0, 0, time.UTC).Add(t)
 	}
 	frac := val - float64(v)
-	date := time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC)
+	t := timeOfDay(frac)
+	return x.epoch().AddDate(0, 0, v).Add(t)
+}
+
+// epoch is the date with the number 0.
+func (x *Formatter) epoch() time.Time {
 	if (x.flags & fMode1904) == 0 {
-		date = time.Date(1899, 12, 30, 0, 0, 0, 0, time.UTC)
+		return time.Date(1899, 12, 30, 0, 0, 0, 0, time.UTC)
 	}
-
-	t := timeOfDay(frac)
-	return date.AddDate(0, 0, v).Add(t)
+	return time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC)
 }
 
 // timeOfDay converts a fraction of a day, which is seldom exact.
@@ -70,6 +73,7 @@ func timeFmtFunc(f string) FmtFunc {
 }
 
 var (
+	elapsed          = regexp.MustCompile(`^(?i)\[(h+|m+|s+)\]`)
 	amPM             = regexp.MustCompile("(?i)am/pm|a/p")
 	fractionOfSecond = regexp.MustCompile(`^\.0+`)
 )
@@ -78,7 +82,9 @@ var (
 func dateFormatFunc(code string) FmtFunc {
 	type part struct {
 		text   string // to be copied, or
-		layout string // of a part of the date
+		layout string // of a part of the date, or
+		unit   int64  // of elapsed time in seconds, with at least
+		digits int    // so many digits
 	}
 	var parts []part
 	layout := func(s string) {
@@ -97,6 +103,13 @@ func dateFormatFunc(code string) FmtFunc {
 			i += loc[1]
 			continue
 		}
+		if m := elapsed.FindString(code[i:]); m != "" {
+			last = m[1] | 0x20
+			unit := map[byte]int64{'h': 3600, 'm': 60, 's': 1}[last]
+			parts = append(parts, part{unit: unit, digits: len(m) - 2})
+			i += len(m)
+			continue
+		}
 		short := 1 // for numbers of two digits
 		if n > 1 {
 			short = 0
@@ -174,9 +187,12 @@ func dateFormatFunc(code string) FmtFunc {
 		}
 		s := ""
 		for _, p := range parts {
-			if p.layout != "" {
+			switch {
+			case p.unit > 0:
+				s += fmt.Sprintf("%0*d", p.digits, (t.Unix()-x.epoch().Unix())/p.unit)
+			case p.layout != "":
 				s += t.Format(p.layout)
-			} else {
+			default:
 				s += p.text
 			}
 		}
diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 621fbe9..d87814e 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -244,7 +244,7 @@ var goFormatters = map[uint16]FmtFunc{
 	21: timeFmtFunc(`15:04:05`),
 	22: timeFmtFunc(`1/2/06 15:04`),
 	45: timeFmtFunc(`04:05`),
-	46: timeFmtFunc(`3:04:05`),
+	46: dateFormatFunc(`[h]:mm:ss`),
 	47: timeFmtFunc(`0405.9`),
 	27: timeFmtFunc(`2006"年"1"月"`),
 	28: timeFmtFunc(`1"月"2"日"`),
@@ -269,7 +269,7 @@ var goFormatters = map[uint16]FmtFunc{
 	76: timeFmtFunc(`15:04:05`),
 	77: timeFmtFunc(`2/1/2006 15:04`),
 	78: timeFmtFunc(`04:05`),
-	79: timeFmtFunc(`15:04:05`),
+	79: dateFormatFunc(`[h]:mm:ss`),
 	80: timeFmtFunc(`04:05.9`),
 	81: timeFmtFunc(`2/1/06`),
 	18: timeFmtFunc(`3:04 PM`),
diff --git a/commonxl/formats.go b/commonxl/formats.go
index 4505001..0b24860 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -69,13 +69,19 @@ var (
 	fixEsc = regexp.MustCompile(`\\(.)`)
 
 	formatMatchBrackets    = regexp.MustCompile(`\[[^\]]*\]`)
+	formatMatchElapsed     = regexp.MustCompile(`^(?i)\[(h+|m+|s+)\]$`)
 	formatMatchTextLiteral = regexp.MustCompile(`"[^"]*"`)
 )
 
 func makeFormatter(s string) (FmtFunc, CellType) {
 	//log.Printf("makeFormatter('%s')", s)
 	// remove any coloring marks
-	s = formatMatchBrackets.ReplaceAllString(s, "")
+	s = formatMatchBrackets.ReplaceAllStringFunc(s, func(m string) string {
+		if formatMatchElapsed.MatchString(m) {
+			return m
+		}
+		return ""
+	})
 	if strings.Contains(s, ";") {
 		parts := strings.Split(s, ";")
 		posFF, ctypePos := makeFormatter(parts[0])
-- 
2.43.0


From 54713b7a411f06823afdd80e22d4d8cd345d87a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:13 +0000
Subject: [PATCH 59/61] fix: built-in date formats

The names of units in the Chinese ones were shown with their quotes, two showed
the day as the month, and tenths of seconds were left out when zero.
---
 commonxl/fmt.go | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index d87814e..db91a60 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -245,22 +245,22 @@ var goFormatters = map[uint16]FmtFunc{
 	22: timeFmtFunc(`1/2/06 15:04`),
 	45: timeFmtFunc(`04:05`),
 	46: dateFormatFunc(`[h]:mm:ss`),
-	47: timeFmtFunc(`0405.9`),
-	27: timeFmtFunc(`2006"年"1"月"`),
-	28: timeFmtFunc(`1"月"2"日"`),
-	29: timeFmtFunc(`1"月"2"日"`),
+	47: timeFmtFunc(`0405.0`),
+	27: timeFmtFunc(`2006年1月`),
+	28: timeFmtFunc(`1月2日`),
+	29: timeFmtFunc(`1月2日`),
 	30: timeFmtFunc(`1-2-06`),
-	31: timeFmtFunc(`2006"年"1"月"2"日"`),
-	32: timeFmtFunc(`15"时"04"分"`),
-	33: timeFmtFunc(`15"时"04"分"05"秒"`),
-	36: timeFmtFunc(`2006"年"2"月"`),
-	50: timeFmtFunc(`2006"年"2"月"`),
-	51: timeFmtFunc(`1"月"2"日"`),
-	52: timeFmtFunc(`2006"年"1"月"`),
-	53: timeFmtFunc(`1"月"2"日"`),
-	54: timeFmtFunc(`1"月"2"日"`),
-	57: timeFmtFunc(`2006"年"1"月"`),
-	58: timeFmtFunc(`1"月"2"日"`),
+	31: timeFmtFunc(`2006年1月2日`),
+	32: timeFmtFunc(`15时04分`),
+	33: timeFmtFunc(`15时04分05秒`),
+	36: timeFmtFunc(`2006年1月`),
+	50: timeFmtFunc(`2006年1月`),
+	51: timeFmtFunc(`1月2日`),
+	52: timeFmtFunc(`2006年1月`),
+	53: timeFmtFunc(`1月2日`),
+	54: timeFmtFunc(`1月2日`),
+	57: timeFmtFunc(`2006年1月`),
+	58: timeFmtFunc(`1月2日`),
 	71: timeFmtFunc(`2/1/2006`),
 	72: timeFmtFunc(`2-Jan-06`),
 	73: timeFmtFunc(`2-Jan`),
@@ -270,15 +270,15 @@ var goFormatters = map[uint16]FmtFunc{
 	77: timeFmtFunc(`2/1/2006 15:04`),
 	78: timeFmtFunc(`04:05`),
 	79: dateFormatFunc(`[h]:mm:ss`),
-	80: timeFmtFunc(`04:05.9`),
+	80: timeFmtFunc(`04:05.0`),
 	81: timeFmtFunc(`2/1/06`),
 	18: timeFmtFunc(`3:04 PM`),
 	19: timeFmtFunc(`3:04:05 PM`),
 
-	34: cnTimeFmtFunc(`PM 3"时"04"分"`),
-	35: cnTimeFmtFunc(`PM 3"时"04"分"05"秒"`),
-	55: cnTimeFmtFunc(`PM 3"时"04"分"`),
-	56: cnTimeFmtFunc(`PM 3"时"04"分"05"秒`),
+	34: cnTimeFmtFunc(`PM 3时04分`),
+	35: cnTimeFmtFunc(`PM 3时04分05秒`),
+	55: cnTimeFmtFunc(`PM 3时04分`),
+	56: cnTimeFmtFunc(`PM 3时04分05秒`),
 
 	12: fracFmtFunc(1),
 	13: fracFmtFunc(2),
-- 
2.43.0


From cb920c3b56ba257850eb5e46cb9560eff897735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:42 +0000
Subject: [PATCH 60/61] fix: custom number formats with optional digits,
 leading zeros, and text

Digits shown only if not zero (0.##, #.00) and leading zeros (00000) were
ignored, and the text of a format ("EUR", "p.a.", "a;b") was taken for
an exponent, a decimal point, or a section.
---
 commonxl/fmt.go     |  29 ++++++++++
 commonxl/formats.go | 130 ++++++++++++++++++++++----------------------
 2 files changed, 94 insertions(+), 65 deletions(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index db91a60..0d8bcd3 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -158,6 +158,35 @@ func convertToFloat64(v interface{}) (float64, bool) {
 	}
 }
 
+// digitsFunc pads numbers with zeros, and drops the digits which are shown
+// only if they are not zero.
+func digitsFunc(ff FmtFunc, minWhole, minDecimals int) FmtFunc {
+	return func(x *Formatter, v interface{}) string {
+		if s, ok := v.(string); ok {
+			return s
+		}
+		s := ff(x, v)
+		sign := ""
+		if strings.HasPrefix(s, "-") {
+			sign, s = "-", s[1:]
+		}
+		n := len(s)
+		if i := strings.IndexByte(s, '.'); i >= 0 {
+			for len(s)-i-1 > minDecimals && s[len(s)-1] == '0' {
+				s = s[:len(s)-1]
+			}
+			n = i
+		}
+		if minWhole == 0 && s[:n] == "0" {
+			s = s[n:]
+		}
+		for ; n < minWhole; n++ {
+			s = "0" + s
+		}
+		return sign + s
+	}
+}
+
 // replaces a zero with a dash
 func zeroDashFunc(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
diff --git a/commonxl/formats.go b/commonxl/formats.go
index 0b24860..03b087a 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -64,13 +64,11 @@ func (x *Formatter) getCellType(fmtID uint16) (CellType, bool) {
 }
 
 var (
-	nonEsc = regexp.MustCompile(`([^"]|^)"`)
-	squash = regexp.MustCompile(`[*_].`)
-	fixEsc = regexp.MustCompile(`\\(.)`)
-
-	formatMatchBrackets    = regexp.MustCompile(`\[[^\]]*\]`)
-	formatMatchElapsed     = regexp.MustCompile(`^(?i)\[(h+|m+|s+)\]$`)
-	formatMatchTextLiteral = regexp.MustCompile(`"[^"]*"`)
+	formatMatchBrackets = regexp.MustCompile(`\[[^\]]*\]`)
+	formatMatchElapsed  = regexp.MustCompile(`^(?i)\[(h+|m+|s+)\]$`)
+	formatMatchText     = regexp.MustCompile(`"[^"]*"|[\\_*](?s:.)`)
+	formatMatchExponent = regexp.MustCompile(`[eE]+[+-]0+`)
+	formatMatchDigits   = regexp.MustCompile(`[0#?,.]+`)
 )
 
 func makeFormatter(s string) (FmtFunc, CellType) {
@@ -82,8 +80,16 @@ func makeFormatter(s string) (FmtFunc, CellType) {
 		}
 		return ""
 	})
-	if strings.Contains(s, ";") {
-		parts := strings.Split(s, ";")
+	// hide escaped characters, padding, and quoted text
+	s2 := formatMatchText.ReplaceAllStringFunc(s, func(m string) string {
+		return strings.Repeat("\x00", len(m))
+	})
+	if strings.Contains(s2, ";") {
+		var parts []string
+		for _, ps := range strings.Split(s2, ";") {
+			parts = append(parts, s[:len(ps)])
+			s = strings.TrimPrefix(s[len(ps):], ";")
+		}
 		posFF, ctypePos := makeFormatter(parts[0])
 		rem := make([]FmtFunc, len(parts)-1)
 		for i, ps := range parts[1:] {
@@ -96,87 +102,81 @@ func makeFormatter(s string) (FmtFunc, CellType) {
 		return switchFmtFunc(posFF, rem...), ctypePos
 	}
 
-	// escaped characters, and quoted text
-	s2 := fixEsc.ReplaceAllString(s, "")
-	s2 = formatMatchTextLiteral.ReplaceAllString(s2, "")
-	s2 = squash.ReplaceAllString(s2, "")
-
 	if strings.ContainsAny(s2, "ymdhsYMDHS") {
 		// it's a date/time format
 		return dateFormatFunc(s), DateCell
 	}
+	if strings.EqualFold(s, "general") {
+		return identFunc, FloatCell
+	}
+
+	verb := "f"
+	if loc := formatMatchExponent.FindStringIndex(s2); loc != nil {
+		verb = "E"
+		s, s2 = s[:loc[0]]+s[loc[1]:], s2[:loc[0]]+s2[loc[1]:]
+	}
+	loc := formatMatchDigits.FindStringIndex(s2)
+	if loc == nil {
+		s = unquote(s)
+		if s == "@" {
+			return identFunc, StringCell
+		}
+		//log.Printf("   added static ('%s')", s)
+		return staticFmtFunc(s), StringCell
+	}
 
+	mul := 1
+	if strings.Contains(s2, "%") {
+		mul = 100
+	}
+	digits := strings.ReplaceAll(s2[loc[0]:loc[1]], ",", "")
+	whole, decimals := digits, ""
 	var ff FmtFunc
 	var ctype CellType
-	if strings.ContainsAny(s, ".Ee") {
-		verb := "f"
-		if strings.ContainsAny(s, "Ee") {
-			verb = "E"
-		}
-		s = regexp.MustCompile("[eE]+[+-]0+").ReplaceAllString(s, "")
-		s2 := strings.ReplaceAll(s, ",", "")
-		i1 := strings.IndexAny(s2, "0")
-		i2 := strings.IndexByte(s2, '.')
-		i3 := strings.LastIndexAny(s2, "0.")
-		mul := 1
-		if strings.Contains(s2, "%") {
-			mul = 100
+	if i := strings.IndexByte(digits, '.'); i >= 0 || verb == "E" {
+		if i >= 0 {
+			whole, decimals = digits[:i], strings.ReplaceAll(digits[i+1:], ".", "")
 		}
-		sf := fmt.Sprintf("%%%d.%d%s", i3-i1, i3-i2, verb)
-		//log.Printf("   made float formatter '%s'", sf)
-		ff = sprintfFunc(sf, mul)
+		ff = sprintfFunc(fmt.Sprintf("%%.%d%s", len(decimals), verb), mul)
 		ctype = FloatCell
 	} else {
-		s2 := strings.ReplaceAll(s, ",", "")
-		i1 := strings.IndexAny(s2, "0")
-		i2 := strings.LastIndexAny(s2, "0.")
-		mul := 1
-		if strings.Contains(s2, "%") {
-			mul = 100
-		}
-		sf := fmt.Sprintf("%%%dd", i2-i1)
-		if (i2 - i1) == 0 {
-			sf = "%d"
-		}
-		//log.Printf("   made int formatter '%s'", sf)
-		ff = sprintfFunc(sf, mul)
+		ff = sprintfFunc("%d", mul)
 		ctype = IntegerCell
 		if mul != 1 {
 			ctype = FloatCell
 		}
 	}
+	if verb == "f" {
+		ff = digitsFunc(ff, strings.Count(whole, "0"), strings.LastIndexByte(decimals, '0')+1)
+	}
 
-	if strings.Contains(s, ",") {
+	if strings.Contains(s2[loc[0]:loc[1]], ",") {
 		ff = addCommas(ff)
 		//log.Printf("   added commas")
 	}
 
-	surReg := regexp.MustCompile(`[0#?,.]+`)
-	prepost := surReg.Split(s, 2)
-	if len(prepost) > 0 && len(prepost[0]) > 0 {
-		prepost[0] = nonEsc.ReplaceAllString(prepost[0], `$1`)
-		prepost[0] = squash.ReplaceAllString(prepost[0], ``)
-		prepost[0] = fixEsc.ReplaceAllString(prepost[0], `$1`)
-	}
-	if len(prepost) == 1 {
-		if prepost[0] == "@" {
-			return identFunc, StringCell
-		}
-		//log.Printf("   added static ('%s')", prepost[0])
-		return staticFmtFunc(prepost[0]), StringCell
-	}
-	if len(prepost[0]) > 0 || len(prepost[1]) > 0 {
-		prepost[1] = nonEsc.ReplaceAllString(prepost[1], `$1`)
-		prepost[1] = squash.ReplaceAllString(prepost[1], ``)
-		prepost[1] = fixEsc.ReplaceAllString(prepost[1], `$1`)
-
-		ff = surround(prepost[0], ff, prepost[1])
-		//log.Printf("   added surround ('%s' ... '%s')", prepost[0], prepost[1])
+	pre, post := unquote(s[:loc[0]]), unquote(s[loc[1]:])
+	if pre != "" || post != "" {
+		ff = surround(pre, ff, post)
+		//log.Printf("   added surround ('%s' ... '%s')", pre, post)
 	}
 
 	return ff, ctype
 }
 
+// unquote returns the text of a part of a format.
+func unquote(s string) string {
+	return formatMatchText.ReplaceAllStringFunc(s, func(m string) string {
+		switch m[0] {
+		case '"':
+			return m[1 : len(m)-1]
+		case '\\':
+			return m[1:]
+		}
+		return "" // padding
+	})
+}
+
 // Get the number format func to use for formatting values,
 // it returns false when fmtID is unknown.
 func (x *Formatter) Get(fmtID uint16) (FmtFunc, bool) {
-- 
2.43.0


From 2ec50b48d3c331e215f5baf6d540433d4ef01f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:03 +0000
Subject: [PATCH 61/61] fix: currency symbols of number formats were lost
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

[$€-407] shows the symbol, not only the locale.
---
 commonxl/formats.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 03b087a..928c85f 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -66,6 +66,7 @@ func (x *Formatter) getCellType(fmtID uint16) (CellType, bool) {
 var (
 	formatMatchBrackets = regexp.MustCompile(`\[[^\]]*\]`)
 	formatMatchElapsed  = regexp.MustCompile(`^(?i)\[(h+|m+|s+)\]$`)
+	formatMatchCurrency = regexp.MustCompile(`^\[\$([^"\-\]]+)(-[^\]]*)?\]$`)
 	formatMatchText     = regexp.MustCompile(`"[^"]*"|[\\_*](?s:.)`)
 	formatMatchExponent = regexp.MustCompile(`[eE]+[+-]0+`)
 	formatMatchDigits   = regexp.MustCompile(`[0#?,.]+`)
@@ -78,6 +79,9 @@ func makeFormatter(s string) (FmtFunc, CellType) {
 		if formatMatchElapsed.MatchString(m) {
 			return m
 		}
+		if cur := formatMatchCurrency.FindStringSubmatch(m); cur != nil {
+			return `"` + cur[1] + `"`
+		}
 		return ""
 	})
 	// hide escaped characters, padding, and quoted text
-- 
2.43.0

