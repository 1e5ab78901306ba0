From 3bc790c6fc538c8e021c27dde786518b0d92e6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:45 +0000
Subject: [PATCH 01/34] fix: do not crash on executables without relocations
 when .rsrc is not the last section

---
 exe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index 9422d01..e168fb9 100644
--- a/exe.go
+++ b/exe.go
@@ -374,7 +374,7 @@ func (pew *peWriter) requiresNewSection() bool {
 	if endOfRSRC >= pew.src.virtEnd {
 		return false
 	}
-	if pew.relocHdr.VirtualAddress == endOfRSRC &&
+	if pew.relocHdr != nil && pew.relocHdr.VirtualAddress == endOfRSRC &&
 		pew.roundVirt(pew.relocHdr.VirtualAddress+pew.relocHdr.VirtualSize) >= pew.src.virtEnd {
 		return false
 	}
-- 
2.43.0


From c50a9127655e9712aeeacac7979977572e6390f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:46 +0000
Subject: [PATCH 02/34] fix: check there is room for a section header when
 .rsrc has to be moved to a new section

---
 exe.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/exe.go b/exe.go
index e168fb9..19df4af 100644
--- a/exe.go
+++ b/exe.go
@@ -310,9 +310,6 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	if pew.src.fileSize < int64(pew.src.dataEnd) {
 		return nil, io.ErrUnexpectedEOF
 	}
-	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
-		return nil, errors.New(errNoRoomForRSRC)
-	}
 
 	if pew.requiresNewSection() {
 		// Play it safe, abandon the existing .rsrc section and create a new one.
@@ -320,6 +317,10 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		pew.rsrcHdr = nil
 	}
 
+	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
+		return nil, errors.New(errNoRoomForRSRC)
+	}
+
 	pew.updateHeaders()
 
 	return &pew, nil
-- 
2.43.0


From 09a17e10301cb251744ca5625b9dd1452c161f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:46 +0000
Subject: [PATCH 03/34] fix: keep data appended to the executable when adding a
 .rsrc section

---
 exe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exe.go b/exe.go
index 19df4af..b640a07 100644
--- a/exe.go
+++ b/exe.go
@@ -320,6 +320,10 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
 		return nil, errors.New(errNoRoomForRSRC)
 	}
+	if pew.rsrcHdr == nil {
+		// The new section will be inserted after every existing section, right before appended data.
+		pew.src.rsrcEnd = int64(pew.src.dataEnd)
+	}
 
 	pew.updateHeaders()
 
-- 
2.43.0


From 53a8260981798a8fe7dc88c2113a0fe844f503a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:21 +0000
Subject: [PATCH 04/34] fix: ignore the file position of sections that have no
 data in the file

---
 exe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index b640a07..8e9d815 100644
--- a/exe.go
+++ b/exe.go
@@ -354,7 +354,7 @@ func (pew *peWriter) fillSectionsInfo() error {
 		if pew.h.sections[i].VirtualAddress+pew.h.sections[i].VirtualSize > pew.src.virtEnd {
 			pew.src.virtEnd = pew.h.sections[i].VirtualAddress + pew.h.sections[i].VirtualSize
 		}
-		if pew.h.sections[i].Characteristics&pe.IMAGE_SCN_CNT_UNINITIALIZED_DATA != 0 {
+		if pew.h.sections[i].Characteristics&pe.IMAGE_SCN_CNT_UNINITIALIZED_DATA != 0 || pew.h.sections[i].SizeOfRawData == 0 {
 			// Exclude sections containing uninitialized data from file offset
 			// calculations, as they do not occupy any data in the file.
 			continue
-- 
2.43.0


From f859491137a9e49c1dc27cbce3a00a41886a3abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 05/34] fix: keep the certificate entry right when the last
 section in memory is not the last one in the file

---
 exe.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index 8e9d815..13a52f1 100644
--- a/exe.go
+++ b/exe.go
@@ -440,7 +440,8 @@ func (pew *peWriter) updateHeaders() {
 	}
 
 	if pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress >= pew.src.dataEnd {
-		pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress += lastSection.PointerToRawData + lastSection.SizeOfRawData - pew.src.dataEnd
+		// Everything that follows the .rsrc section in the source file will be written right after the new .rsrc section.
+		pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress += pew.rsrcHdr.PointerToRawData + pew.rsrcHdr.SizeOfRawData - uint32(pew.src.rsrcEnd)
 	}
 
 	pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_RESOURCE].VirtualAddress = pew.rsrcHdr.VirtualAddress
-- 
2.43.0


From 741224e3d9fc001b6ba901a4235fc1ecb60ebf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 06/34] fix: do not truncate sections when removing a signature
 that overlaps them

---
 exe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exe.go b/exe.go
index 13a52f1..d1cb9f0 100644
--- a/exe.go
+++ b/exe.go
@@ -310,6 +310,10 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	if pew.src.fileSize < int64(pew.src.dataEnd) {
 		return nil, io.ErrUnexpectedEOF
 	}
+	if pew.src.fileSize-pew.src.sigSize < int64(pew.src.dataEnd) {
+		// This signature overlaps section data, it can't be removed from the file.
+		pew.src.sigSize = 0
+	}
 
 	if pew.requiresNewSection() {
 		// Play it safe, abandon the existing .rsrc section and create a new one.
-- 
2.43.0


From 82f059942122ca168fa08768aad15cc3f32347f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:29 +0000
Subject: [PATCH 07/34] fix: do not count the new .rsrc section twice in
 SizeOfInitializedData

---
 exe.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/exe.go b/exe.go
index d1cb9f0..5536b04 100644
--- a/exe.go
+++ b/exe.go
@@ -422,7 +422,6 @@ func (pew *peWriter) updateHeaders() {
 		pew.h.file.NumberOfSections++
 		pew.h.length += sizeOfSectionHeader
 		lastSection = pew.rsrcHdr
-		pew.h.opt.setSizeOfInitializedData(pew.h.opt.getSizeOfInitializedData() + rsrcLen)
 	} else {
 		oldSize = pew.rsrcHdr.SizeOfRawData
 		virtDelta = pew.roundVirt(rsrcLen) - pew.roundVirt(pew.rsrcHdr.VirtualSize)
-- 
2.43.0


From 48cef8f0b8a930e6943859187f9b260a1ca9e894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:51 +0000
Subject: [PATCH 08/34] fix: refuse a PE image without optional header instead
 of crashing

---
 exe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index 5536b04..0057aa4 100644
--- a/exe.go
+++ b/exe.go
@@ -640,7 +640,7 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	if err != nil {
 		return nil, err
 	}
-	if optHdr[0] != 11 {
+	if len(optHdr) < 2 || optHdr[0] != 11 {
 		return nil, errors.New(errUnknownPE)
 	}
 	switch optHdr[1] {
-- 
2.43.0


From cfcd80d98e9c6ad53ac3d572f1f2a28b58a2a65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:50 +0000
Subject: [PATCH 09/34] fix: do not crash on a header with 65535 sections

---
 exe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index 0057aa4..63a30a5 100644
--- a/exe.go
+++ b/exe.go
@@ -667,7 +667,7 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	h.dirs = make([]pe.DataDirectory, numDirs)
 	binaryRead(optRead, &h.dirs)
 
-	h.sections = make([]pe.SectionHeader32, h.file.NumberOfSections, h.file.NumberOfSections+1)
+	h.sections = make([]pe.SectionHeader32, h.file.NumberOfSections, int(h.file.NumberOfSections)+1)
 	err = binaryRead(r, &h.sections)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 652709d1c47e1a9256447577d0e9bedfb611a92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:17 +0000
Subject: [PATCH 10/34] fix: refuse a PE image with a null alignment instead of
 crashing

---
 exe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index 63a30a5..acffcef 100644
--- a/exe.go
+++ b/exe.go
@@ -657,7 +657,7 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 		return nil, err
 	}
 	numDirs := int(h.opt.getNumberOfRvaAndSizes())
-	if numDirs < 6 {
+	if numDirs < 6 || h.opt.getFileAlignment() == 0 || h.opt.getSectionAlignment() == 0 {
 		return nil, errors.New(errUnknownPE)
 	}
 	if int(h.file.SizeOfOptionalHeader) != binary.Size(h.opt)+numDirs*8 {
-- 
2.43.0


From 8ed768d14b79d9efd26c2e1c9ccde5b1427196e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:17 +0000
Subject: [PATCH 11/34] fix: refuse to patch a PE image that has no section
 data instead of writing 4 GB of zeroes

---
 exe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exe.go b/exe.go
index acffcef..4c69a3b 100644
--- a/exe.go
+++ b/exe.go
@@ -371,6 +371,10 @@ func (pew *peWriter) fillSectionsInfo() error {
 		}
 	}
 	pew.src.virtEnd = pew.roundVirt(pew.src.virtEnd)
+	if pew.src.dataEnd == 0 {
+		// No section has any data, there is no place for a new one.
+		return errors.New(errNoRoomForRSRC)
+	}
 
 	return nil
 }
-- 
2.43.0


From d40a41cf0939d9e009fc2e179fe07c07368b1a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:59 +0000
Subject: [PATCH 12/34] fix: refuse to patch a PE image whose sections lie
 outside of the file, even when their end overflows

---
 exe.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/exe.go b/exe.go
index 4c69a3b..727cdb0 100644
--- a/exe.go
+++ b/exe.go
@@ -307,9 +307,6 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		return nil, err
 	}
 
-	if pew.src.fileSize < int64(pew.src.dataEnd) {
-		return nil, io.ErrUnexpectedEOF
-	}
 	if pew.src.fileSize-pew.src.sigSize < int64(pew.src.dataEnd) {
 		// This signature overlaps section data, it can't be removed from the file.
 		pew.src.sigSize = 0
@@ -363,6 +360,9 @@ func (pew *peWriter) fillSectionsInfo() error {
 			// calculations, as they do not occupy any data in the file.
 			continue
 		}
+		if int64(pew.h.sections[i].PointerToRawData)+int64(pew.h.sections[i].SizeOfRawData) > pew.src.fileSize {
+			return io.ErrUnexpectedEOF
+		}
 		if pew.h.sections[i].PointerToRawData < pew.src.dataOffset {
 			pew.src.dataOffset = pew.h.sections[i].PointerToRawData
 		}
-- 
2.43.0


From 78246d82af8a791ef89ff70c35a60eb1c71ef4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:46 +0000
Subject: [PATCH 13/34] fix: patch executables whose .rsrc section has no data,
 or is marked as uninitialized

---
 exe.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index 727cdb0..a97f77d 100644
--- a/exe.go
+++ b/exe.go
@@ -355,7 +355,8 @@ func (pew *peWriter) fillSectionsInfo() error {
 		if pew.h.sections[i].VirtualAddress+pew.h.sections[i].VirtualSize > pew.src.virtEnd {
 			pew.src.virtEnd = pew.h.sections[i].VirtualAddress + pew.h.sections[i].VirtualSize
 		}
-		if pew.h.sections[i].Characteristics&pe.IMAGE_SCN_CNT_UNINITIALIZED_DATA != 0 || pew.h.sections[i].SizeOfRawData == 0 {
+		if pew.h.sections[i].Characteristics&pe.IMAGE_SCN_CNT_UNINITIALIZED_DATA != 0 && &pew.h.sections[i] != pew.rsrcHdr ||
+			pew.h.sections[i].SizeOfRawData == 0 {
 			// Exclude sections containing uninitialized data from file offset
 			// calculations, as they do not occupy any data in the file.
 			continue
@@ -383,6 +384,10 @@ func (pew *peWriter) requiresNewSection() bool {
 	if pew.rsrcHdr == nil {
 		return false
 	}
+	if pew.rsrcHdr.SizeOfRawData == 0 {
+		// It has no place in the file.
+		return true
+	}
 	endOfRSRC := pew.roundVirt(pew.rsrcHdr.VirtualAddress + pew.rsrcHdr.VirtualSize)
 	if endOfRSRC >= pew.src.virtEnd {
 		return false
-- 
2.43.0


From ca91fe5cce6200bb6ceac64a8d7ff3aa76f4e9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:57 +0000
Subject: [PATCH 14/34] fix: read every entry of a resource directory table
 that has more than 65535 of them

---
 rsrc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsrc.go b/rsrc.go
index daf302f..892fa7b 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -503,7 +503,7 @@ func (de dirEntry) readDirTable(section *bytes.Reader) ([]dirEntry, error) {
 		return nil, err
 	}
 
-	dir := make([]resourceDirectoryIDEntry, table.NumberOfNameEntries+table.NumberOfIDEntries)
+	dir := make([]resourceDirectoryIDEntry, int(table.NumberOfNameEntries)+int(table.NumberOfIDEntries))
 	err = binaryRead(section, &dir)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 413eef9e7b638c912f3015125e54ea29cf2798f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:48 +0000
Subject: [PATCH 15/34] fix: order languages again when they changed after a
 resource set was walked or written

---
 rsrc.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rsrc.go b/rsrc.go
index 892fa7b..2e0fc18 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -244,16 +244,18 @@ func (te *typeEntry) size() int {
 // order orders ids and names following the specification, and saves them in orderedKeys.
 // It calls resourceEntry.order() too, for each resource entry it owns.
 func (te *typeEntry) order() {
+	// Order LCIDs in every resource, they may have changed since identifiers were ordered
+	for _, re := range te.resources {
+		re.order()
+	}
+
 	if te.orderedKeys != nil {
 		return
 	}
 
 	te.orderedKeys = make([]Identifier, 0, len(te.resources))
-	for ident, re := range te.resources {
+	for ident := range te.resources {
 		te.orderedKeys = append(te.orderedKeys, ident)
-
-		// Order LCIDs in every resource
-		re.order()
 	}
 
 	// Names in case sensitive ascending order, then IDs in ascending order
-- 
2.43.0


From e8d6df33387d8d9a63483689f7a258fd7615b445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:58 +0000
Subject: [PATCH 16/34] fix: do not crash on a version resource whose last
 string has no value and is not padded

---
 version/binary.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/version/binary.go b/version/binary.go
index 4799cf4..0a2ddf7 100644
--- a/version/binary.go
+++ b/version/binary.go
@@ -374,11 +374,11 @@ func readString(data []byte, pos *int) (string, error) {
 }
 
 func readStringWithLength(data []byte, pos *int, length int) (string, error) {
-	data = data[*pos:]
-
 	if length == 0 {
 		return "", nil
 	}
+
+	data = data[*pos:]
 	if length < 0 || length > len(data)/2 {
 		return "", errors.New(errInvalidStringLength)
 	}
-- 
2.43.0


From ed871433e6db2ec5dc398225dc292a13fadb37ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:45 +0000
Subject: [PATCH 17/34] fix: store and read version timestamps of years before
 1678 or after 2262

---
 version/timestamp.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/version/timestamp.go b/version/timestamp.go
index 9b34d00..9251829 100644
--- a/version/timestamp.go
+++ b/version/timestamp.go
@@ -8,13 +8,17 @@ import "time"
 const unixEpoch = 0x019DB1DED53E8000
 
 // Windows timestamp is in "hecto-nanoseconds" (100 ns)
-const tsUnitToNano = 100
+const (
+	tsUnitToNano    = 100
+	tsUnitPerSecond = 10000000
+)
 
 func timeToTimestamp(t time.Time) (uint32, uint32) {
 	if t.IsZero() {
 		return 0, 0
 	}
-	ts := t.UnixNano()/tsUnitToNano + unixEpoch
+	// Not UnixNano: it only covers years 1678 to 2262
+	ts := t.Unix()*tsUnitPerSecond + int64(t.Nanosecond()/tsUnitToNano) + unixEpoch
 	return uint32(uint64(ts) >> 32), uint32(ts)
 }
 
@@ -22,5 +26,6 @@ func timestampToTime(ms uint32, ls uint32) time.Time {
 	if ms == 0 && ls == 0 {
 		return time.Time{}
 	}
-	return time.Unix(0, int64((uint64(ms)<<32|uint64(ls))-unixEpoch)*tsUnitToNano)
+	ts := int64((uint64(ms)<<32 | uint64(ls)) - unixEpoch)
+	return time.Unix(ts/tsUnitPerSecond, ts%tsUnitPerSecond*tsUnitToNano)
 }
-- 
2.43.0


From 3904e15e177b572a68eb74064dec7d8b4746769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 18/34] fix: refuse version JSON with invalid languages, keys
 or values, and ignore null tables

---
 version/json.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/version/json.go b/version/json.go
index ca1e1a5..ecc5007 100644
--- a/version/json.go
+++ b/version/json.go
@@ -2,7 +2,9 @@ package version
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -101,10 +103,18 @@ func (vi *Info) UnmarshalJSON(b []byte) error {
 
 	vi.lt = make(LangTable)
 	for h, v := range jvi.Info {
-		var k uint16
-		_, err := fmt.Sscanf(h, "%X", &k)
-		if err == nil {
-			vi.lt[k] = v
+		langID, err := strconv.ParseUint(h, 16, 16)
+		if err != nil || vi.lt[uint16(langID)] != nil {
+			return errors.New(errInvalidLangID)
+		}
+		if v == nil {
+			continue
+		}
+		vi.lt[uint16(langID)] = &StringTable{}
+		for key, value := range *v {
+			if err := vi.Set(uint16(langID), key, value); err != nil {
+				return err
+			}
 		}
 	}
 
-- 
2.43.0


From 282d0cfca69e355185ced1624b0deef31eb8a0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 19/34] fix: do not crash when asking for the main translation
 of an empty table

---
 version/version.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/version/version.go b/version/version.go
index 8997ac2..0801ba6 100644
--- a/version/version.go
+++ b/version/version.go
@@ -355,5 +355,8 @@ func (lt LangTable) GetMainTranslation() StringTable {
 			lang = k
 		}
 	}
-	return *lt[lang]
+	if main = lt[lang]; main == nil {
+		return nil
+	}
+	return *main
 }
-- 
2.43.0


From 21d9749726c0b4d2f8ff2672e1d1db371ac4bdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:58 +0000
Subject: [PATCH 20/34] fix: ignore missing structs when merging translations

---
 version/version.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/version/version.go b/version/version.go
index 0801ba6..ab87a80 100644
--- a/version/version.go
+++ b/version/version.go
@@ -209,6 +209,9 @@ func MergeTranslations(translations map[uint16]*Info) *Info {
 	vi.FileVersion = main.FileVersion
 
 	for langID, trans := range translations {
+		if trans == nil {
+			continue
+		}
 		st := trans.lt[langID]
 		if st == nil || len(*st) == 0 {
 			st = trans.lt[LangNeutral]
@@ -258,8 +261,8 @@ func findMainTranslation(translations map[uint16]*Info) *Info {
 	}
 
 	var lang uint16 = 0xFFFF
-	for k := range translations {
-		if k < lang {
+	for k, v := range translations {
+		if v != nil && k < lang {
 			lang = k
 		}
 	}
-- 
2.43.0


From 79c89c42e40d57b9e99916d23cf8abd4beccdad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 21/34] fix: do not leave orphan images when an icon or cursor
 is refused because of its identifier

---
 cursor.go | 5 +++++
 icon.go   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/cursor.go b/cursor.go
index c0ea9e6..140daa9 100644
--- a/cursor.go
+++ b/cursor.go
@@ -150,6 +150,11 @@ func (rs *ResourceSet) SetCursor(resID Identifier, cursor *Cursor) error {
 
 // SetCursorTranslation adds the cursor to a specific language in the resource set.
 func (rs *ResourceSet) SetCursorTranslation(resID Identifier, langID uint16, cursor *Cursor) error {
+	// Check it first, so that a failure doesn't leave images in the resource set
+	if err := checkIdentifier(resID); err != nil {
+		return err
+	}
+
 	b := &bytes.Buffer{}
 	binary.Write(b, binary.LittleEndian, cursorDirHeader{
 		Type:  2,
diff --git a/icon.go b/icon.go
index fb634d3..1250c11 100644
--- a/icon.go
+++ b/icon.go
@@ -156,6 +156,11 @@ func (rs *ResourceSet) SetIcon(resID Identifier, icon *Icon) error {
 //  2. First ID in ascending order
 //
 func (rs *ResourceSet) SetIconTranslation(resID Identifier, langID uint16, icon *Icon) error {
+	// Check it first, so that a failure doesn't leave images in the resource set
+	if err := checkIdentifier(resID); err != nil {
+		return err
+	}
+
 	b := &bytes.Buffer{}
 	binary.Write(b, binary.LittleEndian, iconDirHeader{
 		Type:  1,
-- 
2.43.0


From c2c1af74c33ef5be51162a3340ae7af19f080368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 22/34] fix: count the hot spot in the size of cursor images
 loaded from a CUR file

---
 cursor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cursor.go b/cursor.go
index 140daa9..521bcfe 100644
--- a/cursor.go
+++ b/cursor.go
@@ -87,7 +87,7 @@ func LoadCUR(cur io.ReadSeeker) (*Cursor, error) {
 				Height:     uint16(e.Height-1) + 1,
 				Planes:     planes,
 				BitCount:   bitCount,
-				BytesInRes: e.BytesInRes,
+				BytesInRes: e.BytesInRes + 4, // +4 for the hot spot
 			},
 			hotSpot: HotSpot{
 				X: e.XHotSpot,
-- 
2.43.0


From f78de7b95d82bb2b909f5f72bad8d927236e46a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 23/34] fix: do not crash on cursor images that are too short

---
 cursor.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cursor.go b/cursor.go
index 521bcfe..0a3a38d 100644
--- a/cursor.go
+++ b/cursor.go
@@ -207,6 +207,10 @@ func (rs *ResourceSet) GetCursorTranslation(resID Identifier, langID uint16) (*C
 		if img == nil {
 			return nil, errors.New(errCursorMissing)
 		}
+		if len(img) < 4 {
+			// There must be a hot spot
+			return nil, errors.New(errInvalidGroup)
+		}
 		g.images = append(g.images, cursorImage{
 			info:  entry.cursorInfo,
 			image: img[4:],
@@ -326,6 +330,10 @@ func readDIBBitCount(data []byte) (uint16, uint16, error) {
 		return 1, 32, nil
 	}
 
+	if len(data) < 16 {
+		return 0, 0, errors.New(errUnknownImageFormat)
+	}
+
 	hdrSize := uint32(data[3])<<24 | uint32(data[2])<<16 | uint32(data[1])<<8 | uint32(data[0])
 
 	if hdrSize != 40 && hdrSize != 108 && hdrSize != 124 {
-- 
2.43.0


From be6f634db67ec9fef76f1a4a3e89dd6ca50e312c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 24/34] fix: use the actual size of images when extracting an
 icon or a cursor

---
 cursor.go | 2 ++
 icon.go   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cursor.go b/cursor.go
index 0a3a38d..7526db1 100644
--- a/cursor.go
+++ b/cursor.go
@@ -211,6 +211,8 @@ func (rs *ResourceSet) GetCursorTranslation(resID Identifier, langID uint16) (*C
 			// There must be a hot spot
 			return nil, errors.New(errInvalidGroup)
 		}
+		// The size found in the group may be wrong
+		entry.BytesInRes = uint32(len(img))
 		g.images = append(g.images, cursorImage{
 			info:  entry.cursorInfo,
 			image: img[4:],
diff --git a/icon.go b/icon.go
index 1250c11..e32402e 100644
--- a/icon.go
+++ b/icon.go
@@ -214,6 +214,8 @@ func (rs *ResourceSet) GetIconTranslation(resID Identifier, langID uint16) (*Ico
 		if img == nil {
 			return nil, errors.New(errIconMissing)
 		}
+		// The size found in the group may be wrong
+		entry.BytesInRes = uint32(len(img))
 		icon.images = append(icon.images, iconImage{
 			info:  entry.iconInfo,
 			image: img,
-- 
2.43.0


From 9201530418d914eaf3a5a2536aba6ddde1b6cee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:01 +0000
Subject: [PATCH 25/34] fix: manifest text with carriage returns or control
 characters gives invalid or different XML

---
 manifest.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/manifest.go b/manifest.go
index 08c037f..6d3e64a 100644
--- a/manifest.go
+++ b/manifest.go
@@ -95,10 +95,10 @@ var manifestTemplate = `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <assembly xmlns="urn:schemas-microsoft-com:asm.v1" manifestVersion="1.0">
 {{- if .AssemblyName}}
 
-  <assemblyIdentity type="win32" name="{{.AssemblyName | html}}" version="{{.AssemblyVersion}}" processorArchitecture="*"/>
+  <assemblyIdentity type="win32" name="{{.AssemblyName | attr}}" version="{{.AssemblyVersion}}" processorArchitecture="*"/>
 {{- end}}
 {{- if .Description}}
-  <description>{{.Description | html}}</description>
+  <description>{{.Description | text}}</description>
 {{- end}}
 
   <compatibility xmlns="urn:schemas-microsoft-com:compatibility.v1">
@@ -224,7 +224,7 @@ func makeManifest(manifest AppManifest) []byte {
 	}
 
 	buf := &bytes.Buffer{}
-	tmpl := template.Must(template.New("manifest").Parse(manifestTemplate))
+	tmpl := template.Must(template.New("manifest").Funcs(xmlEscapers).Parse(manifestTemplate))
 	err := tmpl.Execute(buf, vars)
 	if err != nil {
 		panic(err)
@@ -233,6 +233,23 @@ func makeManifest(manifest AppManifest) []byte {
 	return buf.Bytes()
 }
 
+// xmlEscapers are template functions that escape text so that it is read back unchanged.
+//
+// Characters that cannot be represented in XML are replaced with U+FFFD.
+var xmlEscapers = template.FuncMap{
+	"attr": escapeXML,
+	"text": func(s string) (string, error) {
+		s, err := escapeXML(s)
+		return strings.ReplaceAll(s, "&#xA;", "\n"), err
+	},
+}
+
+func escapeXML(s string) (string, error) {
+	buf := &bytes.Buffer{}
+	err := xml.EscapeText(buf, []byte(s))
+	return buf.String(), err
+}
+
 type appManifestXML struct {
 	Identity struct {
 		Name    string `xml:"name,attr"`
-- 
2.43.0


From 5ebc8f98ae387962ea81e1a04092dfb6102b6eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 26/34] fix: out of range version numbers in manifests are read
 as 65535

---
 manifest.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/manifest.go b/manifest.go
index 6d3e64a..3a9d79f 100644
--- a/manifest.go
+++ b/manifest.go
@@ -319,8 +319,10 @@ func AppManifestFromXML(data []byte) (AppManifest, error) {
 		v = v[:4]
 	}
 	for i := range v {
-		n, _ := strconv.ParseUint(v[i], 10, 16)
-		m.Identity.Version[i] = uint16(n)
+		n, err := strconv.ParseUint(v[i], 10, 16)
+		if err == nil {
+			m.Identity.Version[i] = uint16(n)
+		}
 	}
 	m.Description = x.Description
 
-- 
2.43.0


From fa16f91d14336fd7e54743531444a6639e002a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 27/34] fix: supported OS in manifests only recognised in lower
 case without spaces

---
 manifest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/manifest.go b/manifest.go
index 3a9d79f..c7c8e1e 100644
--- a/manifest.go
+++ b/manifest.go
@@ -399,7 +399,7 @@ func manifestBool(s string) bool {
 }
 
 func osIDToEnum(osID string) SupportedOS {
-	switch osID {
+	switch manifestString(osID) {
 	case osWinVista:
 		return WinVistaAndAbove
 	case osWin7:
-- 
2.43.0


From d934eece057510985bc99c916ca4dd303853b8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:51 +0000
Subject: [PATCH 28/34] fix: failed seeks and read errors during the checksum
 pass are ignored

---
 exe.go    | 65 +++++++++++++++++++++++++++++++++++++++----------------
 winres.go | 15 ++++++++++---
 2 files changed, 58 insertions(+), 22 deletions(-)

diff --git a/exe.go b/exe.go
index a97f77d..4508b51 100644
--- a/exe.go
+++ b/exe.go
@@ -197,9 +197,15 @@ func (h *peOptionalHeader64) setCheckSum(c uint32) {
 }
 
 func extractRSRCSection(r io.ReadSeeker) ([]byte, uint32, error) {
-	r.Seek(0, io.SeekStart)
+	_, err := r.Seek(0, io.SeekStart)
+	if err != nil {
+		return nil, 0, err
+	}
 
-	fileSize := getSeekerSize(r)
+	fileSize, err := getSeekerSize(r)
+	if err != nil {
+		return nil, 0, err
+	}
 
 	h, err := readPEHeaders(r)
 	if err != nil {
@@ -226,7 +232,10 @@ func extractRSRCSection(r io.ReadSeeker) ([]byte, uint32, error) {
 	}
 	data := make([]byte, sec.SizeOfRawData)
 
-	r.Seek(int64(sec.PointerToRawData), io.SeekStart)
+	_, err = r.Seek(int64(sec.PointerToRawData), io.SeekStart)
+	if err != nil {
+		return nil, 0, err
+	}
 	err = readFull(r, data)
 	if err != nil {
 		return nil, 0, err
@@ -252,7 +261,10 @@ type peWriter struct {
 }
 
 func replaceRSRCSection(dst io.Writer, src io.ReadSeeker, rsrcData []byte, reloc []int, options exeOptions) error {
-	src.Seek(0, io.SeekStart)
+	_, err := src.Seek(0, io.SeekStart)
+	if err != nil {
+		return err
+	}
 
 	pew, err := preparePEWriter(src, rsrcData, options.authenticodeHandling)
 	if err != nil {
@@ -263,7 +275,10 @@ func replaceRSRCSection(dst io.Writer, src io.ReadSeeker, rsrcData []byte, reloc
 
 	if options.forceCheckSum || pew.h.hasChecksum {
 		c := peCheckSum{}
-		pew.writeEXE(&c)
+		err = pew.writeEXE(&c)
+		if err != nil {
+			return err
+		}
 		pew.h.opt.setCheckSum(c.Sum())
 	}
 
@@ -279,7 +294,10 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	pew.src.r = src
 	pew.rsrcData = rsrcData
 
-	pew.src.fileSize = getSeekerSize(src)
+	pew.src.fileSize, err = getSeekerSize(src)
+	if err != nil {
+		return nil, err
+	}
 
 	pew.h, err = readPEHeaders(src)
 	if err != nil {
@@ -578,13 +596,13 @@ func writeBlank(w io.Writer, length int64) error {
 	}
 
 	if ws, ok := w.(io.WriteSeeker); ok {
-		ws.Seek(length-1, io.SeekCurrent)
-		var b [1]byte
-		_, err := w.Write(b[:])
-		if err != nil {
+		_, err := ws.Seek(length-1, io.SeekCurrent)
+		if err == nil {
+			var b [1]byte
+			_, err = w.Write(b[:])
 			return err
 		}
-		return nil
+		// It may be a pipe: write every byte.
 	}
 
 	const bufLen = 0x100
@@ -628,7 +646,10 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	if err != nil {
 		return nil, err
 	}
-	r.Seek(h.stubLength, io.SeekStart)
+	_, err = r.Seek(h.stubLength, io.SeekStart)
+	if err != nil {
+		return nil, err
+	}
 
 	var sig [4]byte
 	err = readFull(r, sig[:])
@@ -690,18 +711,24 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	return &h, nil
 }
 
-func getSeekerSize(r io.ReadSeeker) int64 {
+func getSeekerSize(r io.ReadSeeker) (int64, error) {
 	switch r := r.(type) {
 	case *os.File:
 		stat, err := r.Stat()
 		if err == nil {
-			return stat.Size()
+			return stat.Size(), nil
 		}
 	case interface{ Size() int64 }:
-		return r.Size()
+		return r.Size(), nil
+	}
+	pos, err := r.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
+	}
+	size, err := r.Seek(0, io.SeekEnd)
+	if err != nil {
+		return 0, err
 	}
-	pos, _ := r.Seek(0, io.SeekCurrent)
-	size, _ := r.Seek(0, io.SeekEnd)
-	r.Seek(pos, io.SeekStart)
-	return size
+	_, err = r.Seek(pos, io.SeekStart)
+	return size, err
 }
diff --git a/winres.go b/winres.go
index dea9174..7caa3cf 100644
--- a/winres.go
+++ b/winres.go
@@ -346,12 +346,21 @@ func (rs *ResourceSet) WriteToEXE(dst io.Writer, src io.ReadSeeker, opt ...exeOp
 
 // IsSignedEXE helps knowing if an exe file is signed before encountering an error with WriteToEXE.
 func IsSignedEXE(exe io.ReadSeeker) (bool, error) {
-	pos, _ := exe.Seek(0, io.SeekCurrent)
-	exe.Seek(0, io.SeekStart)
+	pos, err := exe.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return false, err
+	}
+	_, err = exe.Seek(0, io.SeekStart)
+	if err != nil {
+		return false, err
+	}
 	h, err := readPEHeaders(exe)
-	exe.Seek(pos, io.SeekStart)
+	_, seekErr := exe.Seek(pos, io.SeekStart)
 	if err != nil {
 		return false, err
 	}
+	if seekErr != nil {
+		return false, seekErr
+	}
 	return len(h.dirs) > pe.IMAGE_DIRECTORY_ENTRY_SECURITY && h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress > 0, nil
 }
-- 
2.43.0


From d328885dea1960f756867e44f2b11a9e430f09e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:07 +0000
Subject: [PATCH 29/34] fix: NewIconFromResizedImage refuses sizes that are not
 in 1..256 before resizing

---
 icon.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/icon.go b/icon.go
index e32402e..853b7ad 100644
--- a/icon.go
+++ b/icon.go
@@ -52,6 +52,13 @@ func NewIconFromResizedImage(img image.Image, sizes []int) (*Icon, error) {
 
 	icon := Icon{}
 	for _, s := range sizes {
+		// Check it first: resizing to a negative or huge size would panic or run out of memory
+		if s < 1 {
+			return nil, errors.New(errInvalidImageDimensions)
+		}
+		if s > 256 {
+			return nil, errors.New(errImageTooBig)
+		}
 		if err := icon.addImage(resizeImage(img, s)); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From f05b616dd8f8d5e478686057abb46ec5e717cbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:20 +0000
Subject: [PATCH 30/34] fix: cursors made from images that only have the NRGBA
 color model lost their transparency

---
 icon.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/icon.go b/icon.go
index 853b7ad..a2c0bcb 100644
--- a/icon.go
+++ b/icon.go
@@ -6,7 +6,6 @@ import (
 	"errors"
 	"fmt"
 	"image"
-	"image/color"
 	"image/png"
 	"io"
 	"sort"
@@ -341,8 +340,11 @@ func resizeImage(img image.Image, size int) image.Image {
 
 func imageInSquareNRGBA(img image.Image, center bool) image.Image {
 	w, h := img.Bounds().Size().X, img.Bounds().Size().Y
-	if w == h && img.ColorModel() == color.NRGBAModel {
-		return img
+	if w == h {
+		// Other types may have the same color model, but the BMP encoder only keeps transparency for this one
+		if _, ok := img.(*image.NRGBA); ok {
+			return img
+		}
 	}
 
 	length := w
-- 
2.43.0


From 852d3af75f6ddd169766ce1e3649b1ee3809e2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:20 +0000
Subject: [PATCH 31/34] fix: cursors made from opaque square images were stored
 as 24 bits bitmaps without a mask

---
 cursor.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/cursor.go b/cursor.go
index 7526db1..f242e68 100644
--- a/cursor.go
+++ b/cursor.go
@@ -298,6 +298,10 @@ func (cursor *Cursor) addImage(img image.Image, hotSpot HotSpot) error {
 	dib := buf.Bytes()[14:]
 
 	width, height := curImg.Bounds().Size().X, curImg.Bounds().Size().Y
+	if dib[14] == 24 {
+		// The encoder dropped the alpha channel because the image is opaque.
+		dib = addAlphaToDIB(dib, width, height)
+	}
 	// Height must be doubled in the DIB header, as if there was an AND mask for transparency.
 	// In a 32 bits DIB, the mask can be the alpha channel, therefore there is no AND mask.
 	dib[8] = byte(height << 1)
@@ -318,6 +322,25 @@ func (cursor *Cursor) addImage(img image.Image, hotSpot HotSpot) error {
 	return nil
 }
 
+// addAlphaToDIB converts a 24 bits DIB to an opaque 32 bits DIB.
+func addAlphaToDIB(dib []byte, width, height int) []byte {
+	const hdrLen = 40
+	stride := (width*3 + 3) &^ 3
+
+	out := make([]byte, hdrLen, hdrLen+width*height*4)
+	copy(out, dib)
+	out[14] = 32
+	binary.LittleEndian.PutUint32(out[20:], uint32(width*height*4))
+	for y := 0; y < height; y++ {
+		row := dib[hdrLen+y*stride:]
+		for x := 0; x < width; x++ {
+			out = append(out, row[x*3], row[x*3+1], row[x*3+2], 0xFF)
+		}
+	}
+
+	return out
+}
+
 func (cursor *Cursor) order() {
 	sort.SliceStable(cursor.images, func(i, j int) bool {
 		img1, img2 := &cursor.images[i].info, &cursor.images[j].info
-- 
2.43.0


From 24ab2ab40179e77e5c6b6cf4fe613cdd54954c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 32/34] fix: keep the beginning of appended data when the last
 section is .rsrc and is not padded

---
 exe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exe.go b/exe.go
index 4508b51..cafca84 100644
--- a/exe.go
+++ b/exe.go
@@ -390,6 +390,10 @@ func (pew *peWriter) fillSectionsInfo() error {
 		}
 	}
 	pew.src.virtEnd = pew.roundVirt(pew.src.virtEnd)
+	if pew.src.rsrcEnd > int64(pew.src.dataEnd) {
+		// The last section is not padded in the file, don't skip the beginning of appended data.
+		pew.src.rsrcEnd = int64(pew.src.dataEnd)
+	}
 	if pew.src.dataEnd == 0 {
 		// No section has any data, there is no place for a new one.
 		return errors.New(errNoRoomForRSRC)
-- 
2.43.0


From e658b0e211b8edabd3f432dd74f325a502694cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 33/34] fix: do not move code or data when the .rsrc section
 they follow has different sizes in the file and in memory

---
 exe.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index cafca84..3a80c47 100644
--- a/exe.go
+++ b/exe.go
@@ -420,7 +420,8 @@ func (pew *peWriter) requiresNewSection() bool {
 	}
 
 	// From here, we should not shift data after the existing .rsrc section
-	if pew.rsrcHdr.SizeOfRawData >= uint32(len(pew.rsrcData)) {
+	if pew.rsrcHdr.SizeOfRawData >= uint32(len(pew.rsrcData)) &&
+		pew.roundVirt(pew.rsrcHdr.SizeOfRawData) == pew.roundVirt(pew.rsrcHdr.VirtualSize) {
 		// The .rsrc section won't grow, so we only have to ensure it won't shrink too much either
 		buf := make([]byte, pew.rsrcHdr.SizeOfRawData)
 		copy(buf, pew.rsrcData)
-- 
2.43.0


From 86cebf5b2f0078c15be2b8e3ff05e02dcd0dde79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 34/34] fix: take the size in the file of sections that have no
 virtual size

---
 exe.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/exe.go b/exe.go
index 3a80c47..5758fbe 100644
--- a/exe.go
+++ b/exe.go
@@ -370,8 +370,8 @@ func (pew *peWriter) fillSectionsInfo() error {
 	}
 
 	for i := range pew.h.sections {
-		if pew.h.sections[i].VirtualAddress+pew.h.sections[i].VirtualSize > pew.src.virtEnd {
-			pew.src.virtEnd = pew.h.sections[i].VirtualAddress + pew.h.sections[i].VirtualSize
+		if pew.h.sections[i].VirtualAddress+virtualSize(&pew.h.sections[i]) > pew.src.virtEnd {
+			pew.src.virtEnd = pew.h.sections[i].VirtualAddress + virtualSize(&pew.h.sections[i])
 		}
 		if pew.h.sections[i].Characteristics&pe.IMAGE_SCN_CNT_UNINITIALIZED_DATA != 0 && &pew.h.sections[i] != pew.rsrcHdr ||
 			pew.h.sections[i].SizeOfRawData == 0 {
@@ -410,18 +410,18 @@ func (pew *peWriter) requiresNewSection() bool {
 		// It has no place in the file.
 		return true
 	}
-	endOfRSRC := pew.roundVirt(pew.rsrcHdr.VirtualAddress + pew.rsrcHdr.VirtualSize)
+	endOfRSRC := pew.roundVirt(pew.rsrcHdr.VirtualAddress + virtualSize(pew.rsrcHdr))
 	if endOfRSRC >= pew.src.virtEnd {
 		return false
 	}
 	if pew.relocHdr != nil && pew.relocHdr.VirtualAddress == endOfRSRC &&
-		pew.roundVirt(pew.relocHdr.VirtualAddress+pew.relocHdr.VirtualSize) >= pew.src.virtEnd {
+		pew.roundVirt(pew.relocHdr.VirtualAddress+virtualSize(pew.relocHdr)) >= pew.src.virtEnd {
 		return false
 	}
 
 	// From here, we should not shift data after the existing .rsrc section
 	if pew.rsrcHdr.SizeOfRawData >= uint32(len(pew.rsrcData)) &&
-		pew.roundVirt(pew.rsrcHdr.SizeOfRawData) == pew.roundVirt(pew.rsrcHdr.VirtualSize) {
+		pew.roundVirt(pew.rsrcHdr.SizeOfRawData) == pew.roundVirt(virtualSize(pew.rsrcHdr)) {
 		// The .rsrc section won't grow, so we only have to ensure it won't shrink too much either
 		buf := make([]byte, pew.rsrcHdr.SizeOfRawData)
 		copy(buf, pew.rsrcData)
@@ -456,7 +456,7 @@ func (pew *peWriter) updateHeaders() {
 		lastSection = pew.rsrcHdr
 	} else {
 		oldSize = pew.rsrcHdr.SizeOfRawData
-		virtDelta = pew.roundVirt(rsrcLen) - pew.roundVirt(pew.rsrcHdr.VirtualSize)
+		virtDelta = pew.roundVirt(rsrcLen) - pew.roundVirt(virtualSize(pew.rsrcHdr))
 		rawDelta := pew.roundRaw(rsrcLen) - pew.roundRaw(pew.rsrcHdr.SizeOfRawData)
 		pew.rsrcHdr.VirtualSize = rsrcLen
 		pew.rsrcHdr.SizeOfRawData = pew.roundRaw(rsrcLen)
@@ -488,10 +488,20 @@ func (pew *peWriter) updateHeaders() {
 	}
 
 	pew.h.opt.setCheckSum(0)
-	pew.h.opt.setSizeOfImage(lastSection.VirtualAddress + pew.roundVirt(lastSection.VirtualSize))
+	pew.h.opt.setSizeOfImage(lastSection.VirtualAddress + pew.roundVirt(virtualSize(lastSection)))
 	pew.h.opt.setSizeOfInitializedData(pew.h.opt.getSizeOfInitializedData() - oldSize + pew.rsrcHdr.SizeOfRawData)
 }
 
+// virtualSize returns the size a section occupies in memory.
+//
+// When VirtualSize is zero, the loader uses SizeOfRawData instead.
+func virtualSize(section *pe.SectionHeader32) uint32 {
+	if section.VirtualSize == 0 {
+		return section.SizeOfRawData
+	}
+	return section.VirtualSize
+}
+
 func (pew *peWriter) roundRaw(p uint32) uint32 {
 	a := pew.h.opt.getFileAlignment()
 	x := p + a - 1
-- 
2.43.0

