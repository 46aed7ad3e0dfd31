From fd6d09c617df6421c392f588937c467d95d77f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 01/36] fix: report an unreadable root pointer instead of
 treating the B+ tree as empty

---
 pkg/bptree/bptree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 51325cd..ec1a547 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -23,7 +23,10 @@ type BPTree struct {
 
 func (t *BPTree) root() (*BPTreeNode, pointer.MemoryPointer, error) {
 	mp, err := t.MetaPage.Root()
-	if err != nil || mp.Length == 0 {
+	if err != nil {
+		return nil, mp, err
+	}
+	if mp.Length == 0 {
 		return nil, mp, nil
 	}
 	root, err := t.readNode(mp)
-- 
2.43.0


From bcf638a752d2dadc774926c625b282a1d61a58cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 02/36] fix: decode stored vector components as IEEE 754 bits

---
 pkg/btree/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/btree/node.go b/pkg/btree/node.go
index 18c6bf5..21a522e 100644
--- a/pkg/btree/node.go
+++ b/pkg/btree/node.go
@@ -141,7 +141,7 @@ func (n *BTreeNode) UnmarshalBinary(buf []byte) error {
 		vector := make(hnsw.Point, vecdim)
 
 		for vi := range vector {
-			vector[vi] = float32(binary.LittleEndian.Uint32(buf[m:]))
+			vector[vi] = math.Float32frombits(binary.LittleEndian.Uint32(buf[m:]))
 			m += 4
 		}
 
-- 
2.43.0


From 50ff38673aa59d39e4b50d3a0224c4d378130ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 03/36] fix: reject index metadata shorter than its header and
 field name instead of panicking

---
 pkg/appendable/appendable.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/appendable/appendable.go b/pkg/appendable/appendable.go
index 02f76d4..bcc86f0 100644
--- a/pkg/appendable/appendable.go
+++ b/pkg/appendable/appendable.go
@@ -160,13 +160,13 @@ func (m *IndexMeta) MarshalBinary() ([]byte, error) {
 }
 
 func (m *IndexMeta) UnmarshalBinary(buf []byte) error {
-	if len(buf) < 4 {
+	if len(buf) < 6 {
 		return fmt.Errorf("invalid metadata size: %d", len(buf))
 	}
 	m.FieldType = FieldType(binary.LittleEndian.Uint16(buf[0:]))
 	m.Width = binary.LittleEndian.Uint16(buf[2:])
-	nameLength := binary.LittleEndian.Uint16(buf[4:])
-	if len(buf) < 4+int(nameLength) {
+	nameLength := int(binary.LittleEndian.Uint16(buf[4:]))
+	if len(buf) < 6+nameLength {
 		return fmt.Errorf("invalid metadata size: %d", len(buf))
 	}
 	m.FieldName = string(buf[6 : 6+nameLength])
-- 
2.43.0


From a81a176d4f035f718d9f216cce428b75528db142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 04/36] fix: read back 255 byte metadata without overflowing
 the length byte

---
 pkg/linkedpage/linkedpage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/linkedpage/linkedpage.go b/pkg/linkedpage/linkedpage.go
index d11bfc0..a3c0d20 100644
--- a/pkg/linkedpage/linkedpage.go
+++ b/pkg/linkedpage/linkedpage.go
@@ -131,7 +131,7 @@ func (m *LinkedPage) Metadata() ([]byte, error) {
 		return nil, err
 	}
 	// the first byte represents the length
-	length := buf[0]
+	length := int(buf[0])
 	return buf[1 : 1+length], nil
 }
 
-- 
2.43.0


From 7f87f575146eb32946789f6feb643a32fe21a6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 05/36] fix: wrap around the free page ring when persisting it

---
 pkg/pagefile/pagefile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pagefile/pagefile.go b/pkg/pagefile/pagefile.go
index dbf9ba2..1c42c4e 100644
--- a/pkg/pagefile/pagefile.go
+++ b/pkg/pagefile/pagefile.go
@@ -100,7 +100,7 @@ func (pf *PageFile) writeFreePageIndices() error {
 	buf := make([]byte, len(pf.freePageIndexes)*8)
 	tail := (pf.freePageHead - pf.freePageCount + len(pf.freePageIndexes)) % len(pf.freePageIndexes)
 	for i := 0; i < pf.freePageCount; i++ {
-		offset := pf.freePageIndexes[tail+i]
+		offset := pf.freePageIndexes[(tail+i)%len(pf.freePageIndexes)]
 		binary.LittleEndian.PutUint64(buf[i*8:(i+1)*8], uint64(offset))
 	}
 	if _, err := pf.ReadWriteSeeker.Seek(0, io.SeekStart); err != nil {
-- 
2.43.0


From 30d7d986124eb161fbb31ed4382c7d56fa092d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 06/36] fix: reject a file shorter than a page without
 overwriting it

---
 pkg/pagefile/pagefile.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/pagefile/pagefile.go b/pkg/pagefile/pagefile.go
index 1c42c4e..78da241 100644
--- a/pkg/pagefile/pagefile.go
+++ b/pkg/pagefile/pagefile.go
@@ -46,10 +46,13 @@ func NewPageFile(rws io.ReadWriteSeeker) (*PageFile, error) {
 		return nil, err
 	}
 	buf := make([]byte, pageSizeBytes)
-	_, err := rws.Read(buf)
+	read, err := rws.Read(buf)
 	if err != nil && err != io.EOF {
 		return nil, err
 	}
+	if err == io.EOF && read > 0 {
+		return nil, errors.New("file size is not a multiple of the page size")
+	}
 	pf := &PageFile{
 		ReadWriteSeeker: rws,
 		pageSize:        pageSizeBytes,
-- 
2.43.0


From ae4db493a8af855e4712fe3632959768edc7a6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 07/36] fix: close the file when it cannot be memory mapped

---
 pkg/mmap/mmap.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index 3c0d219..1938b94 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -58,7 +58,12 @@ func OpenFile(path string, flag int, perm os.FileMode) (*MemoryMappedFile, error
 	if err != nil {
 		return nil, fmt.Errorf("open: %v", err)
 	}
-	return NewMemoryMappedFile(f, toProt(flag))
+	m, err := NewMemoryMappedFile(f, toProt(flag))
+	if err != nil {
+		f.Close()
+		return nil, err
+	}
+	return m, nil
 }
 
 func (m *MemoryMappedFile) File() *os.File {
-- 
2.43.0


From 172a552dc6dec632426f6ae56460df0e63a7b724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 08/36] fix: forget the mapping on close so that later use
 cannot touch unmapped memory

---
 pkg/mmap/mmap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index 1938b94..39de591 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -80,8 +80,12 @@ func (m *MemoryMappedFile) Close() error {
 		return m.file.Close()
 	}
 	if err := unix.Munmap(m.bytes); err != nil {
+		m.file.Close()
 		return fmt.Errorf("munmap: %v", err)
 	}
+	// the mapping is gone, so nothing may refer to it anymore
+	m.bytes = nil
+	m.seek = 0
 	return m.file.Close()
 }
 
-- 
2.43.0


From 781558711f9d0defb1ad92c7f2ba27f990264b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 09/36] fix: report out of range mmap offsets instead of
 panicking

---
 pkg/mmap/mmap.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index 39de591..54d1000 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -123,6 +123,12 @@ func (m *MemoryMappedFile) Read(b []byte) (int, error) {
 
 // ReadAt reads len(b) bytes from the file starting at byte offset off.
 func (m *MemoryMappedFile) ReadAt(b []byte, off int64) (int, error) {
+	if off < 0 {
+		return 0, fmt.Errorf("mmap: negative position")
+	}
+	if off > int64(len(m.bytes)) {
+		return 0, io.EOF
+	}
 	n := copy(b, m.bytes[off:])
 	if n < len(b) {
 		return n, io.EOF
@@ -142,6 +148,9 @@ func (m *MemoryMappedFile) Write(b []byte) (int, error) {
 
 // WriteAt writes len(b) bytes to the file starting at byte offset off.
 func (m *MemoryMappedFile) WriteAt(b []byte, off int64) (int, error) {
+	if off < 0 {
+		return 0, fmt.Errorf("mmap: negative position")
+	}
 	// check if the file needs to be remapped
 	if off+int64(len(b)) > int64(len(m.bytes)) {
 		// write the data and remap the file
-- 
2.43.0


From 05e3d19f989873d216526d889f7deb15813b59a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 10/36] fix: keep the old mapping on darwin when the file
 cannot be remapped

---
 pkg/mmap/mremap_darwin.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/mmap/mremap_darwin.go b/pkg/mmap/mremap_darwin.go
index 46f892b..b867153 100644
--- a/pkg/mmap/mremap_darwin.go
+++ b/pkg/mmap/mremap_darwin.go
@@ -3,11 +3,16 @@ package mmap
 import "golang.org/x/sys/unix"
 
 func mremap(oldAddress []byte, fd, newSize, prot, flags int) ([]byte, error) {
-	// darwin doesn't have mremap, so we have to munmap and mmap the new size
-
-	// unmap the old address
+	// darwin doesn't have mremap, so we have to mmap the new size and munmap the
+	// old address. the old address stays mapped until the new one exists, because
+	// the caller keeps using it if this fails.
+	b, err := unix.Mmap(fd, 0, newSize, prot, flags)
+	if err != nil {
+		return nil, err
+	}
 	if err := unix.Munmap(oldAddress); err != nil {
+		unix.Munmap(b)
 		return nil, err
 	}
-	return unix.Mmap(fd, 0, newSize, prot, flags)
+	return b, nil
 }
-- 
2.43.0


From 644d608e5f3d4d77c927e37d683407427e32943c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 11/36] fix: report an index file without indexes as empty

---
 pkg/appendable/index_file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/appendable/index_file.go b/pkg/appendable/index_file.go
index 263568b..bc7a415 100644
--- a/pkg/appendable/index_file.go
+++ b/pkg/appendable/index_file.go
@@ -110,7 +110,7 @@ func (i *IndexFile) IsEmpty() (bool, error) {
 	if err != nil && !errors.Is(err, io.EOF) {
 		return false, fmt.Errorf("failed to get next meta page: %w", err)
 	}
-	return n != nil, nil
+	return n == nil, nil
 }
 
 func (i *IndexFile) IndexFieldNames() ([]string, error) {
-- 
2.43.0


From 392984dc672269a7d75d4e3056071a9178cd5d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 12/36] fix: continue a search at the next leaf when the key
 sorts after everything in its leaf

---
 pkg/bptree/bptree.go    | 12 +++++++++---
 src/bptree/traversal.ts | 14 +++++++++-----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index ec1a547..c70927c 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -114,9 +114,15 @@ func (p *TraversalIterator) incr(i, delta int) bool {
 
 func (p *TraversalIterator) Next() bool {
 	if p.records == nil {
-		res := p.init()
-
-		return res && (p.records[0].index != p.records[0].node.NumPointers())
+		if !p.init() {
+			return false
+		}
+		if p.records[0].index < p.records[0].node.NumPointers() {
+			return true
+		}
+		// the key sorts after everything in this leaf, so the first entry that is
+		// not smaller is the first one of the next leaf.
+		p.records[0].index--
 	}
 	return p.incr(0, 1)
 }
diff --git a/src/bptree/traversal.ts b/src/bptree/traversal.ts
index f7a5a2e..1826599 100644
--- a/src/bptree/traversal.ts
+++ b/src/bptree/traversal.ts
@@ -75,11 +75,15 @@ export class TraversalIterator {
 
   async next(): Promise<boolean> {
     if (this.records.length === 0) {
-      const res = await this.init();
-
-      return (
-        res && this.records[0].index !== this.records[0].node.numPointers()
-      );
+      if (!(await this.init())) {
+        return false;
+      }
+      if (this.records[0].index < this.records[0].node.numPointers()) {
+        return true;
+      }
+      // the key sorts after everything in this leaf, so the first entry that is
+      // not smaller is the first one of the next leaf.
+      this.records[0].index--;
     }
 
     return this.increment(0, 1);
-- 
2.43.0


From a7afa1f9df6b4295b34339ecdf3c6f35792d0060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 13/36] fix: find the first and last key of a tree whose root
 is a leaf

---
 pkg/bptree/bptree.go | 17 +++++++----------
 src/bptree/bptree.ts |  6 ++----
 2 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index c70927c..8ae8b87 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -2,6 +2,7 @@ package bptree
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"github.com/kevmo314/appendable/pkg/metapage"
 	"io"
@@ -182,15 +183,13 @@ func (t *BPTree) readNode(ptr pointer.MemoryPointer) (*BPTreeNode, error) {
 }
 
 func (t *BPTree) first() (pointer.ReferencedValue, error) {
-	rootNode, _, err := t.root()
+	currNode, _, err := t.root()
 
 	if err != nil {
 		return pointer.ReferencedValue{}, err
 	}
-
-	currNode, err := t.readNode(rootNode.Pointer(0))
-	if err != nil {
-		return pointer.ReferencedValue{}, err
+	if currNode == nil {
+		return pointer.ReferencedValue{}, errors.New("the tree is empty")
 	}
 
 	for !currNode.Leaf() {
@@ -206,15 +205,13 @@ func (t *BPTree) first() (pointer.ReferencedValue, error) {
 }
 
 func (t *BPTree) last() (pointer.ReferencedValue, error) {
-	rootNode, _, err := t.root()
+	currNode, _, err := t.root()
 
 	if err != nil {
 		return pointer.ReferencedValue{}, err
 	}
-
-	currNode, err := t.readNode(rootNode.Pointer(rootNode.NumPointers() - 1))
-	if err != nil {
-		return pointer.ReferencedValue{}, err
+	if currNode == nil {
+		return pointer.ReferencedValue{}, errors.New("the tree is empty")
 	}
 
 	for !currNode.Leaf() {
diff --git a/src/bptree/bptree.ts b/src/bptree/bptree.ts
index 71bd6bc..33db1a9 100644
--- a/src/bptree/bptree.ts
+++ b/src/bptree/bptree.ts
@@ -105,7 +105,7 @@ export class BPTree {
       throw new Error("unable to get root node");
     }
 
-    let currNode = await this.readNode(rootNode.pointer(0));
+    let currNode = rootNode;
 
     while (!currNode.leaf()) {
       const childPointer = currNode.pointer(0);
@@ -121,9 +121,7 @@ export class BPTree {
       throw new Error("unable to get root node");
     }
 
-    let currNode = await this.readNode(
-      rootNode.pointer(rootNode.numPointers() - 1),
-    );
+    let currNode = rootNode;
 
     while (!currNode.leaf()) {
       const childPointer = currNode.pointer(currNode.numPointers() - 1);
-- 
2.43.0


From 3cf7c7214dbb77751cf00c3371aab6ce2ed83627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 14/36] fix: report a data file that is shorter than the
 indexed prefix instead of panicking

---
 pkg/handlers/csv.go   | 3 +++
 pkg/handlers/jsonl.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 8e0b1c2..b9a1a1c 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -36,6 +36,9 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 	if err != nil {
 		return fmt.Errorf("failed to read metadata: %w", err)
 	}
+	if metadata.ReadOffset > uint64(len(df)) {
+		return fmt.Errorf("data file is shorter than what was already indexed: %d < %d", len(df), metadata.ReadOffset)
+	}
 
 	fieldNames, err := f.IndexFieldNames()
 	if err != nil {
diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index 56875f9..d6ac800 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -30,6 +30,9 @@ func (j JSONLHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 	if err != nil {
 		return fmt.Errorf("failed to read metadata: %w", err)
 	}
+	if metadata.ReadOffset > uint64(len(df)) {
+		return fmt.Errorf("data file is shorter than what was already indexed: %d < %d", len(df), metadata.ReadOffset)
+	}
 	for {
 		i := bytes.IndexByte(df[metadata.ReadOffset:], '\n')
 		if i == -1 {
-- 
2.43.0


From a8ecad18b34fbea181a8855ec416da6de4d3efdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 15/36] fix: count the entries of a CSV file

---
 pkg/handlers/csv.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index b9a1a1c..20c1c80 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -74,6 +74,12 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 		}
 
 		metadata.ReadOffset += uint64(i) + 1 // include the newline
+
+		if f.BenchmarkCallback != nil {
+			f.BenchmarkCallback(int(metadata.ReadOffset))
+		}
+
+		metadata.Entries++
 	}
 
 	// update the metadata
-- 
2.43.0


From d08421f27dec216a1ab6b8d60ed3f90f711a0750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 16/36] fix: take the CSV columns from the header instead of
 the indexes created so far

---
 pkg/handlers/csv.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 20c1c80..8b1a543 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -40,11 +40,18 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 		return fmt.Errorf("data file is shorter than what was already indexed: %d < %d", len(df), metadata.ReadOffset)
 	}
 
-	fieldNames, err := f.IndexFieldNames()
-	if err != nil {
-		return fmt.Errorf("failed to retrieve index field names: %w", err)
+	if metadata.ReadOffset > 0 {
+		// the header was consumed earlier, but it still describes the columns.
+		i := bytes.IndexByte(df, '\n')
+		if i == -1 {
+			return fmt.Errorf("missing CSV header")
+		}
+		headers, err = csv.NewReader(bytes.NewReader(df[:i])).Read()
+		if err != nil {
+			slog.Error("failed to parse CSV header", "error", err)
+			return fmt.Errorf("failed to parse CSV header: %w", err)
+		}
 	}
-	headers = fieldNames
 
 	for {
 		i := bytes.IndexByte(df[metadata.ReadOffset:], '\n')
-- 
2.43.0


From 9fe4cc65dda1211b0621084d77c3bc2abc36a09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 17/36] fix: mmap WriteAt returns the number of bytes written
 after growing the file

The remapped slice shadowed the written one, so growing an existing mapping
reported the size of the whole mapping and Write moved the position past it.
---
 pkg/mmap/mmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index 54d1000..9476c54 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -168,11 +168,11 @@ func (m *MemoryMappedFile) WriteAt(b []byte, off int64) (int, error) {
 			}
 			return len(b), nil
 		}
-		b, err := mremap(m.bytes, int(m.file.Fd()), int(fi.Size()), m.prot, m.flags)
+		remapped, err := mremap(m.bytes, int(m.file.Fd()), int(fi.Size()), m.prot, m.flags)
 		if err != nil {
 			return 0, fmt.Errorf("mmap: %v", err)
 		}
-		m.bytes = b
+		m.bytes = remapped
 		return len(b), nil
 	}
 	// write the data
-- 
2.43.0


From 7854d213cf50cf9562256b757cb601834dcd7565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:01 +0000
Subject: [PATCH 18/36] fix: let an iterator turn around at the end of the tree

---
 pkg/bptree/bptree.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 8ae8b87..ed33033 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -93,7 +93,11 @@ func (p *TraversalIterator) incr(i, delta int) bool {
 	if rolloverLeft || rolloverRight {
 		// increment the parent node
 		if !p.incr(i+1, delta) {
-			// if we weren't able to, return false
+			// if we weren't able to, return false. Stay at most one step beyond the
+			// last entry (or before the first one) so that turning around works.
+			if i > 0 || p.records[i].index < -1 || p.records[i].index > p.records[i].node.NumPointers() {
+				p.records[i].index -= delta
+			}
 			return false
 		}
 		// otherwise, update the current node
-- 
2.43.0


From 4b47a5f3b2c9a380c3d167aee6ad0bfd363aed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 19/36] fix: refuse to free a negative page offset

---
 pkg/pagefile/pagefile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/pagefile/pagefile.go b/pkg/pagefile/pagefile.go
index 78da241..fe54b4b 100644
--- a/pkg/pagefile/pagefile.go
+++ b/pkg/pagefile/pagefile.go
@@ -182,6 +182,9 @@ func (pf *PageFile) NewPage(buf []byte) (int64, error) {
 }
 
 func (pf *PageFile) FreePage(offset int64) error {
+	if offset < 0 {
+		return errors.New("offset cannot be negative")
+	}
 	if offset%int64(pf.pageSize) != 0 {
 		return errors.New("offset is not a multiple of the page size")
 	}
-- 
2.43.0


From 4261c4c41ddeabd82d9630c9ed24d7d2f0e01afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:39 +0000
Subject: [PATCH 20/36] fix: open the list of slots in the requested page

---
 pkg/linkedpage/linkedpage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/linkedpage/linkedpage.go b/pkg/linkedpage/linkedpage.go
index a3c0d20..40e5f5a 100644
--- a/pkg/linkedpage/linkedpage.go
+++ b/pkg/linkedpage/linkedpage.go
@@ -303,7 +303,7 @@ func (m *LinkedPage) String() string {
 }
 
 func NewMultiBPTree(t pagefile.ReadWriteSeekPager, page int) (*LinkedPage, error) {
-	offset, err := t.Page(0)
+	offset, err := t.Page(page)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 7c3fd5f5dd7e3b6b0e501a709ad85be8d22e4ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:41 +0000
Subject: [PATCH 21/36] fix: refuse an index whose metadata does not fit its
 slot before adding the slot

The metadata was checked only after the slot had been added, so a long field
name left a slot without metadata, which makes every later lookup of an index
fail.
---
 pkg/appendable/index_file.go | 14 ++++++++++----
 pkg/linkedpage/linkedpage.go |  4 ++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkg/appendable/index_file.go b/pkg/appendable/index_file.go
index bc7a415..bef65f0 100644
--- a/pkg/appendable/index_file.go
+++ b/pkg/appendable/index_file.go
@@ -1,6 +1,7 @@
 package appendable
 
 import (
+	"encoding/binary"
 	"errors"
 	"fmt"
 	"github.com/kevmo314/appendable/pkg/linkedpage"
@@ -170,10 +171,6 @@ func (i *IndexFile) FindOrCreateIndex(name string, fieldType FieldType) (*linked
 		mp = next
 	}
 	// we haven't found the index, so we need to create it
-	next, err := mp.AddNext()
-	if err != nil {
-		return nil, nil, fmt.Errorf("failed to add next meta page: %w", err)
-	}
 	metadata := &IndexMeta{}
 	metadata.FieldName = name
 	metadata.FieldType = fieldType
@@ -183,6 +180,15 @@ func (i *IndexFile) FindOrCreateIndex(name string, fieldType FieldType) (*linked
 	if err != nil {
 		return nil, nil, fmt.Errorf("failed to marshal metadata: %w", err)
 	}
+	// a slot without metadata makes the index unreadable, so don't add one if
+	// the metadata doesn't fit. The total length is one byte now but may grow.
+	if len(buf)-1+binary.MaxVarintLen64 > linkedpage.MaxMetadataSize {
+		return nil, nil, fmt.Errorf("field name too long: %d bytes", len(name))
+	}
+	next, err := mp.AddNext()
+	if err != nil {
+		return nil, nil, fmt.Errorf("failed to add next meta page: %w", err)
+	}
 	return next, metadata, next.SetMetadata(buf)
 }
 
diff --git a/pkg/linkedpage/linkedpage.go b/pkg/linkedpage/linkedpage.go
index 40e5f5a..894ac78 100644
--- a/pkg/linkedpage/linkedpage.go
+++ b/pkg/linkedpage/linkedpage.go
@@ -65,6 +65,10 @@ NewBPTree( page num ) => LinkedPage
 
 const numSlots = 15
 
+// MaxMetadataSize is the number of metadata bytes that fit in a slot after its
+// root pointer (12 bytes) and the length byte.
+const MaxMetadataSize = 252
+
 type memoryLayout struct {
 	header struct {
 		nextPointer uint64
-- 
2.43.0


From 6a4f9435eee1db841323aa45dc3651b44e715aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:20 +0000
Subject: [PATCH 22/36] fix: locate the colon after a key instead of assuming
 it follows immediately

---
 pkg/handlers/jsonl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index d6ac800..88c18d1 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -144,7 +144,9 @@ func (j JSONLHandler) handleJSONLObject(f *appendable.IndexFile, r []byte, dec *
 		if key, ok := key.(string); !ok {
 			return fmt.Errorf("expected string key, got '%v'", key)
 		} else {
-			fieldOffset := dec.InputOffset() + 1 // skip the :
+			fieldOffset := dec.InputOffset()
+			// skip the :, which may follow some whitespace
+			fieldOffset += int64(bytes.IndexByte(r[data.Offset+uint64(fieldOffset):], ':')) + 1
 
 			value, err := dec.Token()
 			if err != nil {
-- 
2.43.0


From cf088ed8d17bbf94703a9ce1be63705969270046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:20 +0000
Subject: [PATCH 23/36] fix: accept non-string values of a field to be searched

---
 pkg/handlers/jsonl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index 88c18d1..1bade52 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -156,7 +156,7 @@ func (j JSONLHandler) handleJSONLObject(f *appendable.IndexFile, r []byte, dec *
 			name := strings.Join(append(path, key), ".")
 
 			fts := jsonTypeToFieldType(value)
-			if f.IsSearch(name) {
+			if _, ok := value.(string); ok && f.IsSearch(name) {
 				fts = append(fts, appendable.FieldTypeUnigram, appendable.FieldTypeBigram, appendable.FieldTypeTrigram)
 			}
 
-- 
2.43.0


From 3d93a2a4e9060bc6c8a9f2eaa2000ac401299f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:11 +0000
Subject: [PATCH 24/36] fix: decode varints beyond 31 bits without truncating
 them

---
 src/util/uvarint.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/uvarint.ts b/src/util/uvarint.ts
index 5dbbaa7..6097d33 100644
--- a/src/util/uvarint.ts
+++ b/src/util/uvarint.ts
@@ -38,11 +38,11 @@ export function decodeUvarint(buf: ArrayBuffer): UvarintResponse {
         return { value: 0, bytesRead: -(idx + 1) };
       }
 
-      let value = x | (b << s);
+      let value = x + b * 2 ** s;
       return { value, bytesRead: idx + 1 };
     }
 
-    x |= (b & 0x7f) << s;
+    x += (b & 0x7f) * 2 ** s;
     s += 7;
   }
 
-- 
2.43.0


From 750d81f70efe5d4d110e301644f8a3756be78b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:11 +0000
Subject: [PATCH 25/36] fix: return the last byte of a range served from the
 cache

---
 src/resolver/cache.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resolver/cache.ts b/src/resolver/cache.ts
index 6615163..5b62a9e 100644
--- a/src/resolver/cache.ts
+++ b/src/resolver/cache.ts
@@ -15,7 +15,7 @@ export function cache(resolver: RangeResolver): RangeResolver {
       return cached[1].then((cachedData) => {
         const data = cachedData[0].data.slice(
           start - cached[0][0],
-          end - cached[0][0],
+          end - cached[0][0] + 1, // ranges are inclusive
         );
         return [
           {
-- 
2.43.0


From 3eba399605db46d669eb3c70e7e3b6377d4c9f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:11 +0000
Subject: [PATCH 26/36] fix: read the total length of multipart ranges from
 Content-Range

---
 src/resolver/range-request.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resolver/range-request.ts b/src/resolver/range-request.ts
index a471ca2..0c0614a 100644
--- a/src/resolver/range-request.ts
+++ b/src/resolver/range-request.ts
@@ -89,7 +89,7 @@ export async function requestRanges(
         }
 
         return chunks.map(({ data, headers }) => {
-          const totalLengthStr = headers["content-range"]?.split("/")[1];
+          const totalLengthStr = headers["Content-Range"]?.split("/")[1];
           const totalLength = totalLengthStr ? parseInt(totalLengthStr, 10) : 0;
 
           return { data, totalLength };
-- 
2.43.0


From 66e0f2e102f7a05b805d20a5a81eec22d2056e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:11 +0000
Subject: [PATCH 27/36] fix: accept ranges of a single byte

---
 src/file/data-file.ts         | 2 +-
 src/resolver/range-request.ts | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/file/data-file.ts b/src/file/data-file.ts
index 76177d0..668cdef 100644
--- a/src/file/data-file.ts
+++ b/src/file/data-file.ts
@@ -26,7 +26,7 @@ export class DataFile {
   }
 
   async get(start: number, end: number) {
-    if (end <= start) {
+    if (end < start) {
       throw new Error(`Invalid range for start: ${start} and end: ${end}`);
     }
 
diff --git a/src/resolver/range-request.ts b/src/resolver/range-request.ts
index 0c0614a..d2962c6 100644
--- a/src/resolver/range-request.ts
+++ b/src/resolver/range-request.ts
@@ -40,9 +40,9 @@ export async function requestRanges(
   }
 
   for (const { start, end } of ranges) {
-    if (end - start <= 0) {
+    if (end - start < 0) {
       throw new Error(
-        `Invalid range: The start (${start}) and end (${end}) of a range are equal, indicating a zero-length range.`,
+        `Invalid range: The start (${start}) of a range is after its end (${end}).`,
       );
     }
   }
-- 
2.43.0


From f5cc65c466e81dd45e5597368690a47dc3dbcf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:11 +0000
Subject: [PATCH 28/36] fix: visit the last key of a descending query

---
 src/db/database.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/db/database.ts b/src/db/database.ts
index 07592fc..d7be94b 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -242,7 +242,12 @@ export class Database<T extends Schema> {
             }
           } else {
             const lastKey = await btree.last();
-            const iter = btree.iter(lastKey);
+            const iter = btree.iter(
+              new ReferencedValue(
+                { offset: maxUint64, length: 0 },
+                lastKey.value,
+              ),
+            );
 
             while (await iter.prev()) {
               const currentKey = iter.getKey();
@@ -287,7 +292,12 @@ export class Database<T extends Schema> {
             }
           } else {
             const lastKey = await btree.last();
-            const iter = btree.iter(lastKey);
+            const iter = btree.iter(
+              new ReferencedValue(
+                { offset: maxUint64, length: 0 },
+                lastKey.value,
+              ),
+            );
 
             while (await iter.prev()) {
               const currentKey = iter.getKey();
-- 
2.43.0


From 35c5e8a20fd830cd78e42c5ce592e70dc23d354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:11 +0000
Subject: [PATCH 29/36] fix: leave out keys equal to the bound of a descending
 > query

---
 src/db/database.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db/database.ts b/src/db/database.ts
index d7be94b..496e1ec 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -253,7 +253,7 @@ export class Database<T extends Schema> {
               const currentKey = iter.getKey();
 
               if (
-                ReferencedValue.compareBytes(currentKey.value, valueBuf) < 0
+                ReferencedValue.compareBytes(currentKey.value, valueBuf) <= 0
               ) {
                 break;
               }
-- 
2.43.0


From 8681d8d463f86d71afe750f8209eecbe6c23b30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:32 +0000
Subject: [PATCH 30/36] fix: end a multipart body when its stream ends early

The reader kept asking a stream that had ended for more, so that a response
cut short never returned.
---
 src/resolver/multipart.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index eb1edd9..4e7bdde 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -26,6 +26,9 @@ function getReader(stream: ReadableStream) {
           residual = result.value;
         }
         readDone ||= result.done;
+        if (readDone && residual === null) {
+          return { done: true, value: undefined };
+        }
       }
     }
   };
-- 
2.43.0


From 184792b7368be90fda72e01dfbd8c0c7cc3d92b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:31 +0000
Subject: [PATCH 31/36] fix: give a cloned distance heap items of its own

---
 pkg/hnsw/heap.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/heap.go b/pkg/hnsw/heap.go
index 5dcff52..641cc51 100644
--- a/pkg/hnsw/heap.go
+++ b/pkg/hnsw/heap.go
@@ -134,7 +134,10 @@ func (d *DistHeap) Clone() *DistHeap {
 		visited: make(map[Id]int, len(d.visited)),
 	}
 
-	copy(n.items, d.items)
+	for i, item := range d.items {
+		c := *item
+		n.items[i] = &c
+	}
 	maps.Copy(n.visited, d.visited)
 
 	return n
-- 
2.43.0


From 0bf2ddb54ee3512d22771c9c9d7b062f561742e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:32 +0000
Subject: [PATCH 32/36] fix: restore the order above a heap item that moved
 down

---
 pkg/hnsw/heap.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/hnsw/heap.go b/pkg/hnsw/heap.go
index 641cc51..17b3148 100644
--- a/pkg/hnsw/heap.go
+++ b/pkg/hnsw/heap.go
@@ -219,9 +219,11 @@ func (d *DistHeap) Insert(id Id, dist float32) {
 }
 
 func (d *DistHeap) Fix(i int) {
-	if !d.down(i, d.Len()) {
-		d.up(i)
-	}
+	// the item may end up anywhere below i and still be out of order with what
+	// is above it there.
+	id := d.items[i].id
+	d.down(i, d.Len())
+	d.up(d.visited[id])
 }
 
 func (d DistHeap) IsEmpty() bool      { return len(d.items) == 0 }
-- 
2.43.0


From 706444599b6b71d5c69efc2949a3089fa38e05bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:32 +0000
Subject: [PATCH 33/36] fix: keep the highest level two vectors are friends at

---
 pkg/hnsw/friends.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/friends.go b/pkg/hnsw/friends.go
index 3d0cb75..653253c 100644
--- a/pkg/hnsw/friends.go
+++ b/pkg/hnsw/friends.go
@@ -54,7 +54,9 @@ func (v *Friends) InsertFriendsAtLevel(level int, friendId Id, dist float32) {
 		v.friends[i].Insert(friendId, dist)
 	}
 
-	v.maxLevels[friendId] = level
+	if maxLevel, ok := v.maxLevels[friendId]; !ok || level > maxLevel {
+		v.maxLevels[friendId] = level
+	}
 }
 
 func (v *Friends) GetFriendsAtLevel(level int) (*DistHeap, error) {
-- 
2.43.0


From 4172d99917463cb1c273d2573eef408e2c521d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:32 +0000
Subject: [PATCH 34/36] fix: refuse to search for a vector of another
 dimensionality

---
 pkg/hnsw/hnsw.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/hnsw/hnsw.go b/pkg/hnsw/hnsw.go
index ff9cf6b..6a160c2 100644
--- a/pkg/hnsw/hnsw.go
+++ b/pkg/hnsw/hnsw.go
@@ -260,6 +260,10 @@ func (h *Hnsw) isValidPoint(point Point) bool {
 }
 
 func (h *Hnsw) KnnSearch(q Point, numNeighborsToReturn int) (*DistHeap, error) {
+	if !h.isValidPoint(q) {
+		return nil, fmt.Errorf("invalid vector dimensionality")
+	}
+
 	entryPoint := h.points[h.entryPointId]
 
 	entryPointFriends, ok := h.friends[h.entryPointId]
-- 
2.43.0


From 52126a9a166f0cd49f1120cb8cc8163097ccd091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:33 +0000
Subject: [PATCH 35/36] fix: leave a vector being inserted out of its own
 neighbors

---
 pkg/hnsw/hnsw.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/hnsw/hnsw.go b/pkg/hnsw/hnsw.go
index 6a160c2..a3db5ad 100644
--- a/pkg/hnsw/hnsw.go
+++ b/pkg/hnsw/hnsw.go
@@ -112,6 +112,10 @@ func (h *Hnsw) searchLevel(q *Point, entryItem *Item, numNearestToQToReturn, lev
 				}
 
 				ccFriendPoint := h.points[ccFriendId]
+				if ccFriendPoint == q {
+					// q is being inserted and is not its own neighbor
+					continue
+				}
 
 				// if distance(ccFriend, q) < distance(f, q)
 				ccFriendDistToQ := EuclidDistance(*ccFriendPoint, *q)
-- 
2.43.0


From 14e706a0a7d82cd23285f90835eef09a1fadf110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:03 +0000
Subject: [PATCH 36/36] fix: cut what is searched for into the n-grams the
 index has

The tokenizer took the places of characters for places of UTF-16 units, so
that behind a character outside of the first plane it cut other n-grams, and
did not normalize the text as the index does.
---
 src/ngram/tokenizer.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ngram/tokenizer.ts b/src/ngram/tokenizer.ts
index b8eaf37..1246e01 100644
--- a/src/ngram/tokenizer.ts
+++ b/src/ngram/tokenizer.ts
@@ -29,7 +29,10 @@ export class NgramTokenizer {
     let wordOffsets: number[][] = [];
     let currentWordOffsets: number[] = [];
 
-    Array.from(phrase).forEach((c, idx) => {
+    // the index cuts the normalized text by characters, not by UTF-16 units
+    const chars = Array.from(phrase.normalize("NFKD"));
+
+    chars.forEach((c, idx) => {
       if (/[a-zA-Z0-9]/.test(c)) {
         currentWordOffsets.push(idx);
       } else if (/\s/.test(c)) {
@@ -56,7 +59,7 @@ export class NgramTokenizer {
           let str = "";
 
           for (let jdx = idx; jdx <= idx + N - 1; jdx++) {
-            str += phrase[word[jdx]];
+            str += chars[word[jdx]];
           }
 
           let value = str.toLowerCase();
-- 
2.43.0

