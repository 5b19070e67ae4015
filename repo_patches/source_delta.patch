From 3c1cb97ff35a4e910c02379ac2b380ceb96a4caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:50 +0000
Subject: [PATCH 01/37] fix: clearing an index that is not set no longer
 corrupts the bitset

Unset subtracted the bit's value, so clearing a bit that was already clear
borrowed from the higher bits of the word.
---
 common/bitset/bitset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index c1faa37..40dacbe 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -115,7 +115,7 @@ func (b *Bitset) Unset(x uint64) *Bitset {
 	if offset >= len(b.data) {
 		return b
 	}
-	b.data[offset] = b.data[offset] - (1 << (x % wordSize))
+	b.data[offset] &^= 1 << (x % wordSize)
 	return b
 }
 
-- 
2.43.0


From 10578714df6f07734a5ac0d092c0e8de2d025c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:10 +0000
Subject: [PATCH 02/37] fix: out-of-range bitset indices above 2^63 no longer
 panic

Get and Unset promise to be harmless for any out-of-range index, but converted
the index to a signed int first, so huge indices passed the bounds check.
---
 common/bitset/bitset.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index 40dacbe..4f01df4 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -56,7 +56,7 @@ func (b *Bitset) Count() int {
 // Get returns true if the specified index has been previously set and never subsequently unset.
 // Safely false if the specified index is out of bounds.
 func (b *Bitset) Get(x uint64) bool {
-	if int(x)/wordSize >= len(b.data) {
+	if x/wordSize >= uint64(len(b.data)) {
 		return false
 	}
 	return b.data[x/wordSize]&(1<<(x%wordSize)) != 0
@@ -111,8 +111,8 @@ func (b *Bitset) Full() bool {
 // Unset sets the specified index to False. If the specified index is out of bounds, nothing
 // happens. Does not cause size to shrink. Returns itself
 func (b *Bitset) Unset(x uint64) *Bitset {
-	offset := int(x) / wordSize
-	if offset >= len(b.data) {
+	offset := x / wordSize
+	if offset >= uint64(len(b.data)) {
 		return b
 	}
 	b.data[offset] &^= 1 << (x % wordSize)
-- 
2.43.0


From 904ba1f511fc333263fa91108cd573fcbcd1f3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:12 +0000
Subject: [PATCH 03/37] fix: union and intersection of bitsets have a size

The results were created with size 0, so a union reported itself as full and
had no ranges, whatever it contained.
---
 common/bitset/bitset.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index 4f01df4..53dcc47 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -132,7 +132,7 @@ func (b *Bitset) Union(a *Bitset) *Bitset {
 	copy(remainder, longer.data[len(shorter.data):])
 
 	result = append(result, remainder...)
-	return &Bitset{data: result}
+	return &Bitset{data: result, size: max(a.size, b.size)}
 }
 
 // Intersect returns the intersect between any two bitsets
@@ -144,7 +144,7 @@ func (b *Bitset) Intersect(a *Bitset) *Bitset {
 		result[i] = x & longer.data[i]
 	}
 
-	return &Bitset{data: result}
+	return &Bitset{data: result, size: min(a.size, b.size)}
 }
 
 // Overlap takes a sorted  list of ranges ([]uint16 of even length) where each consecutive pair of
@@ -290,6 +290,13 @@ func shorterFirst(a, b *Bitset) (*Bitset, *Bitset) {
 	return b, a
 }
 
+func min(a, b int) int {
+	if a < b {
+		return a
+	}
+	return b
+}
+
 func max(a, b int) int {
 	if a > b {
 		return a
-- 
2.43.0


From f06577547bfb82159e0e709f964446d0e4c87399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:14 +0000
Subject: [PATCH 04/37] fix: refuse truncated or inconsistent bitset data

Deserialize panicked on fewer than 8 bytes, and accepted a size that does not
match the data, which made later calls panic.
---
 common/bitset/bitset.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index 53dcc47..99a59b8 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -254,6 +254,10 @@ func (b *Bitset) Serialize() []byte {
 
 // Deserialize converts a previously-serialized bitset into a realized bitset.
 func Deserialize(data []byte) (*Bitset, error) {
+	if len(data) < 8 {
+		return nil, fmt.Errorf("bitset data must be at least 8 bytes long. Got %d", len(data))
+	}
+
 	size := int(binary.BigEndian.Uint64(data[:8]))
 
 	if l := len(data[8:]); l%8 != 0 {
@@ -261,6 +265,10 @@ func Deserialize(data []byte) (*Bitset, error) {
 	}
 
 	setData := make([]uint64, len(data[8:])/8)
+	if maxSize := len(setData) * wordSize; size < 0 || size > maxSize || size <= maxSize-wordSize {
+		return nil, fmt.Errorf("bitset of size %d cannot have %d words of data", size, len(setData))
+	}
+
 	for i := 0; i < len(setData); i++ {
 		byteIndex := 8 + (i * 8)
 		setData[i] = binary.BigEndian.Uint64(data[byteIndex : byteIndex+8])
-- 
2.43.0


From 7caa29d812fd8482670d6da6662c1ffebeccba6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:15 +0000
Subject: [PATCH 05/37] fix: an odd number of range bounds no longer panics

The bounds come straight from a discovery request, so any peer could crash the
daemon. A trailing bound without a partner is ignored.
---
 common/bitset/bitset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index 99a59b8..8ba935e 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -152,7 +152,7 @@ func (b *Bitset) Intersect(a *Bitset) *Bitset {
 // non-overallping ranges that are set to 'on' within the underlying bitset
 func (b *Bitset) Overlap(ranges []uint16) []uint16 {
 	result := make([]uint16, 0, len(ranges))
-	for i := 0; i < len(ranges); i += 2 {
+	for i := 0; i+1 < len(ranges); i += 2 {
 		start, end := ranges[i], ranges[i+1]
 		result = append(result, b.filledRanges(int(start), int(end))...)
 	}
-- 
2.43.0


From 853e87d1a4b05f17411608662bf18bdcf676ce8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:36 +0000
Subject: [PATCH 06/37] fix: chunk lists that do not fit a message are clipped

The length of the list is sent as one byte, which wrapped around for more than
127 ranges, so a host with many fragments of a file advertised next to nothing
(or nothing at all).
---
 flu/messages/msgDiscoverHosts.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/flu/messages/msgDiscoverHosts.go b/flu/messages/msgDiscoverHosts.go
index 5613e21..d8650b0 100644
--- a/flu/messages/msgDiscoverHosts.go
+++ b/flu/messages/msgDiscoverHosts.go
@@ -35,11 +35,12 @@ func (r *DiscoverHostRequest) Serialize() []byte {
 	copy(result[3:23], r.Sha1Hash.Slice())
 
 	// chunk count
-	result[23] = uint8(len(r.Chunks))
+	ranges := clipRanges(r.Chunks)
+	result[23] = uint8(len(ranges))
 
 	// chunks
-	chunks := make([]byte, len(r.Chunks)*2)
-	for i, chunkVal := range r.Chunks {
+	chunks := make([]byte, len(ranges)*2)
+	for i, chunkVal := range ranges {
 		index := i * 2
 		binary.BigEndian.PutUint16(chunks[index:index+2], chunkVal)
 	}
@@ -83,11 +84,12 @@ func (r *DiscoverHostResponse) Serialize() []byte {
 	binary.BigEndian.PutUint16(result[7:9], r.Port)
 
 	// chunk count
-	result[9] = uint8(len(r.Chunks))
+	ranges := clipRanges(r.Chunks)
+	result[9] = uint8(len(ranges))
 
 	// chunks
-	chunks := make([]byte, len(r.Chunks)*2)
-	for i, chunkVal := range r.Chunks {
+	chunks := make([]byte, len(ranges)*2)
+	for i, chunkVal := range ranges {
 		index := i * 2
 		binary.BigEndian.PutUint16(chunks[index:index+2], chunkVal)
 	}
@@ -100,3 +102,12 @@ func (r *DiscoverHostResponse) Serialize() []byte {
 func (r *DiscoverHostResponse) Type() byte {
 	return discoverHostResponse
 }
+
+// clipRanges drops the trailing ranges that do not fit into a message. The number of bounds is sent
+// as a single byte, and every range has two of them.
+func clipRanges(ranges []uint16) []uint16 {
+	if len(ranges) > 255 {
+		return ranges[:254]
+	}
+	return ranges
+}
-- 
2.43.0


From 5a0dc6cac4aabc4ca145f80ac399ebb4dd4b78d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 07/37] fix: malformed messages are parse errors instead of
 panics

A datagram shorter than its type and counts promise made Parse read past the
end of the data, which killed the daemon.
---
 flu/messages/parse.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flu/messages/parse.go b/flu/messages/parse.go
index 3329ac9..cd761ae 100644
--- a/flu/messages/parse.go
+++ b/flu/messages/parse.go
@@ -4,6 +4,13 @@ import "fmt"
 
 // Parse attempts to parse a serialized message into a flu messages.Message
 func Parse(data []byte) (msg Message, err error) {
+	// the reader panics when it is asked to read past the end of the data
+	defer func() {
+		if r := recover(); r != nil {
+			msg, err = nil, fmt.Errorf("Malformed message discarded: %v", r)
+		}
+	}()
+
 	reader := byteReader{Data: data}
 	msgType := reader.readByte()
 
-- 
2.43.0


From 8825a489e8bb4b3a0979166656772573e9e1e67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:56 +0000
Subject: [PATCH 08/37] fix: only parse the bytes that were received

The daemon handed its whole zeroed buffer to the parser, so that truncated (and
even empty) datagrams were taken for well-formed requests.
---
 main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 9da2737..89dfae8 100644
--- a/main.go
+++ b/main.go
@@ -89,10 +89,10 @@ func startDaemon() {
 
 		for {
 			buffer := make([]byte, 1024)
-			_, returnAddress, err := c1.ReadFromUDP(buffer)
+			n, returnAddress, err := c1.ReadFromUDP(buffer)
 			failHard(err)
 			go func() {
-				err := fluServer.HandleMessage(buffer, c1, returnAddress)
+				err := fluServer.HandleMessage(buffer[:n], c1, returnAddress)
 				if err != nil {
 					fmt.Println(err)
 				}
-- 
2.43.0


From a6614ef214c380ecab036efbade31edbae3c654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 09/37] fix: a crash while saving no longer destroys the index
 or a progress file

Both were truncated and rewritten in place, so a crash (or a full disk) at the
wrong moment left an empty file, and the daemon could not start again.
---
 catalogue/atomicWrite.go  | 19 +++++++++++++++++++
 catalogue/indexFile.go    |  2 +-
 catalogue/progressFile.go |  2 +-
 3 files changed, 21 insertions(+), 2 deletions(-)
 create mode 100644 catalogue/atomicWrite.go

diff --git a/catalogue/atomicWrite.go b/catalogue/atomicWrite.go
new file mode 100644
index 0000000..36a8bad
--- /dev/null
+++ b/catalogue/atomicWrite.go
@@ -0,0 +1,19 @@
+package catalogue
+
+import "os"
+
+// writeFileAtomically replaces the content of the file at path, creating it if necessary. The data
+// goes to a temporary file first, so that whatever happens on the way, path holds either all of its
+// old content or all of the new.
+func writeFileAtomically(path string, data []byte) error {
+	tmpPath := path + ".tmp"
+
+	err := os.WriteFile(tmpPath, data, 0664)
+	if err == nil {
+		err = os.Rename(tmpPath, path)
+	}
+	if err != nil {
+		os.Remove(tmpPath)
+	}
+	return err
+}
diff --git a/catalogue/indexFile.go b/catalogue/indexFile.go
index c29d583..2dbd077 100644
--- a/catalogue/indexFile.go
+++ b/catalogue/indexFile.go
@@ -81,7 +81,7 @@ func (ind *indexFile) save() error {
 	}
 
 	indexFilePath := filepath.Join(ind.dataDir, indexFileName)
-	err = os.WriteFile(indexFilePath, data, 0664)
+	err = writeFileAtomically(indexFilePath, data)
 	if err != nil {
 		return err
 	}
diff --git a/catalogue/progressFile.go b/catalogue/progressFile.go
index ba14d80..66c502e 100644
--- a/catalogue/progressFile.go
+++ b/catalogue/progressFile.go
@@ -92,7 +92,7 @@ func newProgressFile(record *indexRecord, dataDir string) *progressFile {
 func (p *progressFile) save() error {
 	data := p.progress.Serialize()
 	progressFilePath := filepath.Join(p.filePath)
-	err := os.WriteFile(progressFilePath, data, 0664)
+	err := writeFileAtomically(progressFilePath, data)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 7ef2ba43fa72fac5a94044174b1d031f02150dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:31 +0000
Subject: [PATCH 10/37] fix: the index never mentions a file that has no
 progress file

Sharing and registering wrote the index first, and unsharing deleted the
progress file first. A crash (or error) in between left an index entry without
a progress file, after which nothing could be listed, cleaned or unshared.
---
 catalogue/catalogue.go | 26 ++++++++++++++++++--------
 catalogue/indexFile.go | 12 ++++++++++--
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index ac718a7..0236cc8 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -69,11 +69,12 @@ func (c *Cat) ShareFile(path string) (*indexRecord, error) {
 		return nil, err
 	}
 
-	err = c.indexFile.AddIndexRecord(record)
+	err = c.indexFile.ensureNew(record)
 	if err != nil {
 		return nil, err
 	}
 
+	// the progress file goes first: the index must never mention a file without one
 	record.ProgressFile = newProgressFile(record, c.DataDir)
 	record.ProgressFile.progress.Fill()
 	err = record.ProgressFile.save()
@@ -81,6 +82,11 @@ func (c *Cat) ShareFile(path string) (*indexRecord, error) {
 		return nil, err
 	}
 
+	err = c.indexFile.AddIndexRecord(record)
+	if err != nil {
+		return nil, err
+	}
+
 	return record, nil
 }
 
@@ -95,16 +101,14 @@ func (c *Cat) UnshareFile(hash *common.Sha1Hash) error {
 		return err
 	}
 
-	err = rec.ProgressFile.delete()
-	if err != nil {
-		return err
-	}
-
 	err = c.indexFile.RemoveIndexRecord(rec)
 	if err != nil {
 		return err
 	}
 
+	// Nothing refers to the progress file any more. If it cannot be deleted it does no harm, and will
+	// be replaced should the same file ever be indexed again.
+	rec.ProgressFile.delete()
 	return nil
 }
 
@@ -128,13 +132,19 @@ func (c *Cat) RegisterDownload(
 		ChunkSize:    int(chunkSizeInBytes),
 	}
 
-	err := c.indexFile.AddIndexRecord(&indexRecord)
+	err := c.indexFile.ensureNew(&indexRecord)
 	if err != nil {
 		return nil, err
 	}
 
+	// the progress file goes first: the index must never mention a file without one
 	indexRecord.ProgressFile = newProgressFile(&indexRecord, c.DataDir)
-	indexRecord.ProgressFile.save()
+	err = indexRecord.ProgressFile.save()
+	if err != nil {
+		return nil, err
+	}
+
+	err = c.indexFile.AddIndexRecord(&indexRecord)
 	if err != nil {
 		return nil, err
 	}
diff --git a/catalogue/indexFile.go b/catalogue/indexFile.go
index 2dbd077..8623646 100644
--- a/catalogue/indexFile.go
+++ b/catalogue/indexFile.go
@@ -93,13 +93,21 @@ func (ind *indexFile) save() error {
 // representation of the data so that change is reflected. If an identical file has already been
 // shared, this will safely return an error
 func (ind *indexFile) AddIndexRecord(record *indexRecord) error {
-	if extantRecord, exists := ind.index[record.Sha1Hash]; exists {
-		return fmt.Errorf("identical file already shared: %s", extantRecord.FilePath)
+	if err := ind.ensureNew(record); err != nil {
+		return err
 	}
 	ind.index[record.Sha1Hash] = record
 	return ind.save()
 }
 
+// ensureNew returns an error if an identical file has already been shared
+func (ind *indexFile) ensureNew(record *indexRecord) error {
+	if extantRecord, exists := ind.index[record.Sha1Hash]; exists {
+		return fmt.Errorf("identical file already shared: %s", extantRecord.FilePath)
+	}
+	return nil
+}
+
 // RemoveIndexRecord removes an indexRecord from the underlying file, and reloads the in-memory
 // representation of the data so that change is reflected.
 func (ind *indexFile) RemoveIndexRecord(record *indexRecord) error {
-- 
2.43.0


From 0502b3621ebd1127d405cb4f4d94aa9d1227e82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:33 +0000
Subject: [PATCH 11/37] fix: a failed save leaves the catalogue as it was

When the index or a progress file could not be written, the operation returned
an error, but the in-memory catalogue kept the change, and later saves would
have made it permanent.
---
 catalogue/catalogue.go    |  7 ++++++-
 catalogue/indexFile.go    | 12 ++++++++++--
 catalogue/progressFile.go |  6 ++++++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 0236cc8..24bed37 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -244,8 +244,13 @@ func (c *Cat) SaveChunk(hash *common.Sha1Hash, chunk uint16, data []byte) error
 		return err
 	}
 
+	alreadySaved := ir.ProgressFile.progress.Get(uint64(chunk))
 	ir.ProgressFile.Set(uint64(chunk))
-	return ir.ProgressFile.save()
+	err = ir.ProgressFile.save()
+	if err != nil && !alreadySaved {
+		ir.ProgressFile.Unset(uint64(chunk))
+	}
+	return err
 }
 
 func (c *Cat) GetChunkReader(hash *common.Sha1Hash, chunk int64) (*common.ChunkReader, error) {
diff --git a/catalogue/indexFile.go b/catalogue/indexFile.go
index 8623646..db45355 100644
--- a/catalogue/indexFile.go
+++ b/catalogue/indexFile.go
@@ -97,7 +97,11 @@ func (ind *indexFile) AddIndexRecord(record *indexRecord) error {
 		return err
 	}
 	ind.index[record.Sha1Hash] = record
-	return ind.save()
+	err := ind.save()
+	if err != nil {
+		delete(ind.index, record.Sha1Hash)
+	}
+	return err
 }
 
 // ensureNew returns an error if an identical file has already been shared
@@ -112,7 +116,11 @@ func (ind *indexFile) ensureNew(record *indexRecord) error {
 // representation of the data so that change is reflected.
 func (ind *indexFile) RemoveIndexRecord(record *indexRecord) error {
 	delete(ind.index, record.Sha1Hash)
-	return ind.save()
+	err := ind.save()
+	if err != nil {
+		ind.index[record.Sha1Hash] = record
+	}
+	return err
 }
 
 // MarshalJSON conforms to the Marshaler interface
diff --git a/catalogue/progressFile.go b/catalogue/progressFile.go
index 66c502e..49fe9b2 100644
--- a/catalogue/progressFile.go
+++ b/catalogue/progressFile.go
@@ -31,6 +31,12 @@ func (p *progressFile) Set(index uint64) {
 	p.progress.Set(index)
 }
 
+func (p *progressFile) Unset(index uint64) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	p.progress.Unset(index)
+}
+
 // Size returns the number of elements in the bitset, both set and unset. Size is always
 // non-negative
 func (p *progressFile) Size() int {
-- 
2.43.0


From ccf3a603a8bee44fa919d9dc1dc6aad022885122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:00 +0000
Subject: [PATCH 12/37] fix: look-ups in the catalogue take its lock

Contains and Rehash read the index while other goroutines change it (every
discovery request calls Contains), which crashes the daemon with 'concurrent
map read and map write'. Rehash also returns a blank hash along with every
error, as documented; clean dereferences it.
---
 catalogue/catalogue.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 24bed37..0dc957f 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -178,9 +178,11 @@ func (c *Cat) ListFiles() ([]IndexRecordExport, error) {
 // Rehash attempts to recalculate the hash for a given indexRecord. If it fails, a blank hash and an
 // error are returned.
 func (c *Cat) Rehash(hash *common.Sha1Hash) (*common.Sha1Hash, error) {
+	c.lock.Lock()
 	rec, err := c.getIndexRecord(hash)
+	c.lock.Unlock() // hashing takes long, and the path of a record never changes
 	if err != nil {
-		return nil, err
+		return (&common.Sha1Hash{}).Blank(), err
 	}
 	currentHash, err := common.HashFile(rec.FilePath)
 	if err != nil {
@@ -192,6 +194,12 @@ func (c *Cat) Rehash(hash *common.Sha1Hash) (*common.Sha1Hash, error) {
 // Contains returns the IndexRecordExport of the file specified by the hash, or an error if the file
 // cannot be accessed for any reason.
 func (c *Cat) Contains(hash *common.Sha1Hash) (*IndexRecordExport, error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+	return c.contains(hash)
+}
+
+func (c *Cat) contains(hash *common.Sha1Hash) (*IndexRecordExport, error) {
 	record, err := c.getIndexRecord(hash)
 	if err != nil {
 		return nil, err
@@ -203,7 +211,7 @@ func (c *Cat) Contains(hash *common.Sha1Hash) (*IndexRecordExport, error) {
 func (c *Cat) Get(hash *common.Sha1Hash) *IndexRecordExport {
 	c.lock.Lock()
 	defer c.lock.Unlock()
-	result, err := c.Contains(hash)
+	result, err := c.contains(hash)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 85a5400945ee6f920ffe419c081caf59d0e0ea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:12 +0000
Subject: [PATCH 13/37] fix: unsharing a file while it downloads no longer
 crashes the daemon

---
 catalogue/catalogue.go     | 11 +++++++----
 flu/serverStartDownload.go | 11 +++++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 0dc957f..886fbee 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -218,23 +218,26 @@ func (c *Cat) Get(hash *common.Sha1Hash) *IndexRecordExport {
 	return result
 }
 
+// FileComplete returns true if all chunks of the file are present, and false if not, or if the file
+// is not in the catalogue.
 func (c *Cat) FileComplete(hash *common.Sha1Hash) bool {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 	ir, err := c.getIndexRecord(hash)
 	if err != nil {
-		panic(err)
+		return false
 	}
 	return ir.ProgressFile.Full()
 }
 
-// MissingChunks returns a list of ranges of missing chunks for the given hash
+// MissingChunks returns a list of ranges of missing chunks for the given hash. Nothing is missing
+// from a file that is not in the catalogue.
 func (c *Cat) MissingChunks(hash *common.Sha1Hash, maxCount int) []common.Range {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 	ir, err := c.getIndexRecord(hash)
 	if err != nil {
-		panic(err)
+		return []common.Range{}
 	}
 	return ir.ProgressFile.progress.UnfilledRanges()
 }
@@ -244,7 +247,7 @@ func (c *Cat) SaveChunk(hash *common.Sha1Hash, chunk uint16, data []byte) error
 	defer c.lock.Unlock()
 	ir, err := c.getIndexRecord(hash)
 	if err != nil {
-		panic(err)
+		return err
 	}
 
 	err = ir.saveChunk(int64(chunk), data)
diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index 60a2b28..4869c42 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -53,6 +53,10 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 			wantedChunks := s.cat.MissingChunks(hash, 1) // TOOD: something much better than just
 			// getting the next wanted chunk. This runs the entire download serially!
 			// Find the least-known chunk from each host and download them
+			if len(wantedChunks) == 0 {
+				// Another transfer got the last chunk, or the file is no longer in the catalogue
+				break
+			}
 			c := wantedChunks[0]
 			goodHosts = s.getGoodHosts(hash, []uint16{c.Start, c.End}, ownIPV4)
 
@@ -71,7 +75,9 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 				s.transferLock.Unlock()
 			}
 		}
-		fmt.Println("Download complete")
+		if s.cat.FileComplete(hash) {
+			fmt.Println("Download complete")
+		}
 	}()
 
 	return nil
@@ -130,7 +136,8 @@ func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Has
 				}
 				err = s.cat.SaveChunk(sha1Hash, chunk, conn.buffer)
 				if err != nil {
-					panic(err)
+					fmt.Printf("Failed to save chunk %d: %v\n", chunk, err)
+					break
 				}
 				downloadTime := float64(time.Since(start).Seconds())
 				speed := 4.0 / downloadTime
-- 
2.43.0


From 910352e2c73df049409320a1f8b36d47dd7b6b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 14/37] fix: what a peer says about a file cannot break the
 catalogue or escape the downloads directory

---
 catalogue/catalogue.go | 56 ++++++++++++++++++++++++++++++++++++++++--
 catalogue/indexFile.go | 10 ++++++++
 2 files changed, 64 insertions(+), 2 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 886fbee..c96d352 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -3,11 +3,15 @@ package catalogue
 import (
 	"fmt"
 	"path/filepath"
+	"strings"
 	"sync"
 
 	"github.com/flu-network/client/common"
 )
 
+const maxChunkCount = 1 << 16 // chunks are numbered with 16 bits
+const maxFileNameLength = 255 // in bytes
+
 // Cat is a wrapper around the on-disk catalogue data for Flu clients. There should only be one
 // cat per physical computer, and a single process accessing the cat files at any time. A cat
 // consists of an index file (index.json) and several progress files (each named after the sha1
@@ -124,15 +128,24 @@ func (c *Cat) RegisterDownload(
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	err := validateDimensions(sizeInBytes, chunkCount, chunkSizeInBytes)
+	if err != nil {
+		return nil, err
+	}
+
 	indexRecord := indexRecord{
-		FilePath:     filepath.Join(c.DefaultDownloadsDir, filename),
 		SizeInBytes:  int64(sizeInBytes),
 		Sha1Hash:     *sha1Hash,
 		ProgressFile: nil,
 		ChunkSize:    int(chunkSizeInBytes),
 	}
 
-	err := c.indexFile.ensureNew(&indexRecord)
+	err = c.indexFile.ensureNew(&indexRecord)
+	if err != nil {
+		return nil, err
+	}
+
+	indexRecord.FilePath, err = c.downloadPath(filename, sha1Hash)
 	if err != nil {
 		return nil, err
 	}
@@ -152,6 +165,45 @@ func (c *Cat) RegisterDownload(
 	return indexRecord.export(), nil
 }
 
+// validateDimensions returns an error if no file can be divided into chunks like that.
+func validateDimensions(sizeInBytes uint64, chunkCount uint32, chunkSizeInBytes uint32) error {
+	if chunkSizeInBytes == 0 {
+		return fmt.Errorf("invalid chunk size: 0")
+	}
+	expectedChunkCount := sizeInBytes / uint64(chunkSizeInBytes)
+	if sizeInBytes%uint64(chunkSizeInBytes) != 0 {
+		expectedChunkCount++
+	}
+	if expectedChunkCount != uint64(chunkCount) || chunkCount > maxChunkCount {
+		return fmt.Errorf("invalid file: %d bytes in %d chunks of %d bytes",
+			sizeInBytes, chunkCount, chunkSizeInBytes)
+	}
+	return nil
+}
+
+// downloadPath returns where to store a download for which a peer suggested the given name: always
+// directly in the downloads directory, and never where another file of the index is stored.
+func (c *Cat) downloadPath(filename string, hash *common.Sha1Hash) (string, error) {
+	name := filepath.Base(filename)
+	if name == "." || name == ".." || name == string(filepath.Separator) ||
+		strings.ContainsRune(name, 0) {
+		return "", fmt.Errorf("invalid file name: %q", filename)
+	}
+
+	path := filepath.Join(c.DefaultDownloadsDir, name)
+	if c.indexFile.findPath(path) != nil {
+		name = hash.String() + "-" + name
+		if len(name) > maxFileNameLength {
+			name = name[:maxFileNameLength]
+		}
+		path = filepath.Join(c.DefaultDownloadsDir, name)
+	}
+	if c.indexFile.findPath(path) != nil {
+		return "", fmt.Errorf("another file is already stored at %s", path)
+	}
+	return path, nil
+}
+
 // ListFiles lists the files that exist in the catalogue. Not all indexed files have been downloaded
 // in their entirety. The result is a deep copy of the underlying catalogue data, so mutating it is
 // okay.
diff --git a/catalogue/indexFile.go b/catalogue/indexFile.go
index db45355..801b3be 100644
--- a/catalogue/indexFile.go
+++ b/catalogue/indexFile.go
@@ -112,6 +112,16 @@ func (ind *indexFile) ensureNew(record *indexRecord) error {
 	return nil
 }
 
+// findPath returns the record of the file stored at the given path, or nil if there is none
+func (ind *indexFile) findPath(path string) *indexRecord {
+	for _, record := range ind.index {
+		if record.FilePath == path {
+			return record
+		}
+	}
+	return nil
+}
+
 // RemoveIndexRecord removes an indexRecord from the underlying file, and reloads the in-memory
 // representation of the data so that change is reflected.
 func (ind *indexFile) RemoveIndexRecord(record *indexRecord) error {
-- 
2.43.0


From 21fa4a2632ae6c6ad29731edd9f83ae077b1413b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:05 +0000
Subject: [PATCH 15/37] fix: an unfinished download cannot be shared as a file
 of its own

---
 catalogue/catalogue.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index c96d352..7b3c903 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -78,6 +78,16 @@ func (c *Cat) ShareFile(path string) (*indexRecord, error) {
 		return nil, err
 	}
 
+	if rec := c.indexFile.findPath(record.FilePath); rec != nil {
+		rec, err := c.fill(rec)
+		if err != nil {
+			return nil, err
+		}
+		if !rec.ProgressFile.Full() {
+			return nil, fmt.Errorf("cannot share an unfinished download: %s", rec.FilePath)
+		}
+	}
+
 	// the progress file goes first: the index must never mention a file without one
 	record.ProgressFile = newProgressFile(record, c.DataDir)
 	record.ProgressFile.progress.Fill()
-- 
2.43.0


From e6c15d2a2812fc32b9e1434d8c86b6ef20eebe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:39 +0000
Subject: [PATCH 16/37] fix: refuse to save chunks that do not exist or have
 the wrong length

---
 catalogue/indexRecord.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 0b114b8..0ecd917 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -49,7 +49,28 @@ func (ir *indexRecord) export() *IndexRecordExport {
 	}
 }
 
+// chunkLength returns the number of bytes in the given chunk, or an error if there is no such chunk.
+// All chunks are equally long, except for the last one.
+func (ir *indexRecord) chunkLength(chunk int64) (int64, error) {
+	start := chunk * int64(ir.ChunkSize)
+	if chunk < 0 || start >= ir.SizeInBytes {
+		return 0, fmt.Errorf("no chunk %d in a file of %d bytes", chunk, ir.SizeInBytes)
+	}
+	if start+int64(ir.ChunkSize) > ir.SizeInBytes {
+		return ir.SizeInBytes - start, nil
+	}
+	return int64(ir.ChunkSize), nil
+}
+
 func (ir *indexRecord) saveChunk(chunk int64, data []byte) error {
+	length, err := ir.chunkLength(chunk)
+	if err != nil {
+		return err
+	}
+	if int64(len(data)) != length {
+		return fmt.Errorf("chunk %d has %d bytes instead of %d", chunk, len(data), length)
+	}
+
 	fd, err := os.OpenFile(ir.FilePath, os.O_RDWR|os.O_CREATE, 0777)
 	if err != nil {
 		return err
-- 
2.43.0


From ce72db203ee491cd65dbb97134fcd0cb9bf573ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 17/37] fix: unreadable files and special files no longer hang
 the daemon

---
 catalogue/indexRecord.go | 16 +++++++++++++++-
 common/chunkReader.go    |  2 +-
 common/utils.go          | 17 +++++++++++++++++
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 0ecd917..45228b3 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -94,6 +94,15 @@ func (ir *indexRecord) getChunkReader(chunk int64) (*common.ChunkReader, error)
 		return nil, fmt.Errorf("missing requested chunk %d", chunk)
 	}
 
+	length, err := ir.chunkLength(chunk)
+	if err != nil {
+		return nil, err
+	}
+
+	if err := common.EnsureRegular(ir.FilePath); err != nil {
+		return nil, err
+	}
+
 	fd, err := os.Open(ir.FilePath)
 	if err != nil {
 		return nil, err
@@ -105,7 +114,12 @@ func (ir *indexRecord) getChunkReader(chunk int64) (*common.ChunkReader, error)
 		return nil, err
 	}
 
-	return common.NewChunkReader(secReader), nil
+	reader := common.NewChunkReader(secReader)
+	if reader.Size != length {
+		fd.Close()
+		return nil, fmt.Errorf("read only %d of %d bytes of chunk %d", reader.Size, length, chunk)
+	}
+	return reader, nil
 }
 
 func generateIndexRecordForFile(path string) (*indexRecord, error) {
diff --git a/common/chunkReader.go b/common/chunkReader.go
index 64b2e30..f606523 100644
--- a/common/chunkReader.go
+++ b/common/chunkReader.go
@@ -73,7 +73,7 @@ func NewChunkReader(reader *io.SectionReader) *ChunkReader {
 			}
 		}
 
-		if err == io.EOF {
+		if err != nil { // the end, or as far as we can read
 			break
 		}
 	}
diff --git a/common/utils.go b/common/utils.go
index 8d1f3e7..6a1742c 100644
--- a/common/utils.go
+++ b/common/utils.go
@@ -11,6 +11,10 @@ import (
 // TODO: come up with some sort of async/progress-bar method because at 500mbps of disk throughput
 // this could take 10 seconds for a 5GB file, and 1.5 minutes for a 50GB file.
 func HashFile(path string) (*Sha1Hash, error) {
+	if err := EnsureRegular(path); err != nil {
+		return nil, err
+	}
+
 	f, err := os.Open(path)
 	if err != nil {
 		return nil, err
@@ -43,6 +47,19 @@ func HashFile(path string) (*Sha1Hash, error) {
 	return (&Sha1Hash{}).FromSlice(hash.Sum(nil)), nil
 }
 
+// EnsureRegular returns an error if the path does not lead to a regular file. Opening or reading
+// anything else (a directory, a named pipe, a device) may fail in odd ways, or never return.
+func EnsureRegular(path string) error {
+	info, err := os.Stat(path)
+	if err != nil {
+		return err
+	}
+	if !info.Mode().IsRegular() {
+		return fmt.Errorf("%s is not a regular file", path)
+	}
+	return nil
+}
+
 func failHard(err error) {
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 2e4a0ca46e8b6486b4533d383e52e0d16834e75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 18/37] fix: a catalogue that was moved keeps its index in the
 new place

---
 catalogue/indexFile.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/catalogue/indexFile.go b/catalogue/indexFile.go
index 801b3be..28881a8 100644
--- a/catalogue/indexFile.go
+++ b/catalogue/indexFile.go
@@ -70,6 +70,7 @@ func (ind *indexFile) Init(dataDir string) error {
 	}
 
 	err = ind.UnmarshalJSON(data)
+	ind.dataDir = dataDir // not where the directory was when the index was last saved
 	// TODO: assert ownership
 	return err
 }
-- 
2.43.0


From 01bf25369bc72098151030c19f0744c79e638423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:43 +0000
Subject: [PATCH 19/37] fix: paths that are not valid UTF-8 survive a restart

---
 catalogue/indexRecord.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 45228b3..9c8d751 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"unicode/utf8"
 
 	"github.com/flu-network/client/common"
 	"github.com/flu-network/client/common/bitset"
@@ -150,12 +151,16 @@ func generateIndexRecordForFile(path string) (*indexRecord, error) {
 
 // toJSON returns an indexRecordJSON, which can natively be marshalled into JSON
 func (ir *indexRecord) toJSON() *indexRecordJSON {
-	return &indexRecordJSON{
+	result := &indexRecordJSON{
 		FilePath:    ir.FilePath,
 		SizeInBytes: ir.SizeInBytes,
 		Sha1Hash:    ir.Sha1Hash.String(),
 		ChunkSize:   ir.ChunkSize,
 	}
+	if !utf8.ValidString(ir.FilePath) {
+		result.RawFilePath = []byte(ir.FilePath)
+	}
+	return result
 }
 
 // UnmarshalJSON conforms to the Marshaler interface
@@ -168,6 +173,10 @@ func (irj *indexRecordJSON) fromJSON() (*indexRecord, error) {
 		ChunkSize:    irj.ChunkSize,
 	}
 
+	if irj.RawFilePath != nil {
+		result.FilePath = string(irj.RawFilePath)
+	}
+
 	err := result.Sha1Hash.FromStringSafe(irj.Sha1Hash)
 	if err != nil {
 		return nil, err
@@ -182,4 +191,7 @@ type indexRecordJSON struct {
 	SizeInBytes int64
 	Sha1Hash    string
 	ChunkSize   int
+
+	// Only present if FilePath is not valid UTF-8 and so cannot be represented in JSON
+	RawFilePath []byte `json:",omitempty"`
 }
-- 
2.43.0


From 78fce18c109ccbe531c4b967013da4a9292d414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:56 +0000
Subject: [PATCH 20/37] fix: create the downloads directory if it is missing

---
 catalogue/indexRecord.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 9c8d751..0ad0dad 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -72,6 +72,10 @@ func (ir *indexRecord) saveChunk(chunk int64, data []byte) error {
 		return fmt.Errorf("chunk %d has %d bytes instead of %d", chunk, len(data), length)
 	}
 
+	if err := os.MkdirAll(filepath.Dir(ir.FilePath), os.ModePerm); err != nil {
+		return err
+	}
+
 	fd, err := os.OpenFile(ir.FilePath, os.O_RDWR|os.O_CREATE, 0777)
 	if err != nil {
 		return err
-- 
2.43.0


From 3cfadfe104c0ebf523950efaad447d5133d993e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:58 +0000
Subject: [PATCH 21/37] fix: a download over an older, longer file ends up with
 the right size

---
 catalogue/indexRecord.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 0ad0dad..36cac8d 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -89,7 +89,13 @@ func (ir *indexRecord) saveChunk(chunk int64, data []byte) error {
 	if wrote != len(data) {
 		return fmt.Errorf("wrote only %d of %d bytes", wrote, len(data))
 	}
-	return nil
+
+	// some older, longer file may have been there already
+	info, err := fd.Stat()
+	if err == nil && info.Size() > ir.SizeInBytes {
+		err = fd.Truncate(ir.SizeInBytes)
+	}
+	return err
 }
 
 // getChunkReader returns a ChunkReader. It should be called via the catalogue so we know it is
-- 
2.43.0


From d211221c6ce2b1dde2e83fcfbbe6c543ae2f4088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:49 +0000
Subject: [PATCH 22/37] fix: uploads end, and no longer get mixed up with each
 other

---
 flu/senderConnection.go     | 60 ++++++++++++++++++++++++++++++++-----
 flu/server.go               | 24 ++++++++++++++-
 flu/serverContinueUpload.go |  7 ++++-
 flu/serverStartUpload.go    | 11 ++++---
 4 files changed, 88 insertions(+), 14 deletions(-)

diff --git a/flu/senderConnection.go b/flu/senderConnection.go
index e618dcb..2a98566 100644
--- a/flu/senderConnection.go
+++ b/flu/senderConnection.go
@@ -2,13 +2,19 @@ package flu
 
 import (
 	"encoding/binary"
+	"fmt"
 	"io"
 	"net"
+	"sync"
+	"time"
 
 	"github.com/flu-network/client/common"
 	"github.com/flu-network/client/flu/messages"
 )
 
+// maxAckDelay is how long to wait for a client that no longer acknowledges anything
+const maxAckDelay = 15 * time.Second
+
 type SenderConnection struct {
 	reader     *common.ChunkReader
 	windowSize uint16
@@ -16,7 +22,9 @@ type SenderConnection struct {
 	conn       *net.UDPConn
 	addr       *net.UDPAddr
 	packetChan chan messages.DataPacketAck
-	cancelChan chan struct{}
+	cancelChan chan struct{} // closed when the transfer has ended
+	cancelOnce sync.Once
+	sendLock   sync.Mutex // held while sending
 }
 
 func NewSenderConnection(reader *common.ChunkReader,
@@ -31,7 +39,7 @@ func NewSenderConnection(reader *common.ChunkReader,
 		conn:       conn,
 		addr:       addr,
 		packetChan: make(chan messages.DataPacketAck, windowCap),
-		cancelChan: make(chan struct{}, 1),
+		cancelChan: make(chan struct{}),
 	}
 }
 
@@ -42,6 +50,12 @@ func (sc *SenderConnection) kickstart(
 	hash *common.Sha1Hash,
 	size int64,
 ) error {
+	sc.sendLock.Lock()
+	defer sc.sendLock.Unlock()
+	if sc.terminated() {
+		return fmt.Errorf("upload to %v was superseded", sc.addr)
+	}
+
 	sc.reader.Reset()
 
 	firstPacket := messages.DataPacket{
@@ -71,14 +85,22 @@ func (sc *SenderConnection) kickstart(
 	sc.windowSize++
 
 	go func() {
+		idle := time.AfterFunc(maxAckDelay, sc.terminate)
+		defer idle.Stop()
+
 		for {
 			select {
 			case ack := <-sc.packetChan:
 				err := sc.kick(ack)
 				if err != nil {
-					panic(err) // TODO: Do something with these errors
+					fmt.Printf("Upload to %v failed: %v\n", sc.addr, err)
+					sc.terminate()
 				}
+				idle.Reset(maxAckDelay)
 			case <-sc.cancelChan:
+			}
+
+			if sc.terminated() {
 				return
 			}
 		}
@@ -88,24 +110,41 @@ func (sc *SenderConnection) kickstart(
 }
 
 func (sc *SenderConnection) terminate() {
-	sc.cancelChan <- struct{}{}
+	sc.cancelOnce.Do(func() { close(sc.cancelChan) })
+}
+
+func (sc *SenderConnection) terminated() bool {
+	select {
+	case <-sc.cancelChan:
+		return true
+	default:
+		return false
+	}
+}
+
+// supersede ends the transfer. Nothing is sent any more once it has returned.
+func (sc *SenderConnection) supersede() {
+	sc.terminate()
+	sc.sendLock.Lock()
+	defer sc.sendLock.Unlock()
 }
 
 // kick receives an ack from the client and responds accordingly. Passed by value because acks are
 // << 64 bits
 func (sc *SenderConnection) kick(ack messages.DataPacketAck) error {
+	sc.sendLock.Lock()
+	defer sc.sendLock.Unlock()
+
 	sc.windowSize--
 
 	packet := messages.DataPacket{Offset: 0, Data: nil}
 	packetBuffer := make([]byte, 1024)
 
-	for sc.windowSize < sc.windowCap {
+	for sc.windowSize < sc.windowCap && !sc.terminated() {
 
 		byteCount, offset, err := sc.reader.Read(packetBuffer)
 
-		if err == io.EOF {
-			defer sc.terminate() // make this the last message
-		} else if err != nil {
+		if err != nil && err != io.EOF {
 			return err
 		}
 
@@ -118,6 +157,11 @@ func (sc *SenderConnection) kick(ack messages.DataPacketAck) error {
 		}
 
 		sc.windowSize++
+
+		if byteCount == 0 {
+			sc.terminate() // that was the last message
+			break
+		}
 	}
 
 	return nil
diff --git a/flu/server.go b/flu/server.go
index 8582be7..07665bb 100644
--- a/flu/server.go
+++ b/flu/server.go
@@ -34,9 +34,11 @@ type Server struct {
 	resMapLock sync.Mutex
 
 	// transfer lock, downloads and uploads ensures safe access to the download and upload maps.
-	// These maps are used to keep track on ongoing transfers, irrespective of their state.
+	// These maps are used to keep track on ongoing transfers, irrespective of their state. Uploads
+	// have a lock of their own because transferLock is held for as long as a chunk is downloaded.
 	transferLock sync.Mutex
 	downloads    map[downloadKey]struct{} // corresponds to a single chunk from a single host
+	uploadsLock  sync.Mutex
 	uploads      map[uploadKey]*SenderConnection
 }
 
@@ -108,6 +110,26 @@ func (s *Server) deliverResponse(reqID uint16, msg messages.Message) error {
 	return fmt.Errorf("ResponseChan {%d:%d} expired", reqID, msg)
 }
 
+// registerUpload makes sc the transfer that receives the acks sent by key. If there was another one
+// it ends: the client has given up on it, or it would not have asked for something else.
+func (s *Server) registerUpload(key uploadKey, sc *SenderConnection) {
+	s.uploadsLock.Lock()
+	defer s.uploadsLock.Unlock()
+	if extant, ok := s.uploads[key]; ok {
+		extant.supersede()
+	}
+	s.uploads[key] = sc
+
+	go func() {
+		<-sc.cancelChan
+		s.uploadsLock.Lock()
+		defer s.uploadsLock.Unlock()
+		if s.uploads[key] == sc {
+			delete(s.uploads, key)
+		}
+	}()
+}
+
 func (s *Server) sendToPeer(ip net.IP, message []byte) error {
 	sock, err := net.DialUDP("udp", nil, &net.UDPAddr{IP: ip, Port: s.port})
 	if err != nil {
diff --git a/flu/serverContinueUpload.go b/flu/serverContinueUpload.go
index a29395f..17ed6a3 100644
--- a/flu/serverContinueUpload.go
+++ b/flu/serverContinueUpload.go
@@ -22,11 +22,16 @@ func (s *Server) ContinueUpload(
 		remotePort: uint16(returnAddr.Port),
 	}
 
+	s.uploadsLock.Lock()
 	sc, ok := s.uploads[key]
+	s.uploadsLock.Unlock()
 	if !ok {
 		return fmt.Errorf("no upload corresponds to %v:%d", key.remoteHost, key.remotePort)
 	}
 
-	sc.packetChan <- *ack
+	select {
+	case sc.packetChan <- *ack:
+	case <-sc.cancelChan: // nobody is waiting for acks any more
+	}
 	return nil
 }
diff --git a/flu/serverStartUpload.go b/flu/serverStartUpload.go
index 2b2b013..11ce28b 100644
--- a/flu/serverStartUpload.go
+++ b/flu/serverStartUpload.go
@@ -39,9 +39,12 @@ func (s *Server) StartUpload(
 		remotePort: uint16(returnAddr.Port),
 	}
 
-	if _, ok := s.uploads[key]; !ok {
-		s.uploads[key] = NewSenderConnection(reader, msg.WindowCap, conn, returnAddr)
-	}
+	sc := NewSenderConnection(reader, msg.WindowCap, conn, returnAddr)
+	s.registerUpload(key, sc)
 
-	return s.uploads[key].kickstart(&reader.Hash, int64(reader.Size))
+	err = sc.kickstart(&reader.Hash, int64(reader.Size))
+	if err != nil {
+		sc.terminate()
+	}
+	return err
 }
-- 
2.43.0


From 87ef4aa1ca7ee4eabef02b235df8fe63331bbfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:34 +0000
Subject: [PATCH 23/37] fix: invalid or corrupted chunk transfers are dropped,
 and leave nothing behind

---
 flu/recvConnection.go      | 17 ++++++++++++++---
 flu/serverStartDownload.go | 26 +++++++++++++++++++++++---
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/flu/recvConnection.go b/flu/recvConnection.go
index 67e7f86..af256b6 100644
--- a/flu/recvConnection.go
+++ b/flu/recvConnection.go
@@ -16,6 +16,7 @@ type RecvConnection struct {
 	buffer        []byte
 	windowCap     int
 	outChan       chan *messages.DataPacket
+	doneChan      chan struct{} // closed when nobody is going to read from outChan any more
 }
 
 func (r *RecvConnection) Ack(offset uint32) {
@@ -33,6 +34,12 @@ func (r *RecvConnection) Read() (*messages.DataPacket, bool) {
 	return result, true
 }
 
+// Close releases the connection. It cannot be read from any more.
+func (r *RecvConnection) Close() {
+	close(r.doneChan)
+	r.conn.Close()
+}
+
 func DialPeer(ip [4]byte, port uint16, hash *common.Sha1Hash, chunk uint16) (*RecvConnection, error) {
 	conn, err := net.DialUDP("udp", nil, &net.UDPAddr{IP: ip[:], Port: int(port)})
 	if err != nil {
@@ -46,6 +53,7 @@ func DialPeer(ip [4]byte, port uint16, hash *common.Sha1Hash, chunk uint16) (*Re
 		buffer:        nil,
 		windowCap:     1024,
 		outChan:       make(chan *messages.DataPacket, 10),
+		doneChan:      make(chan struct{}),
 	}
 
 	kickstartMsg := messages.OpenConnectionRequest{Sha1Hash: hash, Chunk: chunk, WindowCap: 1024}
@@ -58,11 +66,14 @@ func DialPeer(ip [4]byte, port uint16, hash *common.Sha1Hash, chunk uint16) (*Re
 			n, _, err := result.conn.ReadFromUDP(buffer)
 			if err != nil {
 				result.conn.Close()
-				result.outChan <- nil
+				close(result.outChan)
 				fmt.Printf("Connection closed: %v-%d:%v\n", hash, chunk, err)
 				break
-			} else {
-				result.outChan <- messages.ParseAsDataPacket(buffer[:n])
+			} else if n >= 5 { // anything shorter is not a data packet
+				select {
+				case result.outChan <- messages.ParseAsDataPacket(buffer[:n]):
+				case <-result.doneChan:
+				}
 			}
 		}
 	}()
diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index 4869c42..aac1eda 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -101,10 +101,20 @@ func (s *Server) downloadMetaData(
 }
 
 func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Hash, chunk uint16) {
+	defer delete(s.downloads, downloadKey{hash: *sha1Hash, remoteHost: ip})
+
+	record, err := s.cat.Contains(sha1Hash)
+	if err != nil {
+		fmt.Printf("Failed to get chunk %d: %v\n", chunk, err)
+		return
+	}
+
 	conn, err := DialPeer(ip, port, sha1Hash, chunk)
 	if err != nil {
-		panic(err) // TODO: log somewhere and move on...
+		fmt.Printf("Failed to connect to %v: %v\n", ip, err)
+		return
 	}
+	defer conn.Close()
 
 	start := time.Now()
 
@@ -116,11 +126,22 @@ func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Has
 
 		if packet.Offset == 0 {
 			// By convention the 0-offset packet contains the hash and chunk size
+			if len(packet.Data) < 24 {
+				fmt.Printf("Invalid packet from %v\n", ip)
+				break
+			}
 			hash, size, data := packet.Split()
+			if int64(size) > int64(record.ChunkSize) {
+				fmt.Printf("Chunk %d of %v is too long: %d bytes\n", chunk, ip, size)
+				break
+			}
 			conn.hash = hash
 			conn.buffer = make([]byte, size)
 			copy(conn.buffer, data) // start at zero offset
 			conn.bytesReceived += len(data)
+		} else if conn.hash == nil || int64(packet.Offset) > int64(len(conn.buffer)) {
+			fmt.Printf("Invalid packet from %v\n", ip)
+			break
 		} else {
 			conn.bytesReceived += len(packet.Data)
 			if len(packet.Data) > 0 {
@@ -133,6 +154,7 @@ func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Has
 				if finalHash.Data != conn.hash.Data {
 					// TODO: Handle this a little more gracefully...
 					fmt.Println("Sha1 hashes did not match. Download was corrupted. Retrying.")
+					break
 				}
 				err = s.cat.SaveChunk(sha1Hash, chunk, conn.buffer)
 				if err != nil {
@@ -147,8 +169,6 @@ func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Has
 		}
 		conn.Ack(packet.Offset)
 	}
-
-	delete(s.downloads, downloadKey{hash: *sha1Hash, remoteHost: ip})
 }
 
 func (s *Server) getGoodHosts(
-- 
2.43.0


From 70c6051d206a0ea2943c0acb6095c5262bd97596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:36 +0000
Subject: [PATCH 24/37] fix: do not ask for more packets at once than the
 receive buffer can hold

---
 flu/recvConnection.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flu/recvConnection.go b/flu/recvConnection.go
index af256b6..e01bf9f 100644
--- a/flu/recvConnection.go
+++ b/flu/recvConnection.go
@@ -9,6 +9,10 @@ import (
 	"github.com/flu-network/client/flu/messages"
 )
 
+// recvWindowCap is the number of packets that may be on their way to us at any time. They must all
+// fit into the socket's receive buffer, because packets that do not fit are lost for good.
+const recvWindowCap = 64
+
 type RecvConnection struct {
 	conn          *net.UDPConn
 	hash          *common.Sha1Hash
@@ -51,12 +55,12 @@ func DialPeer(ip [4]byte, port uint16, hash *common.Sha1Hash, chunk uint16) (*Re
 		hash:          nil,
 		bytesReceived: 0,
 		buffer:        nil,
-		windowCap:     1024,
+		windowCap:     recvWindowCap,
 		outChan:       make(chan *messages.DataPacket, 10),
 		doneChan:      make(chan struct{}),
 	}
 
-	kickstartMsg := messages.OpenConnectionRequest{Sha1Hash: hash, Chunk: chunk, WindowCap: 1024}
+	kickstartMsg := messages.OpenConnectionRequest{Sha1Hash: hash, Chunk: chunk, WindowCap: recvWindowCap}
 	result.conn.Write(kickstartMsg.Serialize())
 
 	go func() {
-- 
2.43.0


From 91b6d9d7e68fcb187fa908b1df514aa2060b758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:39 +0000
Subject: [PATCH 25/37] fix: a node without network access stays up

---
 flu/ipv4.go                  |  5 ++++-
 flu/server.go                |  7 -------
 flu/serverDiscoverHosts.go   | 16 ++++++++++++----
 flu/serverListFilesOnHost.go |  4 +++-
 main.go                      |  2 +-
 5 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/flu/ipv4.go b/flu/ipv4.go
index c3dfde8..8d4cd84 100644
--- a/flu/ipv4.go
+++ b/flu/ipv4.go
@@ -8,8 +8,11 @@ import (
 type ipv4 [4]byte
 
 func newIpv4(netIP *net.IP) (ipv4, error) {
-	converted := netIP.To4()
 	result := [4]byte{}
+	if netIP == nil {
+		return result, fmt.Errorf("no IP address provided")
+	}
+	converted := netIP.To4()
 	if converted == nil {
 		return result, fmt.Errorf("provided IP address is not an IPV4 address")
 	}
diff --git a/flu/server.go b/flu/server.go
index 07665bb..f884a38 100644
--- a/flu/server.go
+++ b/flu/server.go
@@ -2,7 +2,6 @@ package flu
 
 import (
 	"fmt"
-	"log"
 	"net"
 	"sync"
 
@@ -195,9 +194,3 @@ func (s *Server) LocalIP() *net.IP {
 
 	return nil
 }
-
-func check(e error) {
-	if e != nil {
-		log.Fatal(e)
-	}
-}
diff --git a/flu/serverDiscoverHosts.go b/flu/serverDiscoverHosts.go
index 9c47701..7358e61 100644
--- a/flu/serverDiscoverHosts.go
+++ b/flu/serverDiscoverHosts.go
@@ -1,6 +1,7 @@
 package flu
 
 import (
+	"fmt"
 	"net"
 	"time"
 
@@ -32,9 +33,12 @@ func (s *Server) DiscoverHosts(
 	}
 
 	conn, err := net.DialUDP("udp", nil, &broadcastAddress)
-	check(err)
-	defer conn.Close()
-	conn.Write(req.Serialize())
+	if err != nil {
+		fmt.Printf("Failed to broadcast: %v\n", err)
+	} else {
+		defer conn.Close()
+		conn.Write(req.Serialize())
+	}
 
 	// set a timeout and wait for the response
 	waitChan := time.After(2 * time.Second)
@@ -59,8 +63,12 @@ func (s *Server) RespondToDiscoverHosts(
 	returnAddr *net.UDPAddr,
 ) error {
 	ip := s.LocalIP()
+	ownIPV4, err := newIpv4(ip)
+	if err != nil {
+		return err
+	}
 	resp := messages.DiscoverHostResponse{
-		Address:   [4]byte{(*ip)[0], (*ip)[1], (*ip)[2], (*ip)[3]},
+		Address:   ownIPV4,
 		Port:      uint16(s.port),
 		RequestID: req.RequestID,
 		Chunks:    []uint16{},
diff --git a/flu/serverListFilesOnHost.go b/flu/serverListFilesOnHost.go
index 8095805..7c10a4d 100644
--- a/flu/serverListFilesOnHost.go
+++ b/flu/serverListFilesOnHost.go
@@ -23,7 +23,9 @@ func (s *Server) ListFilesOnHost(
 	req := messages.ListFilesRequest{RequestID: s.generateRequestID(), Sha1Hash: hash}
 	targetAddr := net.UDPAddr{IP: ipv4[:], Port: int(port)}
 	conn, err := net.DialUDP("udp", nil, &targetAddr)
-	check(err)
+	if err != nil {
+		return nil, err
+	}
 	defer conn.Close()
 
 	// setup response harness. Buffered so we don't deadlock
diff --git a/main.go b/main.go
index 89dfae8..585fc29 100644
--- a/main.go
+++ b/main.go
@@ -85,7 +85,7 @@ func startDaemon() {
 		c1, err := net.ListenUDP("udp", &addr)
 		failHard(err)
 		defer c1.Close()
-		fmt.Printf("UDP Interface available at: %s:%d\n", fluServer.LocalIP().String(), udpPort)
+		fmt.Printf("UDP Interface available at: %v:%d\n", fluServer.LocalIP(), udpPort)
 
 		for {
 			buffer := make([]byte, 1024)
-- 
2.43.0


From 8df002d146357b280d28362167c16bae46e670c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:57 +0000
Subject: [PATCH 26/37] fix: requests for unknown files no longer stop the
 daemon

---
 flu/serverListFilesOnHost.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/flu/serverListFilesOnHost.go b/flu/serverListFilesOnHost.go
index 7c10a4d..1164574 100644
--- a/flu/serverListFilesOnHost.go
+++ b/flu/serverListFilesOnHost.go
@@ -2,7 +2,6 @@ package flu
 
 import (
 	"fmt"
-	"log"
 	"net"
 	"path"
 	"time"
@@ -77,14 +76,13 @@ func (s *Server) RespondToListFilesOnHost(
 	if req.Sha1Hash.IsBlank() {
 		files, err = s.cat.ListFiles()
 		if err != nil {
-			log.Fatal(err)
+			return err
 		}
 	} else {
 		file, err := s.cat.Contains(req.Sha1Hash)
-		if err != nil {
-			log.Fatal(err)
+		if err == nil { // otherwise there is nothing to list
+			files = append(files, *file)
 		}
-		files = append(files, *file)
 	}
 
 	resp := messages.ListFilesResponse{
-- 
2.43.0


From 938b2b7ef755795affa29fb5a504a2b0915f51f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:58 +0000
Subject: [PATCH 27/37] fix: listings of more than a few files are no longer
 cut off

---
 flu/serverListFilesOnHost.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flu/serverListFilesOnHost.go b/flu/serverListFilesOnHost.go
index 1164574..b9c53dd 100644
--- a/flu/serverListFilesOnHost.go
+++ b/flu/serverListFilesOnHost.go
@@ -38,12 +38,12 @@ func (s *Server) ListFilesOnHost(
 			errorChan <- err
 		} else {
 			conn.Write(req.Serialize())
-			rawResponseBuffer := make([]byte, 1024)
-			_, err = conn.Read(rawResponseBuffer)
+			rawResponseBuffer := make([]byte, 1<<16) // as long as a datagram can be
+			n, err := conn.Read(rawResponseBuffer)
 			if err != nil {
 				errorChan <- err
 			} else {
-				responseChan <- rawResponseBuffer
+				responseChan <- rawResponseBuffer[:n]
 			}
 		}
 	}()
-- 
2.43.0


From fbfd35f44f0d6fd962d341a1e335bc391d344852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:00 +0000
Subject: [PATCH 28/37] fix: responses that arrive while a discovery times out
 no longer block the daemon

---
 flu/server.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/flu/server.go b/flu/server.go
index f884a38..0a180c3 100644
--- a/flu/server.go
+++ b/flu/server.go
@@ -29,7 +29,7 @@ type Server struct {
 	// resMap and resMapLock are responsible for mapping outgoing requests to incoming responses.
 	// They map an outgoing requestID and response type to an incoming message and deliver the
 	// response to the Message chan stored in the map.
-	resMap     map[requestKey]chan messages.Message
+	resMap     map[requestKey]responseHarness
 	resMapLock sync.Mutex
 
 	// transfer lock, downloads and uploads ensures safe access to the download and upload maps.
@@ -48,6 +48,12 @@ type requestKey struct {
 	messageType uint8
 }
 
+// responseHarness takes responses to the goRoutine that sent the request
+type responseHarness struct {
+	responses chan messages.Message
+	done      chan struct{} // closed when responses are no longer awaited
+}
+
 type downloadKey struct {
 	hash       common.Sha1Hash
 	remoteHost ipv4
@@ -65,7 +71,7 @@ func NewServer(port int, cat *catalogue.Cat) *Server {
 		cat:          cat,
 		reqID:        0,
 		reqIDLock:    sync.Mutex{},
-		resMap:       make(map[requestKey](chan messages.Message)),
+		resMap:       make(map[requestKey]responseHarness),
 		resMapLock:   sync.Mutex{},
 		transferLock: sync.Mutex{},
 		downloads:    make(map[downloadKey]struct{}),
@@ -86,7 +92,7 @@ func (s *Server) registerResponseChan(reqID uint16, msgType uint8) chan messages
 	s.resMapLock.Lock()
 	defer s.resMapLock.Unlock()
 	responseChan := make(chan messages.Message, 1)
-	s.resMap[key] = responseChan
+	s.resMap[key] = responseHarness{responses: responseChan, done: make(chan struct{})}
 	return responseChan
 }
 
@@ -94,6 +100,9 @@ func (s *Server) unregisterResponseChan(reqID uint16, msgType uint8) {
 	key := requestKey{reqID: reqID, messageType: msgType}
 	s.resMapLock.Lock()
 	defer s.resMapLock.Unlock()
+	if harness, ok := s.resMap[key]; ok {
+		close(harness.done)
+	}
 	delete(s.resMap, key)
 }
 
@@ -101,10 +110,14 @@ func (s *Server) unregisterResponseChan(reqID uint16, msgType uint8) {
 func (s *Server) deliverResponse(reqID uint16, msg messages.Message) error {
 	key := requestKey{reqID: reqID, messageType: msg.Type()}
 	s.resMapLock.Lock()
-	defer s.resMapLock.Unlock()
-	if responseChan, ok := s.resMap[key]; ok {
-		responseChan <- msg
-		return nil
+	harness, ok := s.resMap[key]
+	s.resMapLock.Unlock() // the receiver needs the lock when it times out
+	if ok {
+		select {
+		case harness.responses <- msg:
+			return nil
+		case <-harness.done:
+		}
 	}
 	return fmt.Errorf("ResponseChan {%d:%d} expired", reqID, msg)
 }
-- 
2.43.0


From db1532b0f0de18b6f25c941c82a7c44e4ac32871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:43 +0000
Subject: [PATCH 29/37] fix: only ask peers for missing chunks that they have

---
 flu/serverStartDownload.go | 48 +++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index aac1eda..b67188c 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -9,6 +9,9 @@ import (
 	"github.com/flu-network/client/flu/messages"
 )
 
+// maxQueryRanges is the number of ranges that fit into a DiscoverHostRequest
+const maxQueryRanges = 127
+
 // StartDownload creates a progressfile for the specified file, adds it to the catalogue, and
 // begins the download. A name for the file is chosen arbitrarily from one of the hosts who have
 // that file.
@@ -47,6 +50,9 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 	}
 
 	go func() { // TODO: make interruptiple with a channel
+		attempts := make(map[uint16]int) // per chunk
+		skip := 0
+
 		for !s.cat.FileComplete(hash) {
 
 			// MARK: MASSIVE HACK. Fix this first!
@@ -57,8 +63,15 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 				// Another transfer got the last chunk, or the file is no longer in the catalogue
 				break
 			}
-			c := wantedChunks[0]
-			goodHosts = s.getGoodHosts(hash, []uint16{c.Start, c.End}, ownIPV4)
+			if skip >= len(wantedChunks) {
+				skip = 0
+			}
+			query := make([]uint16, 0, 2*len(wantedChunks))
+			for _, c := range wantedChunks[skip:] {
+				query = append(query, c.Start, c.End)
+			}
+			skip += maxQueryRanges // if there are more of them, ask about those next time
+			goodHosts = s.getGoodHosts(hash, query, ownIPV4)
 
 			// we should really make a slice of host,chunk pairs.
 			for _, hostResponse := range goodHosts {
@@ -67,10 +80,12 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 
 				// start downloading from this host if not doing that already
 				s.transferLock.Lock()
-				if _, ok := s.downloads[key]; !ok {
-					fmt.Printf("Getting chunk: %v\n", c.Start)
+				chunk, wanted := s.pickChunk(hash, hostResponse.Chunks, attempts)
+				if _, ok := s.downloads[key]; !ok && wanted {
+					fmt.Printf("Getting chunk: %v\n", chunk)
+					attempts[chunk]++
 					s.downloads[key] = struct{}{}
-					s.downloadChunk(ip, port, hash, c.Start) // TODO: make concurrent
+					s.downloadChunk(ip, port, hash, chunk) // TODO: make concurrent
 				}
 				s.transferLock.Unlock()
 			}
@@ -83,6 +98,27 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 	return nil
 }
 
+// pickChunk returns the chunk to get from a host that offers the given ranges of chunks: one that is
+// still missing, and that was not tried more often than others. Returns false if there is none.
+func (s *Server) pickChunk(
+	hash *common.Sha1Hash,
+	offered []uint16,
+	attempts map[uint16]int,
+) (result uint16, ok bool) {
+	for _, missing := range s.cat.MissingChunks(hash, 1) {
+		for i := 0; i+1 < len(offered); i += 2 {
+			for c := int(missing.Start); c <= int(missing.End); c++ {
+				chunk := uint16(c)
+				if chunk >= offered[i] && chunk <= offered[i+1] &&
+					(!ok || attempts[chunk] < attempts[result]) {
+					result, ok = chunk, true
+				}
+			}
+		}
+	}
+	return result, ok
+}
+
 func (s *Server) downloadMetaData(
 	hash *common.Sha1Hash,
 	addr [4]byte,
@@ -176,7 +212,7 @@ func (s *Server) getGoodHosts(
 	chunks []uint16,
 	ownIP [4]byte,
 ) []*messages.DiscoverHostResponse {
-	resps := s.DiscoverHosts(hash, make([]uint16, 0))
+	resps := s.DiscoverHosts(hash, chunks)
 	result := make([]*messages.DiscoverHostResponse, 0, len(resps))
 	for i := 0; i < len(resps); i++ {
 		// skip hosts that know nothing about the file we want
-- 
2.43.0


From f0c00006a268c29cf753a942e30a414a714f3d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:03 +0000
Subject: [PATCH 30/37] fix: a download that does not have the requested hash
 is not kept

---
 flu/serverStartDownload.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index b67188c..465d507 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -49,6 +49,8 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 		}
 	}
 
+	alreadyComplete := extantRecord.Progress.Full()
+
 	go func() { // TODO: make interruptiple with a channel
 		attempts := make(map[uint16]int) // per chunk
 		skip := 0
@@ -92,12 +94,29 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 		}
 		if s.cat.FileComplete(hash) {
 			fmt.Println("Download complete")
+			if !alreadyComplete {
+				s.verifyDownload(hash)
+			}
 		}
 	}()
 
 	return nil
 }
 
+// verifyDownload checks that all the chunks together are the file that was asked for. If not, some
+// peer has sent us something else, and the file must not be offered to others.
+func (s *Server) verifyDownload(hash *common.Sha1Hash) {
+	currentHash, err := s.cat.Rehash(hash)
+	if err == nil && *currentHash == *hash {
+		return
+	}
+	fmt.Printf("File is corrupted. Removed from index: %v\n", hash)
+	err = s.cat.UnshareFile(hash)
+	if err != nil {
+		fmt.Println(err)
+	}
+}
+
 // pickChunk returns the chunk to get from a host that offers the given ranges of chunks: one that is
 // still missing, and that was not tried more often than others. Returns false if there is none.
 func (s *Server) pickChunk(
-- 
2.43.0


From c865c7681eb6b9caf89846548fd189312cc6aac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:05 +0000
Subject: [PATCH 31/37] fix: no command or reply makes the client or the daemon
 panic

---
 cli/cliClient.go       | 10 ++--------
 cli/cliMethodsChims.go |  2 +-
 cli/cliMethodsList.go  |  4 ++++
 cli/cliMethodsShare.go |  6 +++++-
 4 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/cli/cliClient.go b/cli/cliClient.go
index 08f99eb..112e14a 100644
--- a/cli/cliClient.go
+++ b/cli/cliClient.go
@@ -32,7 +32,7 @@ func (c *Client) Run(cmdArgs []string) {
 	}
 
 	client, err := rpc.Dial("unix", c.sockaddr)
-	verify(err)
+	validate(err)
 
 	cmd := cmdArgs[0]
 	args := cmdArgs[1:]
@@ -98,9 +98,9 @@ func (c *Client) Run(cmdArgs []string) {
 			Sha1Hash: &common.Sha1Hash{},
 		}
 		res := GetResponse{}
+		validateArgCount("Get", GetRequest{}, args)
 		err := req.Sha1Hash.FromStringSafe(args[0])
 		validate(err)
-		validateArgCount("Clean", GetRequest{}, args)
 		callClientMethodAndPrintResponse(client, "Methods.Get", &req, &res)
 
 	// Chims lists available hosts on the LAN, including the local daemon. If gives hosts a few
@@ -150,12 +150,6 @@ func validate(err error) {
 	}
 }
 
-func verify(err error) {
-	if err != nil {
-		panic(err)
-	}
-}
-
 func prettyPrintError(err error) {
 	if err == nil {
 		panic("Cannot format a nil error")
diff --git a/cli/cliMethodsChims.go b/cli/cliMethodsChims.go
index 2499ee2..8b04cd3 100644
--- a/cli/cliMethodsChims.go
+++ b/cli/cliMethodsChims.go
@@ -28,7 +28,7 @@ func (c *ChimResponse) Sprintf() string {
 	var b strings.Builder
 	b.WriteString(fmt.Sprintf("IP: %d.%d.%d.%d:%d\n",
 		c.HostIP[0], c.HostIP[1], c.HostIP[2], c.HostIP[3], c.HostPort))
-	for i := 0; i < len(c.Chunks); i += 2 {
+	for i := 0; i+1 < len(c.Chunks); i += 2 {
 		b.WriteString(fmt.Sprintf("  %d:%d\n", c.Chunks[i], c.Chunks[i+1]))
 	}
 	return b.String()
diff --git a/cli/cliMethodsList.go b/cli/cliMethodsList.go
index 80c9e8a..1ae229c 100644
--- a/cli/cliMethodsList.go
+++ b/cli/cliMethodsList.go
@@ -1,6 +1,7 @@
 package cli
 
 import (
+	"fmt"
 	"net"
 	"strings"
 
@@ -52,6 +53,9 @@ func (m *Methods) List(req *ListRequest, resp *ListResponse) error {
 		}
 	} else {
 		addr := req.IP.To4()
+		if addr == nil {
+			return fmt.Errorf("not an IPv4 address: %v", req.IP)
+		}
 		ip := [4]byte{addr[0], addr[1], addr[2], addr[3]}
 		r, err := m.fluServer.ListFilesOnHost(ip, uint16(m.fluServer.Port()), req.Sha1Hash)
 		if err != nil {
diff --git a/cli/cliMethodsShare.go b/cli/cliMethodsShare.go
index 9c7482f..b60b85d 100644
--- a/cli/cliMethodsShare.go
+++ b/cli/cliMethodsShare.go
@@ -27,6 +27,10 @@ type ListItem struct {
 // Sprintf returns a pretty-printed, user-facing string representation of a ListItem
 func (li *ListItem) Sprintf() string {
 	_, fileName := path.Split(li.FilePath)
+	integrity := 100 // of an empty file
+	if li.ChunkCount > 0 {
+		integrity = (li.ChunksDownloaded * 100 / li.ChunkCount * 100) / 100
+	}
 	output := []string{
 		fmt.Sprintf("%s\n", fileName),
 		fmt.Sprintf("	Path: %s\n", li.FilePath),
@@ -35,7 +39,7 @@ func (li *ListItem) Sprintf() string {
 		fmt.Sprintf("	Chunk Count: %d\n", li.ChunkCount),
 		fmt.Sprintf("	Chunks Downloaded: %d\n", li.ChunksDownloaded),
 		fmt.Sprintf("	Chunk Size: %d\n", li.ChunkSizeInBytes),
-		fmt.Sprintf("	Integrity: %d%%\n", (li.ChunksDownloaded*100/li.ChunkCount*100)/100),
+		fmt.Sprintf("	Integrity: %d%%\n", integrity),
 	}
 
 	var b strings.Builder
-- 
2.43.0


From 61cde64f11a09de3ffb166f0a103069860a6179a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:28 +0000
Subject: [PATCH 32/37] fix: truncated messages are not completed with what is
 in the buffer

---
 flu/messages/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flu/messages/parse.go b/flu/messages/parse.go
index cd761ae..73eeec6 100644
--- a/flu/messages/parse.go
+++ b/flu/messages/parse.go
@@ -11,7 +11,8 @@ func Parse(data []byte) (msg Message, err error) {
 		}
 	}()
 
-	reader := byteReader{Data: data}
+	// the data may be part of a larger buffer that must not be read
+	reader := byteReader{Data: data[:len(data):len(data)]}
 	msgType := reader.readByte()
 
 	switch msgType {
-- 
2.43.0


From 51da93418ae3343df64d315f984df6e5f1e9ec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:17 +0000
Subject: [PATCH 33/37] fix: list prints the size of files of 2^63 bytes and
 more

---
 cli/cliMethodsList.go  | 4 ++--
 cli/cliMethodsShare.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cli/cliMethodsList.go b/cli/cliMethodsList.go
index 1ae229c..7e09b61 100644
--- a/cli/cliMethodsList.go
+++ b/cli/cliMethodsList.go
@@ -44,7 +44,7 @@ func (m *Methods) List(req *ListRequest, resp *ListResponse) error {
 		for i, rec := range records {
 			resp.Items[i] = ListItem{
 				FilePath:         rec.FilePath,
-				SizeInBytes:      rec.SizeInBytes,
+				SizeInBytes:      uint64(rec.SizeInBytes),
 				Sha1Hash:         *rec.Sha1Hash.Array(),
 				ChunkCount:       rec.Progress.Size(),
 				ChunkSizeInBytes: rec.ChunkSize,
@@ -66,7 +66,7 @@ func (m *Methods) List(req *ListRequest, resp *ListResponse) error {
 		for i, file := range r.Files {
 			resp.Items[i] = ListItem{
 				FilePath:         file.FileName,
-				SizeInBytes:      int64(file.SizeInBytes),
+				SizeInBytes:      file.SizeInBytes,
 				Sha1Hash:         *file.Sha1Hash.Array(),
 				ChunkCount:       int(file.ChunkCount),
 				ChunkSizeInBytes: int(file.ChunkSizeInBytes),
diff --git a/cli/cliMethodsShare.go b/cli/cliMethodsShare.go
index b60b85d..ed77536 100644
--- a/cli/cliMethodsShare.go
+++ b/cli/cliMethodsShare.go
@@ -16,7 +16,7 @@ type ShareRequest struct {
 // ListItem contains basic information about the file that has been shared.
 type ListItem struct {
 	FilePath         string
-	SizeInBytes      int64
+	SizeInBytes      uint64
 	Sha1Hash         [20]byte
 	ChunkCount       int
 	ChunkSizeInBytes int // ChunkCount * ChunkSizeInBytes == SizeInBytes
@@ -60,7 +60,7 @@ func (m *Methods) Share(req *ShareRequest, resp *ListItem) error {
 		return err
 	}
 	resp.FilePath = record.FilePath
-	resp.SizeInBytes = record.SizeInBytes
+	resp.SizeInBytes = uint64(record.SizeInBytes)
 	resp.Sha1Hash = *record.Sha1Hash.Array()
 	resp.ChunkCount = record.ProgressFile.Size()
 	resp.ChunkSizeInBytes = record.ChunkSize
-- 
2.43.0


From 11bb4312fe107938c0fc41036c3c409db0d10e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:48 +0000
Subject: [PATCH 34/37] fix: a second daemon took the CLI socket from the
 running one

---
 main.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/main.go b/main.go
index 585fc29..c968bc6 100644
--- a/main.go
+++ b/main.go
@@ -45,6 +45,13 @@ func main() {
 }
 
 func startDaemon() {
+	// The port is taken first: if there is a daemon already, nothing of it (its catalogue, its CLI
+	// socket) may be touched
+	udpAddr := net.UDPAddr{IP: nil, Port: udpPort, Zone: ""}
+	c1, err := net.ListenUDP("udp", &udpAddr)
+	failHard(err)
+	defer c1.Close()
+
 	homeDir, err := os.UserHomeDir()
 	failHard(err)
 	calatogueDir := path.Join(homeDir, catalogueDirSuffix)
@@ -81,10 +88,6 @@ func startDaemon() {
 
 	// expose p2p interface (UDP)
 	go func() {
-		addr := net.UDPAddr{IP: nil, Port: udpPort, Zone: ""}
-		c1, err := net.ListenUDP("udp", &addr)
-		failHard(err)
-		defer c1.Close()
 		fmt.Printf("UDP Interface available at: %v:%d\n", fluServer.LocalIP(), udpPort)
 
 		for {
-- 
2.43.0


From 566ce13edf639d37dda08f7feb28667ab7893ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:03 +0000
Subject: [PATCH 35/37] fix: a peer that sends next to nothing kept all other
 downloads waiting for ever

---
 flu/serverStartDownload.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index 465d507..b7af033 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -12,6 +12,13 @@ import (
 // maxQueryRanges is the number of ranges that fit into a DiscoverHostRequest
 const maxQueryRanges = 127
 
+// A peer may take maxStall plus one second per minSpeed bytes to send a chunk. Others have to wait for as
+// long as a chunk is downloaded, so it must end at some time, whatever the peer sends.
+const (
+	maxStall = 8 * time.Second
+	minSpeed = 1 << 14
+)
+
 // StartDownload creates a progressfile for the specified file, adds it to the catalogue, and
 // begins the download. A name for the file is chosen arbitrarily from one of the hosts who have
 // that file.
@@ -172,6 +179,7 @@ func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Has
 	defer conn.Close()
 
 	start := time.Now()
+	received := 0 // bytes of data, repeated ones included
 
 	for { // returns false when done or errored
 		packet, ok := conn.Read() // blocks execution
@@ -179,6 +187,15 @@ func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Has
 			break
 		}
 
+		received += len(packet.Data)
+		if received > len(conn.buffer) {
+			received = len(conn.buffer)
+		}
+		if time.Since(start) > maxStall+time.Duration(received)*time.Second/minSpeed {
+			fmt.Printf("%v takes too long to send chunk %d\n", ip, chunk)
+			break
+		}
+
 		if packet.Offset == 0 {
 			// By convention the 0-offset packet contains the hash and chunk size
 			if len(packet.Data) < 24 {
-- 
2.43.0


From b981299bd4dc6186d47628ff7fb8ed89e95de563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:04 +0000
Subject: [PATCH 36/37] fix: files of uploads stayed open until they were
 garbage

---
 catalogue/indexRecord.go | 1 +
 common/chunkReader.go    | 9 +++++++++
 flu/server.go            | 1 +
 flu/serverStartUpload.go | 2 ++
 4 files changed, 13 insertions(+)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 36cac8d..c0ca2ff 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -126,6 +126,7 @@ func (ir *indexRecord) getChunkReader(chunk int64) (*common.ChunkReader, error)
 	}
 
 	reader := common.NewChunkReader(secReader)
+	reader.File = fd
 	if reader.Size != length {
 		fd.Close()
 		return nil, fmt.Errorf("read only %d of %d bytes of chunk %d", reader.Size, length, chunk)
diff --git a/common/chunkReader.go b/common/chunkReader.go
index f606523..a1514fd 100644
--- a/common/chunkReader.go
+++ b/common/chunkReader.go
@@ -13,6 +13,15 @@ type ChunkReader struct {
 	Reader io.SectionReader
 	Hash   Sha1Hash
 	Size   int64
+	File   io.Closer // closed by Close, if there is one
+}
+
+// Close releases the file that is read from. It is harmless while the ChunkReader is being read from.
+func (cr *ChunkReader) Close() error {
+	if cr.File == nil {
+		return nil
+	}
+	return cr.File.Close()
 }
 
 func (cr *ChunkReader) Offset() uint32 {
diff --git a/flu/server.go b/flu/server.go
index 0a180c3..19e3863 100644
--- a/flu/server.go
+++ b/flu/server.go
@@ -134,6 +134,7 @@ func (s *Server) registerUpload(key uploadKey, sc *SenderConnection) {
 
 	go func() {
 		<-sc.cancelChan
+		sc.reader.Close()
 		s.uploadsLock.Lock()
 		defer s.uploadsLock.Unlock()
 		if s.uploads[key] == sc {
diff --git a/flu/serverStartUpload.go b/flu/serverStartUpload.go
index 11ce28b..95d4663 100644
--- a/flu/serverStartUpload.go
+++ b/flu/serverStartUpload.go
@@ -25,12 +25,14 @@ func (s *Server) StartUpload(
 	}
 
 	if reader.Size > math.MaxUint32 {
+		reader.Close()
 		err = fmt.Errorf("chunk size (%d) exceeds max 32-bit int (%d)", reader.Size, math.MaxInt32)
 		return err
 	}
 
 	remoteHostIP, err := newIpv4(&returnAddr.IP)
 	if err != nil {
+		reader.Close()
 		return err
 	}
 
-- 
2.43.0


From ee19524210a39d386134511d88cbae374f17cc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:02 +0000
Subject: [PATCH 37/37] fix: share: a relative path was taken to be one of the
 daemon's working directory

---
 cli/cliClient.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/cliClient.go b/cli/cliClient.go
index 112e14a..f113f19 100644
--- a/cli/cliClient.go
+++ b/cli/cliClient.go
@@ -5,6 +5,7 @@ import (
 	"net"
 	"net/rpc"
 	"os"
+	"path/filepath"
 	"reflect"
 
 	"github.com/flu-network/client/common"
@@ -45,7 +46,10 @@ func (c *Client) Run(cmdArgs []string) {
 	// 	- flu list ~/Desktop/path-to-file.mkv
 	case "share":
 		validateArgCount("Share", ShareRequest{}, args)
-		req := ShareRequest{Filepath: args[0]}
+		// the daemon runs in a directory of its own
+		path, err := filepath.Abs(args[0])
+		validate(err)
+		req := ShareRequest{Filepath: path}
 		res := ListItem{}
 		callClientMethodAndPrintResponse(client, "Methods.Share", &req, &res)
 
-- 
2.43.0

