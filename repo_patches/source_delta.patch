From 1da8627137abb4f4ebc4825983cbe57a79bcb590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 01/61] fix: whole-file read of integers returns every word
 whatever was done before

---
 wordfile/wordfile.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/wordfile/wordfile.go b/wordfile/wordfile.go
index b72fe61..a41c905 100644
--- a/wordfile/wordfile.go
+++ b/wordfile/wordfile.go
@@ -84,10 +84,20 @@ func (wf *WordFile) WordSize() int64 {
 }
 
 func (wf *WordFile) ReadWholeFileAsInt64s() ([]int64, error) {
+	// Words still held in an append buffer must reach the underlying file before it is read
+	err := wf.file.Sync()
+	if err != nil {
+		return nil, err
+	}
+	// Earlier appends (or whole file reads) leave the file offset at the end
+	_, err = wf.underlying.Seek(0, io.SeekStart)
+	if err != nil {
+		return nil, err
+	}
 	info, _ := wf.underlying.Stat()
 	size := info.Size()
 	data := make([]byte, size)
-	_, err := io.ReadFull(wf.underlying, data)
+	_, err = io.ReadFull(wf.underlying, data)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 4a34967a143dfad85fdaeeed3568f2f14f2c97eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 02/61] fix: ReadAll of an append-optimised file reads from the
 start of the file

---
 memfile/appendoptimized.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/memfile/appendoptimized.go b/memfile/appendoptimized.go
index 5f9b01d..1472dca 100644
--- a/memfile/appendoptimized.go
+++ b/memfile/appendoptimized.go
@@ -46,6 +46,11 @@ func (a *appendOptimizedFile) ReadAll() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	// Earlier appends (or whole file reads) leave the file offset at the end
+	_, err = a.file.Seek(0, io.SeekStart)
+	if err != nil {
+		return nil, err
+	}
 	info, _ := a.file.Stat()
 	size := info.Size()
 	data := make([]byte, size)
-- 
2.43.0


From edf364e127bde74268821c02dece8af5c691c262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 03/61] fix: FileWithSize.ReadAll called itself for ever

---
 memfile/filewithsize.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/memfile/filewithsize.go b/memfile/filewithsize.go
index 74bf894..0e67c56 100644
--- a/memfile/filewithsize.go
+++ b/memfile/filewithsize.go
@@ -31,4 +31,11 @@ func (fws *FileWithSize) WriteAt(p []byte, off int64) (int, error) {
 	return fws.file.WriteAt(p, off)
 }
 
-func (fws *FileWithSize) ReadAll() ([]byte, error) { return fws.ReadAll() }
+func (fws *FileWithSize) ReadAll() ([]byte, error) {
+	data := make([]byte, fws.Size())
+	_, err := fws.file.ReadAt(data, 0)
+	if err != nil {
+		return nil, err
+	}
+	return data, nil
+}
-- 
2.43.0


From 8148bbb1ce2c73c493fb6b5ccaf09fb9892975a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 04/61] fix: reading a key of an int array map whose file was
 never written gives an empty array

---
 intarrayarray/cachedintarraymapstore.go | 3 +++
 intarrayarray/intarraymapstore.go       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/intarrayarray/cachedintarraymapstore.go b/intarrayarray/cachedintarraymapstore.go
index 553e804..a92ef8f 100644
--- a/intarrayarray/cachedintarraymapstore.go
+++ b/intarrayarray/cachedintarraymapstore.go
@@ -53,6 +53,9 @@ func (ms *CachedIntArrayMapStore) GetArray(arrayKey int64) ([]int64, error) {
 	// because we're not so likely to use the same file twice in a row for reads)
 	intArrayArray := NewIntArrayArray(ms.arrayCountPerFile, ms.elementByteSize)
 	err = intArrayArray.LoadFile(filepath)
+	if os.IsNotExist(err) {
+		return []int64{}, nil // Nothing was ever appended to any array of this file
+	}
 	if err != nil {
 		return []int64{}, err
 	}
diff --git a/intarrayarray/intarraymapstore.go b/intarrayarray/intarraymapstore.go
index 1b6c4a3..ab6d075 100644
--- a/intarrayarray/intarraymapstore.go
+++ b/intarrayarray/intarraymapstore.go
@@ -45,6 +45,9 @@ func (ms *IntArrayMapStore) GetArray(arrayKey int64) ([]int64, error) {
 	// because we're not so likely to use the same file twice in a row for reads)
 	intArrayArray := NewIntArrayArray(ms.arrayCountPerFile, ms.elementByteSize)
 	err = intArrayArray.LoadFile(filepath)
+	if os.IsNotExist(err) {
+		return []int64{}, nil // Nothing was ever appended to any array of this file
+	}
 	if err != nil {
 		return []int64{}, err
 	}
-- 
2.43.0


From 1d13dc7cf2f0ba6cec5fac9b7b1da8f033017fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 05/61] fix: an int array map creates the folder of an older
 file before saving it

---
 intarrayarray/intarraymapstore.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/intarrayarray/intarraymapstore.go b/intarrayarray/intarraymapstore.go
index ab6d075..07a5e80 100644
--- a/intarrayarray/intarraymapstore.go
+++ b/intarrayarray/intarraymapstore.go
@@ -71,7 +71,10 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 	if fileNumber > ms.latestFileNumber {
 		// Save the previous latest, if any
 		if ms.latestFilepath != "" {
-			ms.latestIntArrayArray.SaveFile(ms.latestFilepath)
+			err := ms.latestIntArrayArray.SaveFile(ms.latestFilepath)
+			if err != nil {
+				return err
+			}
 		}
 		// Load a "new" latest
 		// Create the folder if necessary
@@ -112,10 +115,15 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 				return err
 			}
 		}
+		// Create the folder if necessary, ready for when this "older" is saved
+		err := os.MkdirAll(folderPath, 0755)
+		if err != nil {
+			return err
+		}
 		// We can now safely load the required file into "older"
 		// Make a note of the filename
 		ms.olderFilepath = filepath
-		err := ms.olderIntArrayArray.LoadFile(filepath)
+		err = ms.olderIntArrayArray.LoadFile(filepath)
 		if err != nil {
 			// We don't mind a file not found here
 		}
-- 
2.43.0


From 66b658e6af4ed0e2db5c3cb2690cf937a42d7267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 06/61] fix: a full int array map cache is trimmed rather than
 looping for ever

---
 intarrayarray/cachedintarraymapstore.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/intarrayarray/cachedintarraymapstore.go b/intarrayarray/cachedintarraymapstore.go
index a92ef8f..9f7c25f 100644
--- a/intarrayarray/cachedintarraymapstore.go
+++ b/intarrayarray/cachedintarraymapstore.go
@@ -91,14 +91,17 @@ func (ms *CachedIntArrayMapStore) loadIntoCache(folders string, filename string)
 	ms.mapFolderFilenameToLastAccess[foldersFilename] = 0
 	ms.cacheElementCount += cached.elementTally
 
-	for ms.cacheElementCount >= ms.cacheElementCountLimit {
-		ms.trimCache(foldersFilename)
+	for ms.cacheElementCount >= ms.cacheElementCountLimit && len(ms.mapFolderFilenameToArrayArray) > 1 {
+		err := ms.trimCache(foldersFilename)
+		if err != nil {
+			return nil, err
+		}
 	}
 	return &cached, nil
 }
 
 func (ms *CachedIntArrayMapStore) trimCache(excludeFoldersFilename string) error {
-	oldest := ms.lastAccessCounter // Start at latest
+	oldest := ms.lastAccessCounter + 1 // Start after latest
 	oldestFoldersFilename := ""
 
 	for key, value := range ms.mapFolderFilenameToLastAccess {
@@ -134,7 +137,7 @@ func (ms *CachedIntArrayMapStore) AppendToArray(arrayKey int64, value int64) err
 
 	cached, err := ms.loadIntoCache(folders, filename)
 	if err != nil {
-		// We don't mind being empty
+		return err
 	}
 
 	cached.AppendToArray(arrayKey%ms.arrayCountPerFile, value)
@@ -147,6 +150,7 @@ func (ms *CachedIntArrayMapStore) AppendToArray(arrayKey int64, value int64) err
 		sep := string(os.PathSeparator)
 		foldersFilename = folders + sep + filename
 	}
+	ms.mapFolderFilenameToArrayArray[foldersFilename] = *cached // Keep the tally of what trimCache() will subtract
 	ms.lastAccessCounter++
 	ms.mapFolderFilenameToLastAccess[foldersFilename] = ms.lastAccessCounter
 
-- 
2.43.0


From 85b3259a21899be66a6e840d4322f8bd522b7f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 07/61] fix: collision chunks of more than 32 bytes no longer
 crash AppendHash

---
 indexedhashes/hashstore.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes/hashstore.go b/indexedhashes/hashstore.go
index 0531636..e0d4a41 100644
--- a/indexedhashes/hashstore.go
+++ b/indexedhashes/hashstore.go
@@ -30,7 +30,7 @@ func NewHashStore(partialHashBitCount int64, entryByteCount int64, collisionsPer
 	return &result
 }
 
-const ZEROBUF = 32 // Arbitrary number. Should be enough (we do check)
+const ZEROBUF = 8 * (8 + 1) // MAXCHUNK of AppendHash(). Should be enough (we do check)
 
 func (hs *HashStore) AppendHash(hash *Sha256) (int64, error) {
 
-- 
2.43.0


From ec89b65954138b12465615edd407d91e635a700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 08/61] fix: the last index of a hash store must not set the
 collision flag bit

---
 indexedhashes/hashstore.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes/hashstore.go b/indexedhashes/hashstore.go
index e0d4a41..a9efd95 100644
--- a/indexedhashes/hashstore.go
+++ b/indexedhashes/hashstore.go
@@ -55,7 +55,7 @@ func (hs *HashStore) AppendHash(hash *Sha256) (int64, error) {
 	NMASK := (int64(1) << NBITS) - 1
 	CPC := hs.collisionsPerChunk
 
-	if valnum >= MSB {
+	if valnum+1 >= MSB { // valnum+1 is what gets stored, and its MSB must stay clear
 		err := errors.New("fatal: size of hashes file is now too large to index into")
 		log.Println("AppendHash(): FATAL: Size of hashes file is now too large to index into")
 		return -1, err
-- 
2.43.0


From 2110c922ae25ce38c3bc124866f1393a045a8c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 09/61] fix: an in-memory hash index reopened on existing
 hashes finds them

---
 .../concretehashstorecreatormemory.go          |  8 ++++++++
 indexedhashes/memoryindexed.go                 | 18 ++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/indexedhashes/concretehashstorecreatormemory.go b/indexedhashes/concretehashstorecreatormemory.go
index 2753754..83cc363 100644
--- a/indexedhashes/concretehashstorecreatormemory.go
+++ b/indexedhashes/concretehashstorecreatormemory.go
@@ -69,6 +69,10 @@ func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStore() (HashReadWriter, erro
 	// Create the BasicHashStore sub-object
 	hashFile := wordfile.NewHashFile(hashesFile, hashesCount)
 	result := NewMemoryIndexedHashes(hashFile)
+	err = result.loadExisting()
+	if err != nil {
+		return nil, err
+	}
 	return result, nil
 }
 func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStoreReadOnly() (HashReader, error) {
@@ -89,5 +93,9 @@ func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStoreReadOnly() (HashReader,
 	// Create the BasicHashStore sub-object
 	hashFile := wordfile.NewHashFile(hashesFile, hashesCount)
 	result := NewMemoryIndexedHashes(hashFile)
+	err = result.loadExisting()
+	if err != nil {
+		return nil, err
+	}
 	return result, nil
 }
diff --git a/indexedhashes/memoryindexed.go b/indexedhashes/memoryindexed.go
index df89735..9db1a77 100644
--- a/indexedhashes/memoryindexed.go
+++ b/indexedhashes/memoryindexed.go
@@ -17,6 +17,24 @@ func NewMemoryIndexedHashes(hashFile *wordfile.HashFile) *MemoryIndexedHashes {
 	return &result
 }
 
+// loadExisting indexes the hashes which are already in the file
+func (mih *MemoryIndexedHashes) loadExisting() error {
+	count, err := mih.theStore.CountHashes()
+	if err != nil {
+		return err
+	}
+	for mih.count < count {
+		hash := Sha256{}
+		err = mih.theStore.GetHashAtIndex(mih.count, &hash)
+		if err != nil {
+			return err
+		}
+		mih.theMap[hash] = mih.count
+		mih.count++
+	}
+	return nil
+}
+
 func (mih *MemoryIndexedHashes) AppendHash(hash *Sha256) (int64, error) {
 	index, err := mih.theStore.AppendHash(hash)
 	if err != nil {
-- 
2.43.0


From 71fda50a5b7c8c61ef8419c2a51413b15161947b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 10/61] fix: CreateHashStore of a uniform hash store can write
 its Params.json

---
 indexedhashes/uniform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index 8d97243..47e95aa 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -126,7 +126,7 @@ func (uc *UniformHashStoreCreator) CreateHashStore() error {
 	}
 
 	sep := string(os.PathSeparator)
-	fileParams, err := os.OpenFile(uc.folderPath()+sep+"Params.json", os.O_CREATE, 0755)
+	fileParams, err := os.OpenFile(uc.folderPath()+sep+"Params.json", os.O_CREATE|os.O_RDWR, 0755)
 	defer fileParams.Close()
 	if err != nil {
 		return err
-- 
2.43.0


From 6363c8338601f22329f8bdc50c9b7445022c9c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 11/61] fix: uniform hash bins cover the biggest possible
 hashes whatever the rounding of the divider

---
 indexedhashes/multipasspreloader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes/multipasspreloader.go b/indexedhashes/multipasspreloader.go
index de0be1f..d8387ab 100644
--- a/indexedhashes/multipasspreloader.go
+++ b/indexedhashes/multipasspreloader.go
@@ -230,7 +230,7 @@ func (spd *SinglePassDetails) writeOverflowFiles(mp *MultipassPreloader) error {
 }
 
 func BiggestAddressPlusOne(hashDivider uint64) int64 {
-	return int64(math.Pow(2, 64)/float64(hashDivider) + 0.5) // Round to nearest!
+	return int64(math.MaxUint64/hashDivider) + 1 // One more than the address of the biggest possible hash
 }
 
 func (mp *MultipassPreloader) CreateInitialFiles() error {
-- 
2.43.0


From 5205d32e0e7ad07b2944a42ccc1af3f452cfa023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 12/61] fix: a hash store with eight byte entries accepts
 hashes

---
 indexedhashes/hashstore.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indexedhashes/hashstore.go b/indexedhashes/hashstore.go
index a9efd95..4447cb5 100644
--- a/indexedhashes/hashstore.go
+++ b/indexedhashes/hashstore.go
@@ -55,7 +55,7 @@ func (hs *HashStore) AppendHash(hash *Sha256) (int64, error) {
 	NMASK := (int64(1) << NBITS) - 1
 	CPC := hs.collisionsPerChunk
 
-	if valnum+1 >= MSB { // valnum+1 is what gets stored, and its MSB must stay clear
+	if uint64(valnum+1) >= uint64(MSB) { // valnum+1 is what gets stored, and its MSB must stay clear
 		err := errors.New("fatal: size of hashes file is now too large to index into")
 		log.Println("AppendHash(): FATAL: Size of hashes file is now too large to index into")
 		return -1, err
@@ -108,7 +108,7 @@ func (hs *HashStore) AppendHash(hash *Sha256) (int64, error) {
 			return -1, err
 		}
 		availableChunks := filestat.Size() / (NBYTES * (CPC + 1))
-		if availableChunks+1 >= MSB {
+		if uint64(availableChunks+1) >= uint64(MSB) {
 			err = errors.New("fatal: size of collisions file is now too large to index into")
 			log.Println("AppendHash(): FATAL: Size of collisions file is now too large to index into")
 			return -1, err
-- 
2.43.0


From 842e9100eb83dfeeaa067b87f9cc9828ddf5c8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 13/61] fix: a hash store with room for one collision per chunk
 links the second collision

---
 indexedhashes/hashstore.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/indexedhashes/hashstore.go b/indexedhashes/hashstore.go
index 4447cb5..6ba8388 100644
--- a/indexedhashes/hashstore.go
+++ b/indexedhashes/hashstore.go
@@ -122,6 +122,22 @@ func (hs *HashStore) AppendHash(hash *Sha256) (int64, error) {
 			return -1, err
 		}
 
+		if CPC == 1 {
+			// The two colliding entries need a chunk each, the first linking to the second
+			var twoChunks [4 * MAXNBYTES]byte
+			copy(twoChunks[0:NBYTES], lookupBytes[0:NBYTES])
+			binary.LittleEndian.PutUint64(chunkIndexBytes[0:8], uint64(availableChunks+2))
+			copy(twoChunks[NBYTES:NBYTES*2], chunkIndexBytes[0:NBYTES])
+			copy(twoChunks[NBYTES*2:NBYTES*3], valnumBytes[0:NBYTES])
+			_, err = hs.collisionsFile.WriteAt(twoChunks[0:NBYTES*4], filestat.Size())
+			if err != nil {
+				log.Println(err)
+				log.Println("AppendHash: Could not WriteAt() into collisions file")
+				return -1, err
+			}
+			return index, nil
+		}
+
 		// Append lookup to collisions file
 		_, err = hs.collisionsFile.WriteAt(lookupBytes[0:NBYTES], filestat.Size())
 		if err != nil {
-- 
2.43.0


From 98b579ebd48d86d26b1d9b826a24e18271fa6e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 14/61] fix: multipass preloader must not fail when standard
 output cannot be synced

---
 indexedhashes3/multipasspreloader.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/indexedhashes3/multipasspreloader.go b/indexedhashes3/multipasspreloader.go
index 98c2d42..8b7a6ac 100644
--- a/indexedhashes3/multipasspreloader.go
+++ b/indexedhashes3/multipasspreloader.go
@@ -49,10 +49,7 @@ func (mp *MultipassPreloader) IndexTheHashes(threads int) error {
 	for pass := int64(0); pass < passes; pass++ {
 		sline := fmt.Sprintf("%s: Pass %d of %d\n", mp.folderPath, pass+1, passes)
 		fmt.Print(sline)
-		err = os.Stdout.Sync()
-		if err != nil {
-			return err
-		}
+		_ = os.Stdout.Sync() // Standard output may be a pipe or the like, which cannot be synced
 		firstBinNum := pass * binsPerPass
 		binsThisPass := binsPerPass
 		if firstBinNum+binsThisPass > mp.params.NumberOfBins() {
-- 
2.43.0


From ad50860f641ffe199c378c37af999f241c905f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 15/61] fix: a multipass budget smaller than one bin means one
 bin per pass

---
 indexedhashes3/multipasspreloader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/indexedhashes3/multipasspreloader.go b/indexedhashes3/multipasspreloader.go
index 8b7a6ac..3b3330c 100644
--- a/indexedhashes3/multipasspreloader.go
+++ b/indexedhashes3/multipasspreloader.go
@@ -44,6 +44,9 @@ func (mp *MultipassPreloader) IndexTheHashes(threads int) error {
 		expectedEntriesPerBin = 1
 	}
 	binsPerPass := mp.bytesPerPass / (mp.params.BytesPerBinEntry() * expectedEntriesPerBin)
+	if binsPerPass == 0 {
+		binsPerPass = 1 // Even the smallest pass deals with one bin
+	}
 	passes := 1 + mp.params.NumberOfBins()/binsPerPass
 
 	for pass := int64(0); pass < passes; pass++ {
-- 
2.43.0


From 9783caf326140a8ed46c73252ef7033e2874df96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 16/61] fix: searching a bin must find the first of several
 equal sort numbers

---
 indexedhashes3/binbytes.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/indexedhashes3/binbytes.go b/indexedhashes3/binbytes.go
index 631e495..0e73189 100644
--- a/indexedhashes3/binbytes.go
+++ b/indexedhashes3/binbytes.go
@@ -211,7 +211,15 @@ func (b *bin) homeInOnSortNum(startIndex int64, endIndex int64, sn sortNum, p *H
 		} else if snMid > sn {
 			return startIndex, midIndex
 		} else {
-			// Equal
+			// Equal, but there may be equal sortNums before this one. (We know snStart < sn, so this does stop)
+			for {
+				entryPrev := b.getEntry(midIndex-1, p)
+				_, snPrev := entryPrev.getHashIndexSortNum(p)
+				if snPrev != sn {
+					break
+				}
+				midIndex--
+			}
 			return midIndex, midIndex // END
 		}
 	} else {
-- 
2.43.0


From 338a7bcc67d340e209567dfcf0ee843047ae2863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 17/61] fix: hashes that differ only in their first eight bytes
 are not duplicates

---
 indexedhashes3/binbytes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/indexedhashes3/binbytes.go b/indexedhashes3/binbytes.go
index 0e73189..c2c7dd3 100644
--- a/indexedhashes3/binbytes.go
+++ b/indexedhashes3/binbytes.go
@@ -322,19 +322,22 @@ func (b *bin) sortAndDeduplicate(p *HashIndexingParams) {
 	// Create a pointer to the first entry's underlying slice window
 	firstEntry := binEntryBytes(b.bytes[0:bytesPerEntry])
 	lastTH := firstEntry.getTruncatedHash() // Works perfectly with pointer receiver now
+	_, lastSN := firstEntry.getHashIndexSortNum(p)
 
 	for readIdx := int64(1); readIdx < count; readIdx++ {
 		// Slice out the current entry chunk
 		currentChunk := b.bytes[readIdx*bytesPerEntry : (readIdx+1)*bytesPerEntry]
 		currentEntry := binEntryBytes(currentChunk)
 		currentTH := currentEntry.getTruncatedHash()
+		_, currentSN := currentEntry.getHashIndexSortNum(p)
 
-		if currentTH != lastTH {
+		if currentTH != lastTH || currentSN != lastSN {
 			// Found a new unique hash! Shift it forward to our write pointer position
 			if writeIdx != readIdx {
 				copy(b.bytes[writeIdx*bytesPerEntry:(writeIdx+1)*bytesPerEntry], currentChunk)
 			}
 			lastTH = currentTH
+			lastSN = currentSN
 			writeIdx++
 		}
 	}
-- 
2.43.0


From 69aabef33543fafae3bb20115699f2b6320d5406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 18/61] fix: the biggest hashes must belong in the last bin

---
 indexedhashes3/params.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indexedhashes3/params.go b/indexedhashes3/params.go
index 23d9326..414eba9 100644
--- a/indexedhashes3/params.go
+++ b/indexedhashes3/params.go
@@ -53,7 +53,9 @@ func (p *HashIndexingParams) calculateDerivedValues() {
 			break
 		}
 	}
-	p.divider = (uint64(1) << uint64(63)) / (uint64(p.NumberOfBins_) >> uint64(1))
+	halfOfBins := uint64(p.NumberOfBins_) >> uint64(1)
+	// Rounded up, so that the biggest abbreviatedHash still belongs in the last bin
+	p.divider = ((uint64(1) << uint64(63)) + halfOfBins - 1) / halfOfBins
 	// 24 is the number of bytes in a truncated hash
 	p.bytesPerBinEntry = 24 + p.BytesPerSortNum_ + p.BytesPerHashIndex()
 }
-- 
2.43.0


From 1ed28927484781e36501d318303706f7c9b7fcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 19/61] fix: indexing again must not pick up old overflow files

---
 indexedhashes3/adaptivepasspreloader.go | 5 +++++
 indexedhashes3/multipasspreloader.go    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/indexedhashes3/adaptivepasspreloader.go b/indexedhashes3/adaptivepasspreloader.go
index 09d26e5..c156db4 100644
--- a/indexedhashes3/adaptivepasspreloader.go
+++ b/indexedhashes3/adaptivepasspreloader.go
@@ -150,6 +150,11 @@ func (ap *AdaptivePassPreloader) createInitialFiles() error {
 	}
 
 	ofFolderPath := ap.folderPath + sep + "BinOverflows"
+	// Overflow files from indexing something else must not be taken for our own
+	err = os.RemoveAll(ofFolderPath)
+	if err != nil {
+		return err
+	}
 	err = os.MkdirAll(ofFolderPath, os.ModePerm)
 	if err != nil {
 		return err
diff --git a/indexedhashes3/multipasspreloader.go b/indexedhashes3/multipasspreloader.go
index 3b3330c..119b9be 100644
--- a/indexedhashes3/multipasspreloader.go
+++ b/indexedhashes3/multipasspreloader.go
@@ -181,6 +181,11 @@ func (mp *MultipassPreloader) createInitialFiles() error {
 	}
 
 	ofFolderPath := mp.folderPath + sep + "BinOverflows"
+	// Overflow files from indexing something else must not be taken for our own
+	err = os.RemoveAll(ofFolderPath)
+	if err != nil {
+		return err
+	}
 	err = os.MkdirAll(ofFolderPath, os.ModePerm)
 	if err != nil {
 		return err
-- 
2.43.0


From fdb20b7f5adecb0fcefa33f6673f9a06b3fe75ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 20/61] fix: do not close the channel of an idle adaptive
 worker twice

---
 indexedhashes3/adaptivepass.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/indexedhashes3/adaptivepass.go b/indexedhashes3/adaptivepass.go
index 69f72d3..46685e9 100644
--- a/indexedhashes3/adaptivepass.go
+++ b/indexedhashes3/adaptivepass.go
@@ -266,8 +266,7 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 		for t := range threads {
 			// Check if this worker actually has bins assigned to it
 			if len(assignments[t].binOffsets) == 0 {
-				close(inChans[t]) // Close it immediately, no one is listening
-				continue
+				continue // No one is listening (the channel gets closed along with the others)
 			}
 
 			wg.Add(1)
@@ -335,7 +334,9 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 		} // for t = threads
 
 		// Now read the hashes and send to the workers
+		wg.Add(1)
 		go func() {
+			defer wg.Done() // The pass isn't finished while this is still closing channels
 			hash := [32]byte{}
 
 			hashesFile, ferr := os.Open(hashesFilepath)
-- 
2.43.0


From 6fb3e2e4969cb688c1c9592442292378b546e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 21/61] fix: a newly created binned hash store needs room for
 all of its bins

---
 indexedhashes3/hashstorecreator.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/indexedhashes3/hashstorecreator.go b/indexedhashes3/hashstorecreator.go
index d3d880b..2ebf998 100644
--- a/indexedhashes3/hashstorecreator.go
+++ b/indexedhashes3/hashstorecreator.go
@@ -127,11 +127,17 @@ func (c *ConcreteHashStoreCreator) CreateHashStore() error {
 	if err != nil {
 		return err
 	}
-	err = binStartsFile.Truncate(c.params.BytesPerBinEntry() * c.params.EntriesInBinStart())
+	err = binStartsFile.Truncate(c.params.NumberOfBins() * c.params.BytesPerBinEntry() * c.params.EntriesInBinStart())
 	if err != nil {
+		_ = binStartsFile.Close()
 		return err
 	}
-	return nil
+	err = binStartsFile.Close()
+	if err != nil {
+		return err
+	}
+	// Overflow files from a previous hash store must not be taken for our own
+	return os.RemoveAll(c.folderPath + sep + "BinOverflows")
 }
 
 func (c *ConcreteHashStoreCreator) OpenHashStore() (indexedhashes.HashReadWriter, error) {
-- 
2.43.0


From b9a882c7946fa7aea0520a7ad2510ec48086dbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:52 +0000
Subject: [PATCH 22/61] fix: derive a JSON block's difficulty from its bits, as
 for binary blocks

---
 intrinsicobjects/jsonblock.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/intrinsicobjects/jsonblock.go b/intrinsicobjects/jsonblock.go
index 7bc8ac8..ea2b348 100644
--- a/intrinsicobjects/jsonblock.go
+++ b/intrinsicobjects/jsonblock.go
@@ -41,12 +41,13 @@ func ParseJsonBlock(jsonBytes []byte, targetBlock *Block) error {
 	targetBlock.Size = int(parsed.J_size)
 	targetBlock.StrippedSize = int(parsed.J_strippedsize)
 	targetBlock.Time = uint32(parsed.J_time)
-	targetBlock.Difficulty = parsed.J_difficulty
 	nBits, err := strconv.ParseUint(parsed.J_bits, 16, 32)
 	if err != nil {
 		return err
 	}
 	targetBlock.NBits = uint32(nBits)
+	// The node prints its difficulty to 16 significant digits, which isn't always enough to round to the same integer
+	targetBlock.Difficulty = CalculateDifficulty(targetBlock.NBits)
 	targetBlock.Nonce = uint32(parsed.J_nonce)
 
 	txCount := len(parsed.J_tx)
-- 
2.43.0


From afc89daffb06702c99cbd92466b0f657b63e463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:47 +0000
Subject: [PATCH 23/61] fix: a handle made from a hash must be able to say its
 hash

---
 chainstorage/concretereadablechain.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainstorage/concretereadablechain.go b/chainstorage/concretereadablechain.go
index cb7b853..ce15403 100644
--- a/chainstorage/concretereadablechain.go
+++ b/chainstorage/concretereadablechain.go
@@ -292,6 +292,7 @@ func (crc *concreteReadableChain) TransactionHandleByHash(sha256 indexedhashes.S
 	result.hashSpecified = false
 	result.heightSpecified = true
 	result.height = index
+	result.data = crc
 	return &result, nil
 }
 
@@ -304,6 +305,7 @@ func (crc *concreteReadableChain) BlockHandleByHash(sha256 indexedhashes.Sha256)
 	result.hashSpecified = false
 	result.heightSpecified = true
 	result.height = index
+	result.data = crc
 	return &result, nil
 }
 
-- 
2.43.0


From 22c37ffb9ca9b380a829125023bac0dfed33ec8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 24/61] fix: the appendable chain's readable view knows parents
 too

---
 chainstorage/concreteappendablechain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chainstorage/concreteappendablechain.go b/chainstorage/concreteappendablechain.go
index e42284b..fd7d3df 100644
--- a/chainstorage/concreteappendablechain.go
+++ b/chainstorage/concreteappendablechain.go
@@ -64,6 +64,9 @@ func (cac *concreteAppendableChain) GetAsConcreteReadableChain() *concreteReadab
 		txoAddress:         cac.txoAddress,
 		txoSpentTxi:        cac.txoSpentTxi,
 		addrFirstTxo:       cac.addrFirstTxo,
+		parentBlockOfTrans: cac.parentBlockOfTrans,
+		parentTransOfTxi:   cac.parentTransOfTxi,
+		parentTransOfTxo:   cac.parentTransOfTxo,
 		addrAdditionalTxos: cac.addrAdditionalTxos,
 	}
 	result.blkNonEssentialInts = make(map[string]wordfile.ReadAtWordCounter)
-- 
2.43.0


From 550b66b0213a21ce75f24cc690df91181b3938ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:51 +0000
Subject: [PATCH 25/61] fix: reading a mapped file before its start is an
 error, as for other files, not a crash

---
 memfile/mmapfile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/memfile/mmapfile.go b/memfile/mmapfile.go
index 20fcbe4..7e677a0 100644
--- a/memfile/mmapfile.go
+++ b/memfile/mmapfile.go
@@ -30,6 +30,9 @@ func NewMmapReadOnly(f *os.File) (*MmapReadOnly, error) {
 }
 
 func (m *MmapReadOnly) ReadAt(p []byte, off int64) (n int, err error) {
+	if off < 0 {
+		return 0, errors.New("mmap: negative offset")
+	}
 	if off >= int64(len(m.data)) {
 		return 0, io.EOF
 	}
-- 
2.43.0


From 918fb98d2a4db431c13ead0cc60633101889b45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 26/61] fix: a progress report to a terminal or pipe must not
 end the job

---
 jobs/intrinsicparallel.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/jobs/intrinsicparallel.go b/jobs/intrinsicparallel.go
index 85a5c58..aa7b90f 100644
--- a/jobs/intrinsicparallel.go
+++ b/jobs/intrinsicparallel.go
@@ -678,10 +678,8 @@ func (p *Progress) Update(currentItem int64) {
 			float64(100)*float64(currentItem-p.startItem)/float64(p.endItem-p.startItem),
 			p.taskName, prediction.Format(dateFormat), int(math.Round(itemsPerSecond)))
 		fmt.Printf("%s%s          ", p.backslashR, msg)
-		err := os.Stdout.Sync()
-		if err != nil {
-			panic(err)
-		}
+		// Not every kind of output can be synced (terminals and pipes on Linux can't), so an error is not fatal
+		_ = os.Stdout.Sync()
 
 		p.checkpointTime = now
 		p.checkpointItem = currentItem
-- 
2.43.0


From 26c75ac5894de3e18779009bdd664446dd9b53f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 27/61] fix: streamed block hashes must be those of headers the
 node gave

---
 corereader2/blockhashes.go | 46 +++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/corereader2/blockhashes.go b/corereader2/blockhashes.go
index d62cda2..af2450d 100644
--- a/corereader2/blockhashes.go
+++ b/corereader2/blockhashes.go
@@ -1,6 +1,8 @@
 package corereader2
 
 import (
+	"crypto/sha256"
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -43,25 +45,43 @@ func StreamBlockHashesFromGenesis(numBlocks int64, channel chan indexedhashes.Sh
 			close(channel)
 			return err
 		}
-		expectedSize := 80 * 1002
-		bodyOutHeaders := make([]byte, expectedSize)
-		_, err = io.ReadFull(resp.Body, bodyOutHeaders)
-		err = resp.Body.Close()
+		bodyOutHeaders, err := io.ReadAll(resp.Body)
+		closeErr := resp.Body.Close()
+		if err == nil {
+			err = closeErr
+		}
+		if err == nil && resp.StatusCode != http.StatusOK {
+			err = errors.New("response is not 200 OK: " + resp.Status)
+		}
+		if err == nil && (len(bodyOutHeaders) == 0 || len(bodyOutHeaders)%80 != 0) {
+			err = errors.New("response is not a whole number of block headers")
+		}
 		if err != nil {
 			fmt.Println(err.Error())
 			close(channel)
 			return err
 		}
 
-		// Each header is 80 bytes. header counts from 0
-		for header := range len(bodyOutHeaders)/80 - 2 {
-			// We will ignore the first header, as the second header contains the hash of the first block (as "prev hash")
-			offset := (header + 1) * 80
+		// If we didn't get the 1002 headers we requested, then these headers reach the end of the blockchain,
+		// and we give the hash of every one of their blocks
+		numHeaders := len(bodyOutHeaders) / 80
+		numHashes := numHeaders
+		if numHeaders >= 1002 {
+			numHashes = numHeaders - 2
+		}
 
-			// The hash of the next block to request
-			hashBytes := bodyOutHeaders[offset+4 : offset+36]
+		// Each header is 80 bytes. header counts from 0
+		for header := range numHashes {
 			hash := indexedhashes.Sha256{}
-			copy(hash[:], hashBytes)
+			if header+1 < numHeaders {
+				// The next header contains the hash of this header's block (as "prev hash")
+				offset := (header + 1) * 80
+				copy(hash[:], bodyOutHeaders[offset+4:offset+36])
+			} else {
+				// There is no next header to tell us, so (just this once) we hash the header, twice
+				firstHash := sha256.Sum256(bodyOutHeaders[header*80:])
+				hash = sha256.Sum256(firstHash[:])
+			}
 			channel <- hash
 
 			sentBlocks++
@@ -75,13 +95,13 @@ func StreamBlockHashesFromGenesis(numBlocks int64, channel chan indexedhashes.Sh
 		// But we still want more blocks.
 		// If we didn't get the 1002 headers we requested, then we've exhausted the blockchain before
 		// the requested number of blocks.
-		if len(bodyOutHeaders) < 80*1002 {
+		if numHeaders < 1002 {
 			fmt.Println("Blockchain exhausted")
 			close(channel)
 			return nil // Let's not treat it as an error
 		}
 		// We need more headers.
-		offset := 1001 * 80 // Offset to the hash of the first block to feature in the next batch of 1002 headers
+		offset := (numHeaders - 1) * 80 // Offset to the hash of the first block to feature in the next batch of headers
 		hashBytes := bodyOutHeaders[offset+4 : offset+36]
 		hexHash := ToHexHash(hashBytes)
 
-- 
2.43.0


From c6607192af1256e5e23bbeffdac1bc6f37031f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 28/61] fix: a truncated block must not be read past its end

---
 intrinsicobjects/binaryblock.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/intrinsicobjects/binaryblock.go b/intrinsicobjects/binaryblock.go
index 93f2edb..ef4dfd5 100644
--- a/intrinsicobjects/binaryblock.go
+++ b/intrinsicobjects/binaryblock.go
@@ -7,6 +7,9 @@ import (
 )
 
 func ParseBinaryBlock(bin []byte, targetBlock *Block) {
+	// A truncated block must not be read beyond its end, into the spare capacity of its slice
+	bin = bin[:len(bin):len(bin)]
+
 	if targetBlock.Storage == nil {
 		targetBlock.Storage = NewMultiTransactionStorage()
 	} else {
-- 
2.43.0


From 18ae9b6816b421005c43dbe2806c3a3bcbb4b904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 29/61] fix: a leaf's few bytes must not be taken for a whole
 hash match

---
 weddingcakeback/tierbelow.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/weddingcakeback/tierbelow.go b/weddingcakeback/tierbelow.go
index b2d0f41..2d0aaf4 100644
--- a/weddingcakeback/tierbelow.go
+++ b/weddingcakeback/tierbelow.go
@@ -1,6 +1,7 @@
 package weddingcakeback
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -238,9 +239,17 @@ func (tb *TierBelow) TryIndexOfHash(hash []byte) (GlobalPiType, bool, error) {
 				prefixBytesCount)
 
 			if hashIndexId != HashIndexIdNoMatch {
-				// Found a potential match
-				// ToDo check against hashes file
-				return GlobalPiFromHashIndexId(hashIndexId, tb.DonutForestsInfo[donutForestIndex].FirstGlobalPresentationIndex), true, nil
+				// Found a potential match. The leaf only holds a few bytes of the hash, so check the whole of it
+				globalPi := GlobalPiFromHashIndexId(hashIndexId, tb.DonutForestsInfo[donutForestIndex].FirstGlobalPresentationIndex)
+				var wholeHash Sha256
+				found, err := tb.TryGetHashAtIndex(globalPi, wholeHash[:])
+				if err != nil {
+					return GlobalPiNoMatch, false, err
+				}
+				if found && bytes.Equal(wholeHash[:], hash) {
+					return globalPi, true, nil
+				}
+				// Not a match after all. Another DonutForest may still hold the hash
 			}
 		}
 	}
-- 
2.43.0


From e3f0a914b89d9e0bd237ceff7f24094247884ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 30/61] fix: a lone hash's reassurance bytes must follow the
 prefix

---
 weddingcakeback/singletree.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weddingcakeback/singletree.go b/weddingcakeback/singletree.go
index fdf9de7..41ba52f 100644
--- a/weddingcakeback/singletree.go
+++ b/weddingcakeback/singletree.go
@@ -115,8 +115,9 @@ func GenerateSingleTree(input []SingleTreeHash, PrefixBytesN byte, hashLength by
 		leafNode := SingleTreeLeafNode{}
 		leafNode.PresentationIndex = input[0].PresentationIndex
 		//leafNode.SourceOffset = input[0].SourceOffset
-		leafNode.ReassuranceHashBytes = make([]byte, reassuranceBytes)
-		copy(leafNode.ReassuranceHashBytes, input[0].Hash[:reassuranceBytes])
+		// The reassurance bytes follow the prefix bytes (which count as examined); there may not be enough of them
+		leafNode.ReassuranceHashBytes = make([]byte, min(reassuranceBytes, hashLength-PrefixBytesN))
+		copy(leafNode.ReassuranceHashBytes, input[0].Hash[PrefixBytesN:])
 		leafNode.Hash = make([]byte, hashLength)
 		copy(leafNode.Hash, input[0].Hash)
 		node := SingleTreeNode{}
-- 
2.43.0


From e5180a6ad1e11377c50a3a93dae53e71f7a6ea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 31/61] fix: a forest's nodes must lie in the order their ids
 count them

---
 weddingcakeback/donutforestwrite.go | 66 ++++++++++++++++-------------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index 6b64beb..9b96cc2 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -3,6 +3,7 @@ package weddingcakeback
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 )
@@ -12,6 +13,8 @@ type DonutForestWrite struct {
 	SourceTier BakingSourceTier
 	Designer   *BakingDesigner
 	LevelFiles [65]*os.File
+	// For each level, where in the level's file the next node of each group goes
+	nextNodeOffsets [65][]int64
 }
 
 func NewDonutForestWrite(sourceTier BakingSourceTier, config *CakeConfig) *DonutForestWrite {
@@ -117,7 +120,7 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 			tree := GenerateSingleTree(bucket, destPrefixBytesCount, dfw.Config.HashLength,
 				dfw.Config.TierBelowConfigs[destTierIndex].ReassuranceBytesCount)
 			levelsNodesBytes, rootNodeId := dfw.serializeSingleTreeNodeBytes(tree, bakingDesign, offsetToUse)
-			err = dfw.appendToLevelsFiles(levelsNodesBytes, tierFolderPath)
+			err = dfw.appendToLevelsFiles(levelsNodesBytes)
 			if err != nil {
 				// Close any level files for a clean failure
 				for _, levelFile := range dfw.LevelFiles {
@@ -323,27 +326,40 @@ func (dfw *DonutForestWrite) serializeIndexBytes(bakingDesign *BakingDesign, tie
 			levelIndexBytes = append(levelIndexBytes, serializedNodeSpecBytes[:]...)
 		}
 		if dfw.LevelFiles[levelNum] == nil {
-			// Open for append or create if not yet opened
+			// Open (to add to its end) or create if not yet opened
 			filename := fmt.Sprintf("Level%02dNodes.bin", levelNum)
 			filePath := filepath.Join(tierFolder, filename)
 			var err error
-			dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+			dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY, 0644)
 			if err != nil {
 				return err
 			}
 		}
-		_, err := dfw.LevelFiles[levelNum].Write(levelIndexBytes)
+		offset, err := dfw.LevelFiles[levelNum].Seek(0, io.SeekEnd)
 		if err != nil {
 			return err
 		}
+		_, err = dfw.LevelFiles[levelNum].Write(levelIndexBytes)
+		if err != nil {
+			return err
+		}
+
+		// The level's nodes follow, group by group (node ids count through the first group's nodes, across all the
+		// trees of the forest, and then through the second group's...)
+		offset += int64(len(levelIndexBytes))
+		dfw.nextNodeOffsets[levelNum] = make([]int64, len(*formatSpecGroups))
+		for groupIndex := range *formatSpecGroups {
+			dfw.nextNodeOffsets[levelNum][groupIndex] = offset
+			offset += int64((*formatSpecGroups)[groupIndex].Bytes)
+		}
 	}
 	return nil
 }
 
-// The first result is a slice of byte slices, one for each level of the tree.
+// The first result has, for each level of the tree, a byte slice for each of the level's groups.
 // The second result is a node id for the root node of the tree (to go into the jump table)
 func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree,
-	bakingDesign *BakingDesign, sourceOffset GlobalPiType) ([][]byte, NodeIdType) {
+	bakingDesign *BakingDesign, sourceOffset GlobalPiType) ([][][]byte, NodeIdType) {
 
 	levels := len(bakingDesign.LevelSpecs)
 
@@ -356,10 +372,10 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 	// 2. We only need ONE map for the "level below us" at any given time
 	var nextLevelIdMap map[*SingleTreeNode]NodeIdType
 
-	// Prepare space for results: For each level, a byte slice
-	levelsNodesBytes := make([][]byte, levels)
+	// Prepare space for results: For each level, a byte slice for each group
+	levelsNodesBytes := make([][][]byte, levels)
 	for i := 0; i < levels; i++ {
-		levelsNodesBytes[i] = make([]byte, 0, 10_000)
+		levelsNodesBytes[i] = make([][]byte, len(bakingDesign.LevelSpecs[i].Groups))
 	}
 	// Also as a result, the root node id for the tree
 	rootNodeId := NodeIdType(0) // Starts out as zero
@@ -368,7 +384,6 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 	for levelNum := levels - 1; levelNum >= 0; levelNum-- {
 		// fmt.Printf("Processing level %d\n", levelNum)
 		currentLevelNodes := nodesByLevel[levelNum]
-		levelNodesBytes := &levelsNodesBytes[levelNum]
 		// Create a fresh map for the current level allocations
 		currentLevelIdMap := make(map[*SingleTreeNode]NodeIdType, len(currentLevelNodes))
 
@@ -390,6 +405,7 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 		// When a node looks up a child, it queries nextLevelIdMap in O(1) time!
 		for groupIdx, group := range bakingDesign.LevelSpecs[levelNum].Groups {
 			spec := &group.Spec
+			groupNodesBytes := &levelsNodesBytes[levelNum][groupIdx]
 
 			// Only serialize nodes at this level that belong to the current format group
 			for _, node := range currentLevelNodes {
@@ -402,20 +418,20 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 				switch spec.Format {
 				case NodeFormatLeaf:
 					// fmt.Println("Serializing FormatLeaf node")
-					dfw.serializeLeafNode(node.LeafNode, levelNodesBytes, sourceOffset)
+					dfw.serializeLeafNode(node.LeafNode, groupNodesBytes, sourceOffset)
 				case NodeFormatFull:
 					// fmt.Println("Serializing FormatFull node")
-					dfw.serializeFullNode(node.SlotsNode, nextLevelIdMap, levelNodesBytes)
+					dfw.serializeFullNode(node.SlotsNode, nextLevelIdMap, groupNodesBytes)
 				case NodeFormatMedium:
 					// fmt.Println("Serializing FormatMedium node")
-					dfw.serializeMediumNode(node.SlotsNode, spec, nextLevelIdMap, levelNodesBytes)
+					dfw.serializeMediumNode(node.SlotsNode, spec, nextLevelIdMap, groupNodesBytes)
 				case NodeFormatTiny:
 					// fmt.Println("Serializing FormatTiny node")
 					nodeId := currentLevelIdMap[node]
 					if nodeId == 31220 {
 						fmt.Printf("Breakpoint here\n")
 					}
-					dfw.serializeTinyNode(node.SlotsNode, spec, nextLevelIdMap, levelNodesBytes)
+					dfw.serializeTinyNode(node.SlotsNode, spec, nextLevelIdMap, groupNodesBytes)
 				}
 			}
 		}
@@ -427,25 +443,15 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 	return levelsNodesBytes, rootNodeId
 }
 
-func (dfw *DonutForestWrite) appendToLevelsFiles(levelsNodesBytes [][]byte, tierFolderPath string) error {
-	for levelNum, levelNodesBytes := range levelsNodesBytes {
-		if len(levelNodesBytes) != 0 {
-			if levelNum == 0 {
-				fmt.Println("Breakpoint here")
-			}
-			if dfw.LevelFiles[levelNum] == nil {
-				// Open for append or create if not yet opened
-				filename := fmt.Sprintf("Level%02dNodes.bin", levelNum)
-				filePath := filepath.Join(tierFolderPath, filename)
-				var err error
-				dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+func (dfw *DonutForestWrite) appendToLevelsFiles(levelsNodesBytes [][][]byte) error {
+	for levelNum, groupsNodesBytes := range levelsNodesBytes {
+		for groupIndex, groupNodesBytes := range groupsNodesBytes {
+			if len(groupNodesBytes) != 0 {
+				_, err := dfw.LevelFiles[levelNum].WriteAt(groupNodesBytes, dfw.nextNodeOffsets[levelNum][groupIndex])
 				if err != nil {
 					return err
 				}
-			}
-			_, err := dfw.LevelFiles[levelNum].Write(levelNodesBytes)
-			if err != nil {
-				return err
+				dfw.nextNodeOffsets[levelNum][groupIndex] += int64(len(groupNodesBytes))
 			}
 		}
 	}
-- 
2.43.0


From 3046b176379f95426084a33874bd9e4e4e687d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 32/61] fix: level files must be named in hexadecimal, as they
 are read

---
 weddingcakeback/donutforestwrite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index 9b96cc2..6d3d881 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -327,7 +327,7 @@ func (dfw *DonutForestWrite) serializeIndexBytes(bakingDesign *BakingDesign, tie
 		}
 		if dfw.LevelFiles[levelNum] == nil {
 			// Open (to add to its end) or create if not yet opened
-			filename := fmt.Sprintf("Level%02dNodes.bin", levelNum)
+			filename := fmt.Sprintf("Level%02XNodes.bin", levelNum)
 			filePath := filepath.Join(tierFolder, filename)
 			var err error
 			dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY, 0644)
-- 
2.43.0


From 136d9de382742e02b83e9304337e7de571d7573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 33/61] fix: trees must be looked up in the order they were
 written

---
 weddingcakeback/tierbelow.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/weddingcakeback/tierbelow.go b/weddingcakeback/tierbelow.go
index 2d0aaf4..a46a0d8 100644
--- a/weddingcakeback/tierbelow.go
+++ b/weddingcakeback/tierbelow.go
@@ -202,12 +202,11 @@ func (tb *TierBelow) TryIndexOfHash(hash []byte) (GlobalPiType, bool, error) {
 	prefix := hash[:8] // ToDo Why 8?
 	prefixBytesCount := tb.ThisTierConfig.PrefixBytesCount
 	fmt.Printf("PrefixBytesCount: %d\n", prefixBytesCount)
-	multiplier := 1
 	prefixIndex := 0
 	flagBit := uint64(1)
 	for prefixByte := byte(0); prefixByte < prefixBytesCount; prefixByte++ {
-		prefixIndex += int(prefix[prefixByte]) * multiplier
-		multiplier <<= 8
+		// The first prefix byte is the most significant, being the order in which the trees were written
+		prefixIndex = prefixIndex<<8 | int(prefix[prefixByte])
 		flagsHashByteIndicesUnexamined ^= flagBit
 		flagBit <<= 1
 	}
-- 
2.43.0


From 7730d9131da23eef947d4aae2e722bd68dc69006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:31 +0000
Subject: [PATCH 34/61] fix: the tier after a rebaked one must be kept, not the
 rebaked one's old self

---
 weddingcakeback/donutforestwrite.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index 6d3d881..fcdba5d 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -202,9 +202,13 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 
 	// Empty the source tier ready for new hashes
 	// NOTE: If the source tier is a previous TierBelow, its entire"Tier<n>" folder will be deleted
+	// The destination tier (next after the source tier) is about to be closed and opened anew, so it's the tier after
+	// the destination tier that needs preserving
 	var preservedNextTier TierReadable
 	if sourceReadable, ok := dfw.SourceTier.(TierReadable); ok {
-		preservedNextTier = sourceReadable.GetNextTier()
+		if oldDestTier := sourceReadable.GetNextTier(); oldDestTier != nil {
+			preservedNextTier = oldDestTier.GetNextTier()
+		}
 	}
 	err = dfw.SourceTier.MakeEmptyAfterBaking()
 	if err != nil {
-- 
2.43.0


From 48da98f90a7241f9385fb48e69271bd984e5d134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:31 +0000
Subject: [PATCH 35/61] fix: the top tier must keep its own copy of an appended
 hash

---
 weddingcakeback/tiertop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index 507ef9f..91efb7a 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -193,7 +193,7 @@ func (tt *TierTop) AppendHash(hash []byte) (GlobalPiType, error) {
 	copy(h[:], hash)
 
 	tt.theMap[h] = TierTopIndex(index)
-	tt.theSlice = append(tt.theSlice, hash)
+	tt.theSlice = append(tt.theSlice, h[:]) // Our own copy, as the caller may reuse theirs
 	if tt.hashesFile == nil {
 		panic("Hashes file not open")
 	}
-- 
2.43.0


From 3928b6fc44255ca7f87b9e359ac26b5160e4abd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:34 +0000
Subject: [PATCH 36/61] fix: the top tier must find hashes by index after a
 bake

---
 weddingcakeback/tiertop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index 91efb7a..5f9287c 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -146,7 +146,7 @@ func (tt *TierTop) TryGetHashAtIndex(globalIndex GlobalPiType, hash []byte) (boo
 	if !GlobalPiWithinRange(globalIndex, tt.firstGlobalPresentationIndex, len(tt.theSlice)) {
 		return false, nil // index is outside the range of this tier
 	}
-	sliceIndex := TierTopIndexFromGlobalPi(globalIndex, -tt.firstGlobalPresentationIndex)
+	sliceIndex := TierTopIndexFromGlobalPi(globalIndex, tt.firstGlobalPresentationIndex)
 	copy(hash, tt.theSlice[sliceIndex])
 	return true, nil
 }
-- 
2.43.0


From 0bd269087d9944be00b94c001a55bf79781a17eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:26 +0000
Subject: [PATCH 37/61] fix: a hash tree of all 65 levels can be measured

---
 weddingcake/treeshape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcake/treeshape.go b/weddingcake/treeshape.go
index bf66bb2..3373a39 100644
--- a/weddingcake/treeshape.go
+++ b/weddingcake/treeshape.go
@@ -56,7 +56,7 @@ func (st *ShallowTree) CountLevelShapes() *TreeShape {
 		// We want to count even when activeSlotsCount is zero (ie a leaf node)
 		result.LevelShapes[node.Level].ActiveSlotCountHistogram[activeSlotsCount]++
 	})
-	for level := byte(0); level <= result.NonEmptyLevels; level++ {
+	for level := byte(0); level < result.NonEmptyLevels; level++ {
 		nodesPerLevel := NodeCountType(0)
 		// nodeCount at this level is the sum of the histogram
 		for slotsCount := 0; slotsCount <= 256; slotsCount++ {
-- 
2.43.0


From 122c05f1f4d70ce046118f5f5f9ef070ca71fa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:26 +0000
Subject: [PATCH 38/61] fix: every chunk read from the files is kept, not only
 the last

---
 weddingcake/chunkfiles.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weddingcake/chunkfiles.go b/weddingcake/chunkfiles.go
index 28cff78..f5f5588 100644
--- a/weddingcake/chunkfiles.go
+++ b/weddingcake/chunkfiles.go
@@ -168,6 +168,7 @@ func (cfr *ChunkFilesRead) ReadAndMmap(config StoreConfig) error {
 			cfr.chunks[chunkIndex].ChunkLevels[level].IndexBytes = indexSlice
 			cfr.chunks[chunkIndex].ChunkLevels[level].NodeBytes = nodesSlice
 		}
+		chunkIndex++
 	}
 	return nil
 }
-- 
2.43.0


From adb4ee2df98a1cad31bfed510384cae9f3abba70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:39 +0000
Subject: [PATCH 39/61] fix: reading the chunk files again forgets the chunks
 of the earlier read

---
 weddingcake/chunkfiles.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcake/chunkfiles.go b/weddingcake/chunkfiles.go
index f5f5588..b29fb4f 100644
--- a/weddingcake/chunkfiles.go
+++ b/weddingcake/chunkfiles.go
@@ -123,8 +123,8 @@ func (cfr *ChunkFilesRead) ReadAndMmap(config StoreConfig) error {
 		if len(cfr.levelXXMemoryMaps) > 0 {
 			panic("ChunksInfo.bin empty but LevelXX.bin files exist")
 		}
-		cfr.chunks = make([]Chunk, 0)
 	}
+	cfr.chunks = make([]Chunk, 0) // Any chunks of an earlier read refer to memory no longer mapped
 	offset := 0
 	chunkIndex := 0
 	for offset < len(bytes) {
-- 
2.43.0


From 5e72252011c02683ef13f177a186199ff309be3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:12 +0000
Subject: [PATCH 40/61] fix: an empty shallow tree can be serialized

---
 indexedhashestree/multiplefixednodesize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indexedhashestree/multiplefixednodesize.go b/indexedhashestree/multiplefixednodesize.go
index 585ee1b..3c79fca 100644
--- a/indexedhashestree/multiplefixednodesize.go
+++ b/indexedhashestree/multiplefixednodesize.go
@@ -255,7 +255,9 @@ func (cp *containerParams) serializeMultiFixedSizedNodeTree(sortedNodeReconfig [
 		mapNewIdFromOld[oldNodeIndex] = uint16(newNodeIndex + 1)
 	}
 	// Store the root nodeId
-	result.rootNodeId = mapNewIdFromOld[0]
+	if nodeCount > 0 { // There is no root node if there are no hashes
+		result.rootNodeId = mapNewIdFromOld[0]
+	}
 
 	// Then, finally, the actual bytes
 	nextReconfig = uint16(0)
-- 
2.43.0


From 7e806595cfc34b0e39db4e597d69b52a8c4f0fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:12 +0000
Subject: [PATCH 41/61] fix: padding in a tiny node no longer hides the hash
 with byte value zero

---
 indexedhashestree/multiplefixednodesize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indexedhashestree/multiplefixednodesize.go b/indexedhashestree/multiplefixednodesize.go
index 3c79fca..b8ab387 100644
--- a/indexedhashestree/multiplefixednodesize.go
+++ b/indexedhashestree/multiplefixednodesize.go
@@ -444,7 +444,9 @@ func (nc *nodeContainer) lookupHash(hash [32]byte, params *containerParams) (int
 				lookup0 := nc.bytes[nodeByteOffset+1+int32(item)*3+1]
 				lookup1 := nc.bytes[nodeByteOffset+1+int32(item)*3+2]
 				lookup := uint16(lookup0) + uint16(lookup1)<<8
-				lookups[hashByteVal] = lookup
+				if lookup != 0 { // Zero is padding, which must not hide a lookup for byte value zero
+					lookups[hashByteVal] = lookup
+				}
 			}
 		} else if nodeSpecParams.nodeFormat == formatMedium {
 			// There are 256 bits of flags, each '1' indicating there is a lookup to be read
-- 
2.43.0


From 43d1bb5c9afa16fa619ecc5c7c8597d123e9b699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:42 +0000
Subject: [PATCH 42/61] fix: duplicates told from other hashes only by their
 last byte are found

---
 indexedhashestree/multiplefixednodesize.go | 17 ++++++++++-------
 indexedhashestree/shallowtree.go           |  2 +-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/indexedhashestree/multiplefixednodesize.go b/indexedhashestree/multiplefixednodesize.go
index b8ab387..07357a9 100644
--- a/indexedhashestree/multiplefixednodesize.go
+++ b/indexedhashestree/multiplefixednodesize.go
@@ -130,6 +130,8 @@ func newContainerParamsConfigA() *containerParams {
 		result.nodeSpecs = append(result.nodeSpecs, newNodeSpec(nodeLevel, formatFull, 256))
 		result.nodeSpecs = append(result.nodeSpecs, newNodeSpec(nodeLevel, formatDuplicate, 1))
 	}
+	// Duplicates which have only been told from the other hashes by all 32 bytes are one level further down
+	result.nodeSpecs = append(result.nodeSpecs, newNodeSpec(32, formatDuplicate, 1))
 	// Automatically sort the specs using our canonical rule
 	sort.Slice(result.nodeSpecs, func(i, j int) bool { return result.Less(result.nodeSpecs[i], result.nodeSpecs[j]) })
 
@@ -212,7 +214,7 @@ func (cp *containerParams) serializeMultiFixedSizedNodeTree(sortedNodeReconfig [
 	// Then the offsets to each batch of nodes having identical nodeSpecs
 	byteOffset := int32(0)
 	nextReconfig := uint16(0)
-	levelByteOffsets := make([]int32, 33)
+	levelByteOffsets := make([]int32, 34)
 	currentLevel := 0
 	for i := range cp.nodeSpecs {
 		result.nodeIdStartingEachSpec[i] = nextReconfig + 1
@@ -234,12 +236,12 @@ func (cp *containerParams) serializeMultiFixedSizedNodeTree(sortedNodeReconfig [
 	}
 
 	// Cap off all remaining trailing unused levels
-	for lev := currentLevel + 1; lev <= 32; lev++ {
+	for lev := currentLevel + 1; lev <= 33; lev++ {
 		levelByteOffsets[lev] = byteOffset
 	}
 	result.bytes = make([]byte, byteOffset) // Allocate bytes for all the levels
-	result.nodeLevelBytes = make([][]byte, 32)
-	for level := 0; level <= 31; level++ {
+	result.nodeLevelBytes = make([][]byte, 33)
+	for level := 0; level <= 32; level++ {
 		result.nodeLevelBytes[level] = result.bytes[levelByteOffsets[level]:levelByteOffsets[level+1]]
 	}
 	result.bytes = result.bytes[:0] // Empty it (keep capacity) so we can conveniently append to it
@@ -489,6 +491,10 @@ func (nc *nodeContainer) lookupHash(hash [32]byte, params *containerParams) (int
 			panic("Unrecognized node format")
 		}
 
+		if byteBits == 0xFFFFFFFF {
+			return -1, true, byteBits // ToDo: What does this mean? Should we panic?
+		} // A link too far: only a formatDuplicate can follow once every byte has been examined
+
 		var encodedLookup uint16
 		hashByte := hash[hashByteIndex]
 		byteBits |= 1 << hashByteIndex
@@ -504,8 +510,5 @@ func (nc *nodeContainer) lookupHash(hash [32]byte, params *containerParams) (int
 		// Must be a link to a node
 		linkIndex := uint16(65536 - uint32(encodedLookup))
 		nextNodeId = linkIndex
-		if byteBits == 0xFFFFFFFF {
-			return -1, true, byteBits // ToDo: What does this mean? Should we panic?
-		} // A link too far
 	}
 }
diff --git a/indexedhashestree/shallowtree.go b/indexedhashestree/shallowtree.go
index fcb05d4..cc8cd83 100644
--- a/indexedhashestree/shallowtree.go
+++ b/indexedhashestree/shallowtree.go
@@ -244,7 +244,7 @@ func (stc *shallowTreeContainer) lookupHash(hash [32]byte) (int64, bool) {
 		linkIndex := uint16(65536 - uint32(encodedLookup))
 		nextNodeIndex = linkIndex
 		bytesLeft -= 1
-		if bytesLeft == 0 {
+		if bytesLeft < 0 { // With none left, there may still be a duplicates node
 			return -1, true // I think this is a duplicate?
 		} // A link too far
 	}
-- 
2.43.0


From 6a41759b953f6c7beb90395b1a5b6b507456ee51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:42 +0000
Subject: [PATCH 43/61] fix: a shallow tree one node too big to be serialized
 reports overflow

---
 indexedhashestree/shallowtree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indexedhashestree/shallowtree.go b/indexedhashestree/shallowtree.go
index cc8cd83..eece6dd 100644
--- a/indexedhashestree/shallowtree.go
+++ b/indexedhashestree/shallowtree.go
@@ -180,7 +180,8 @@ func (stc *shallowTreeContainer) recurseGenerateNode(inputCopy []shallowTreeHash
 
 			// If the encoded value collides with or drops below
 			// our upward-bound hash count, we have run out of 16-bit address space.
-			if encodedValue <= stc.presentationsCount {
+			// (One value is kept spare because serialized node ids start at one.)
+			if uint32(encodedValue) <= uint32(stc.presentationsCount)+1 {
 				stc.reset()
 				return -1, true
 			}
-- 
2.43.0


From 067b86d38beb8f7cba8279519878d478a03b665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:44 +0000
Subject: [PATCH 44/61] fix: hashHexToBin reports the error for text of the
 wrong length

---
 indexedhashes/hexstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes/hexstring.go b/indexedhashes/hexstring.go
index 7b6e750..cb00ebc 100644
--- a/indexedhashes/hexstring.go
+++ b/indexedhashes/hexstring.go
@@ -21,7 +21,7 @@ func HashHexToSha256(hexAscii string, sha256 *Sha256) error {
 // Attempt to make this quick
 func hashHexToBinInternal(hexAscii string, lookup *[256 * 256]byte) ([32]byte, error) {
 	if len(hexAscii) != 64 {
-		errors.New("hash must be 64 hex digits")
+		return [32]byte{}, errors.New("hash must be 64 hex digits")
 	}
 	result := [32]byte{
 		// To get the ascii of a rune from a string, we cast to an int
-- 
2.43.0


From d88c3e72137e01e634462d920128c107b8438c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 45/61] fix: an integer file cut in the middle of its last word
 can be opened

A process abandoned while its append buffer was being written leaves a file
whose length need not be a whole number of words; refusing to open it made
everything stored (and synced) before unreadable.
---
 wordfile/concretemmapcreator.go     | 4 ++--
 wordfile/concretewordfilecreator.go | 5 ++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/wordfile/concretemmapcreator.go b/wordfile/concretemmapcreator.go
index 7fb1ee0..9b94e02 100644
--- a/wordfile/concretemmapcreator.go
+++ b/wordfile/concretemmapcreator.go
@@ -101,8 +101,8 @@ func (wfc *ConcreteMmapWordFileCreator) countWords(file *os.File) (int64, error)
 	}
 	filesize := fi.Size()
 	if filesize%wfc.wordSize != 0 {
-		log.Println("countWords(): File is not a whole number of words")
-		return 0, errors.New("file is not a whole number of words")
+		// The process was abandoned part way through appending a word, which doesn't count
+		log.Println("countWords(): File is not a whole number of words, ignoring the last")
 	}
 	return filesize / wfc.wordSize, nil
 }
diff --git a/wordfile/concretewordfilecreator.go b/wordfile/concretewordfilecreator.go
index 60eb7e5..46b78aa 100644
--- a/wordfile/concretewordfilecreator.go
+++ b/wordfile/concretewordfilecreator.go
@@ -1,7 +1,6 @@
 package wordfile
 
 import (
-	"errors"
 	"github.com/KitchenMishap/pudding-shed/memfile"
 	"log"
 	"os"
@@ -132,8 +131,8 @@ func (wfc *ConcreteWordFileCreator) countWords(file *os.File) (int64, error) {
 	}
 	filesize := fi.Size()
 	if filesize%wfc.wordSize != 0 {
-		log.Println("countWords(): File is not a whole number of words")
-		return 0, errors.New("file is not a whole number of words")
+		// The process was abandoned part way through appending a word, which doesn't count
+		log.Println("countWords(): File is not a whole number of words, ignoring the last")
 	}
 	return filesize / wfc.wordSize, nil
 }
-- 
2.43.0


From fd5fa518c5bf2add88b838102c28c4fadbc84b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 46/61] fix: saving a file of integer lists keeps the previous
 lists until the new ones are complete

The file was emptied before being rewritten, so lists that an earlier sync had
stored were lost if the process was abandoned at that moment.
---
 intarrayarray/intarrayarray.go |  4 +++-
 memfile/replacefile.go         | 19 +++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)
 create mode 100644 memfile/replacefile.go

diff --git a/intarrayarray/intarrayarray.go b/intarrayarray/intarrayarray.go
index 4e6b8a4..336f227 100644
--- a/intarrayarray/intarrayarray.go
+++ b/intarrayarray/intarrayarray.go
@@ -3,6 +3,8 @@ package intarrayarray
 import (
 	"encoding/binary"
 	"os"
+
+	"github.com/KitchenMishap/pudding-shed/memfile"
 )
 
 type IntArrayArray struct {
@@ -71,7 +73,7 @@ func (iaa *IntArrayArray) SaveFile(filepath string) error {
 		}
 	}
 	// Second write the file as a whole
-	err := os.WriteFile(filepath, buffer, 0755)
+	err := memfile.ReplaceFile(filepath, buffer, 0755)
 	if err != nil {
 		return err
 	}
diff --git a/memfile/replacefile.go b/memfile/replacefile.go
new file mode 100644
index 0000000..40afff2
--- /dev/null
+++ b/memfile/replacefile.go
@@ -0,0 +1,19 @@
+package memfile
+
+import "os"
+
+// ReplaceFile writes a whole file like os.WriteFile(), but such that the previous contents stay in place
+// until the new contents are complete. (os.WriteFile() empties the file first, so a process that is abandoned
+// at that moment would lose the previous contents.)
+func ReplaceFile(filename string, data []byte, perm os.FileMode) error {
+	info, err := os.Stat(filename)
+	if err == nil {
+		perm = info.Mode().Perm() // As os.WriteFile(), keep the permissions of an existing file
+	}
+	newFilename := filename + ".new"
+	err = os.WriteFile(newFilename, data, perm)
+	if err != nil {
+		return err
+	}
+	return os.Rename(newFilename, filename)
+}
-- 
2.43.0


From 788cf664f284ec46056b509bb2350db90ec78165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 47/61] fix: saving a bin's overflow file keeps the previous
 entries until the new ones are complete

---
 indexedhashes3/binfiles.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indexedhashes3/binfiles.go b/indexedhashes3/binfiles.go
index 23c435e..aac6658 100644
--- a/indexedhashes3/binfiles.go
+++ b/indexedhashes3/binfiles.go
@@ -6,6 +6,8 @@ import (
 	"io"
 	"math/bits"
 	"os"
+
+	"github.com/KitchenMishap/pudding-shed/memfile"
 )
 
 func loadBinFromFiles(bn binNum, binStartsFile *os.File, ovf *overflowFiles, p *HashIndexingParams) (*bin, error) {
@@ -149,7 +151,7 @@ func saveBinToFiles(bn binNum, b bin, binStartsFile *os.File, ovf *overflowFiles
 		if err != nil {
 			return err
 		}
-		err = os.WriteFile(overflowFilepath, overflowBytes, 0644)
+		err = memfile.ReplaceFile(overflowFilepath, overflowBytes, 0644)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From c6a6bfc34c89c2f89c6943309a1df0535c2ea6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 48/61] fix: syncing a fixed size memory file writes it, and
 closing it never empties it first

---
 memfile/fixedsize.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memfile/fixedsize.go b/memfile/fixedsize.go
index 875fd85..cc45276 100644
--- a/memfile/fixedsize.go
+++ b/memfile/fixedsize.go
@@ -41,9 +41,9 @@ func (f fixedSizeMemFile) WriteAt(p []byte, off int64) (n int, err error) {
 }
 
 func (f fixedSizeMemFile) Close() error {
-	return os.WriteFile(f.filename, f.buffer, f.perm)
+	return ReplaceFile(f.filename, f.buffer, f.perm)
 }
 
 func (f fixedSizeMemFile) Sync() error {
-	return nil // Contraversial... ToDo
+	return ReplaceFile(f.filename, f.buffer, f.perm)
 }
-- 
2.43.0


From 57e17f3bd64e8b0b2430870ec21e9508510ae15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:04 +0000
Subject: [PATCH 49/61] fix: reopened hash lists of a chain go on after the
 hashes already there

They were opened as if empty: counted as none, and overwritten by the next
block's hashes.
---
 chainstorage/concretehasheschainfactory.go | 26 +++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/chainstorage/concretehasheschainfactory.go b/chainstorage/concretehasheschainfactory.go
index ebf4e5d..b653860 100644
--- a/chainstorage/concretehasheschainfactory.go
+++ b/chainstorage/concretehasheschainfactory.go
@@ -93,31 +93,51 @@ func (chcc *ConcreteHashesChainCreator) openPrivate() (*concreteHashesChain, err
 	if err != nil {
 		return nil, err
 	}
+	hashCount, err := countHashes(file)
+	if err != nil {
+		return nil, err
+	}
 	opt, err := memfile.NewAppendOptimizedFile(file)
 	if err != nil {
 		return nil, err
 	}
-	result.blkHashList = *wordfile.NewHashFile(opt, 0)
+	result.blkHashList = *wordfile.NewHashFile(opt, hashCount)
 
 	file, err = os.OpenFile(path.Join(chcc.transactionsFolder, "Hashes.hsh"), os.O_RDWR, os.ModePerm)
 	if err != nil {
 		return nil, err
 	}
+	hashCount, err = countHashes(file)
+	if err != nil {
+		return nil, err
+	}
 	opt, err = memfile.NewAppendOptimizedFile(file)
 	if err != nil {
 		return nil, err
 	}
-	result.trnHashList = *wordfile.NewHashFile(opt, 0)
+	result.trnHashList = *wordfile.NewHashFile(opt, hashCount)
 
 	file, err = os.OpenFile(path.Join(chcc.addressesFolder, "Hashes.hsh"), os.O_RDWR, os.ModePerm)
 	if err != nil {
 		return nil, err
 	}
+	hashCount, err = countHashes(file)
+	if err != nil {
+		return nil, err
+	}
 	opt, err = memfile.NewAppendOptimizedFile(file)
 	if err != nil {
 		return nil, err
 	}
-	result.adrHashList = *wordfile.NewHashFile(opt, 0)
+	result.adrHashList = *wordfile.NewHashFile(opt, hashCount)
 
 	return &result, nil
 }
+
+func countHashes(file *os.File) (int64, error) {
+	info, err := file.Stat()
+	if err != nil {
+		return -1, err
+	}
+	return info.Size() / 32, nil
+}
-- 
2.43.0


From 8784c270007326a2988fad6071aed5a83e178379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:08 +0000
Subject: [PATCH 50/61] fix: the sample chain's transactions answer the amounts
 of all their outputs

---
 tinychain/transaction.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tinychain/transaction.go b/tinychain/transaction.go
index 216fd51..c2bae57 100644
--- a/tinychain/transaction.go
+++ b/tinychain/transaction.go
@@ -10,8 +10,11 @@ type Transaction struct {
 }
 
 func (t *Transaction) AllTxoSatoshis() ([]int64, error) {
-	//TODO implement me
-	panic("implement me")
+	result := make([]int64, len(t.txos))
+	for i := range t.txos {
+		result[i] = t.txos[i].satoshis
+	}
+	return result, nil
 }
 
 func (t *Transaction) TxiCount() (int64, error) {
-- 
2.43.0


From ddd263ea98642945613dc8685bf0b26595156acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 51/61] fix: failing to read a bin's overflow file is an error,
 not a hash that is not there

---
 indexedhashes3/binfiles.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/indexedhashes3/binfiles.go b/indexedhashes3/binfiles.go
index aac6658..f4b5dd9 100644
--- a/indexedhashes3/binfiles.go
+++ b/indexedhashes3/binfiles.go
@@ -34,10 +34,10 @@ func loadBinFromSlice(theBinBytes []byte, bn binNum, ovf *overflowFiles, p *Hash
 		// Otherwise try to append any entries from overflow file
 		_, overflowsFilepath := ovf.overflowFolderpathFilepath(bn)
 		overflowBytes, err := os.ReadFile(overflowsFilepath)
-		if err != nil {
-			// Do nothing when file doesn't exist
-		} else {
+		if err == nil {
 			theBinBytes = append(theBinBytes, overflowBytes...)
+		} else if !os.IsNotExist(err) { // Do nothing when file doesn't exist
+			return nil, err
 		}
 	}
 
@@ -65,10 +65,10 @@ func loadBinFromSliceIntoSlot(theBinBytes []byte, bn binNum, ovf *overflowFiles,
 		// Otherwise try to append any entries from overflow file
 		_, overflowsFilepath := ovf.overflowFolderpathFilepath(bn)
 		overflowBytes, err := os.ReadFile(overflowsFilepath)
-		if err != nil {
-			// Do nothing when file doesn't exist
-		} else {
+		if err == nil {
 			theBinBytes = append(theBinBytes, overflowBytes...)
+		} else if !os.IsNotExist(err) { // Do nothing when file doesn't exist
+			return err
 		}
 	}
 
-- 
2.43.0


From cb3e9a2d547166ed9a32b6bb1dc711cb086baafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 52/61] fix: failing to read an integer array file is an error,
 not an empty file

---
 intarrayarray/cachedintarraymapstore.go |  4 ++--
 intarrayarray/intarraymapstore.go       | 18 ++++++++++--------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/intarrayarray/cachedintarraymapstore.go b/intarrayarray/cachedintarraymapstore.go
index 9f7c25f..2be5bb4 100644
--- a/intarrayarray/cachedintarraymapstore.go
+++ b/intarrayarray/cachedintarraymapstore.go
@@ -83,8 +83,8 @@ func (ms *CachedIntArrayMapStore) loadIntoCache(folders string, filename string)
 	cached = NewIntArrayArray(ms.arrayCountPerFile, ms.elementByteSize)
 	filePath := ms.filePath(folders, filename)
 	err := cached.LoadFile(filePath)
-	if err != nil {
-		// Don't mind error here, we just stay empty
+	if err != nil && !os.IsNotExist(err) {
+		return nil, err // But we don't mind file not found, we just stay empty
 	}
 	ms.mapFolderFilenameToArrayArray[foldersFilename] = cached
 	ms.mapFolderFilenameToFolderPath[foldersFilename] = folderPath
diff --git a/intarrayarray/intarraymapstore.go b/intarrayarray/intarraymapstore.go
index 07a5e80..ece99c0 100644
--- a/intarrayarray/intarraymapstore.go
+++ b/intarrayarray/intarraymapstore.go
@@ -82,13 +82,14 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 		if err != nil {
 			return err
 		}
+		ms.latestFilepath = "" // Nothing is held until the load has succeeded
+		err = ms.latestIntArrayArray.LoadFile(filepath)
+		if err != nil && !os.IsNotExist(err) {
+			return err // But we don't mind about file not found, happy to be empty
+		}
 		// Make a note of the filename and number
 		ms.latestFilepath = filepath
 		ms.latestFileNumber = fileNumber
-		err = ms.latestIntArrayArray.LoadFile(filepath)
-		if err != nil {
-			// We don't mind about file not found, happy to be empty
-		}
 		// Append to the array
 		ms.latestIntArrayArray.AppendToArray(arrayKey%ms.arrayCountPerFile, value)
 		return nil
@@ -121,12 +122,13 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 			return err
 		}
 		// We can now safely load the required file into "older"
-		// Make a note of the filename
-		ms.olderFilepath = filepath
+		ms.olderFilepath = "" // Nothing is held until the load has succeeded
 		err = ms.olderIntArrayArray.LoadFile(filepath)
-		if err != nil {
-			// We don't mind a file not found here
+		if err != nil && !os.IsNotExist(err) {
+			return err // But we don't mind a file not found here
 		}
+		// Make a note of the filename
+		ms.olderFilepath = filepath
 		// And append to it
 		ms.olderIntArrayArray.AppendToArray(arrayKey%ms.arrayCountPerFile, value)
 		return nil
-- 
2.43.0


From 2250414e6e37bb6c0c0c1b8c7f1d8d790ec3d21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:04 +0000
Subject: [PATCH 53/61] fix: failing to read the hashes ends the building of
 the uniform index

---
 indexedhashes/multipasspreloader.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/indexedhashes/multipasspreloader.go b/indexedhashes/multipasspreloader.go
index d8387ab..4db4567 100644
--- a/indexedhashes/multipasspreloader.go
+++ b/indexedhashes/multipasspreloader.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"io"
 	"math"
 	"os"
 	"sync"
@@ -130,7 +131,7 @@ func (spd *SinglePassDetails) ReadIn(mp *MultipassPreloader) error {
 
 	chunk := make([]byte, 4096) // We read up to 4096 bytes at a time
 
-	nBytes, _ := hashesFile.Read(chunk)
+	nBytes, err := hashesFile.Read(chunk)
 	for nBytes > 0 {
 		if nBytes%32 != 0 {
 			return errors.New("invalid hash file length")
@@ -141,7 +142,10 @@ func (spd *SinglePassDetails) ReadIn(mp *MultipassPreloader) error {
 			spd.dealWithOneHash(&ih, mp)
 			ih.index++
 		}
-		nBytes, _ = hashesFile.Read(chunk)
+		nBytes, err = hashesFile.Read(chunk)
+	}
+	if err != nil && err != io.EOF {
+		return err
 	}
 	return nil
 }
-- 
2.43.0


From fc982ed3dd21cb16c3a425b3d6395b60e220f957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:04 +0000
Subject: [PATCH 54/61] fix: failing to count the hashes ends the building of
 the adaptive index

---
 indexedhashes3/adaptivepasspreloader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/indexedhashes3/adaptivepasspreloader.go b/indexedhashes3/adaptivepasspreloader.go
index c156db4..146b178 100644
--- a/indexedhashes3/adaptivepasspreloader.go
+++ b/indexedhashes3/adaptivepasspreloader.go
@@ -42,6 +42,9 @@ func (ap *AdaptivePassPreloader) IndexTheHashes(threads int) error {
 
 	var counts []binWorkInfo
 	counts, err = stageOneCountBinWork(hashesFilepath, ap.params)
+	if err != nil {
+		return err
+	}
 
 	err = stageTwoStageThreeHandleHashBins(hashesFilepath, ap.binNumsWordFile, ap.binStartsFile,
 		ap.overflowFiles, ap.params, counts, ap.gbPerPass, threads)
-- 
2.43.0


From 242d537547128eb7c5f82a85d1359f580552ccac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:18 +0000
Subject: [PATCH 55/61] fix: failing to save the uniform index's parameters is
 reported when it is built

---
 indexedhashes/multipasspreloader.go |  7 ++++++-
 indexedhashes/uniform.go            | 15 ++++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/indexedhashes/multipasspreloader.go b/indexedhashes/multipasspreloader.go
index 4db4567..e3c4535 100644
--- a/indexedhashes/multipasspreloader.go
+++ b/indexedhashes/multipasspreloader.go
@@ -238,12 +238,17 @@ func BiggestAddressPlusOne(hashDivider uint64) int64 {
 }
 
 func (mp *MultipassPreloader) CreateInitialFiles() error {
+	// The parameters were saved on construction, but only here can a failure be reported
+	err := mp.creator.saveParams()
+	if err != nil {
+		return err
+	}
+
 	biggestAddressPlusOne := BiggestAddressPlusOne(mp.creator.params.HashDivider)
 	bsFileSize := int64(binStartSize) * biggestAddressPlusOne
 
 	sep := string(os.PathSeparator)
 	bsFilePath := mp.creator.folderPath() + sep + "BinStarts.bst"
-	var err error
 	mp.binStartsFile, err = os.Create(bsFilePath)
 	if err != nil {
 		return err
diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index 47e95aa..e737b4c 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -64,15 +64,20 @@ func NewUniformHashStoreCreatorPrivate(hashCountEstimate int64,
 	possibleHashes := math.Pow(2, 64) // Because taking 64 LS bits of hash
 	result.params.HashDivider = uint64(possibleHashes / float64(targetNumFiles))
 
-	sep := string(os.PathSeparator)
-	fileParams, _ := os.Create(result.folderPath() + sep + "Params.json")
-	defer fileParams.Close()
-	byts, _ := json.Marshal(result.params)
-	_, _ = fileParams.Write(byts)
+	_ = result.saveParams() // (The folder might not be there yet)
 
 	return &result
 }
 
+func (uc *UniformHashStoreCreator) saveParams() error {
+	byts, err := json.Marshal(uc.params)
+	if err != nil {
+		return err
+	}
+	sep := string(os.PathSeparator)
+	return os.WriteFile(uc.folderPath()+sep+"Params.json", byts, 0666)
+}
+
 type UniformHashStoreParams struct {
 	HashDivider     uint64 `json:"hashDivider"`
 	DigitsPerFolder int    `json:"digitsPerFolder"`
-- 
2.43.0


From c331070d76a88bb603d83e24d0431b67f1ceaea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:10 +0000
Subject: [PATCH 56/61] fix: failing to save the binned index's parameters is
 reported

---
 indexedhashes3/hashstorecreator.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/indexedhashes3/hashstorecreator.go b/indexedhashes3/hashstorecreator.go
index 2ebf998..5732a8c 100644
--- a/indexedhashes3/hashstorecreator.go
+++ b/indexedhashes3/hashstorecreator.go
@@ -25,10 +25,14 @@ func NewHashStoreCreatorAndPreloader(folder string, name string,
 	sep := string(os.PathSeparator)
 	hashStoreFolderPath := folder + sep + name
 
-	fileParams, _ := os.Create(hashStoreFolderPath + sep + "HashIndexingParams.json")
-	defer fileParams.Close()
-	byts, _ := json.Marshal(params)
-	_, _ = fileParams.Write(byts)
+	byts, err := json.Marshal(params)
+	if err != nil {
+		return nil, nil, err
+	}
+	err = os.WriteFile(hashStoreFolderPath+sep+"HashIndexingParams.json", byts, 0666)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	creator := NewHashStoreCreatorPrivate(params, hashStoreFolderPath, false)
 	filename := folder + sep + name + sep + "BinNums.int"
@@ -50,10 +54,14 @@ func NewHashStoreCreatorAndPreloaderAdaptive(folder string, name string,
 	sep := string(os.PathSeparator)
 	hashStoreFolderPath := folder + sep + name
 
-	fileParams, _ := os.Create(hashStoreFolderPath + sep + "HashIndexingParams.json")
-	defer fileParams.Close()
-	byts, _ := json.Marshal(params)
-	_, _ = fileParams.Write(byts)
+	byts, err := json.Marshal(params)
+	if err != nil {
+		return nil, nil, err
+	}
+	err = os.WriteFile(hashStoreFolderPath+sep+"HashIndexingParams.json", byts, 0666)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	creator := NewHashStoreCreatorPrivate(params, hashStoreFolderPath, false)
 	filename := folder + sep + name + sep + "BinNums.int"
-- 
2.43.0


From 51f409e116db8daef1649f11f71552820e7d865b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:31 +0000
Subject: [PATCH 57/61] fix: failing to open a chain's optional integers is not
 their being absent

---
 chainstorage/concreteappendablechainfactory.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/chainstorage/concreteappendablechainfactory.go b/chainstorage/concreteappendablechainfactory.go
index bb2d4c6..6b0082e 100644
--- a/chainstorage/concreteappendablechainfactory.go
+++ b/chainstorage/concreteappendablechainfactory.go
@@ -479,6 +479,9 @@ func (cacc *ConcreteAppendableChainCreator) openPrivate() (*concreteAppendableCh
 		wfile, err := blkNonEssentialIntCreator.OpenWordFile()
 		if err == nil {
 			result.blkNonEssentialInts[supportedName] = wfile
+		} else if failedToOpen(err) {
+			result.Close()
+			return nil, err
 		}
 	}
 
@@ -490,6 +493,9 @@ func (cacc *ConcreteAppendableChainCreator) openPrivate() (*concreteAppendableCh
 		wfile, err := trnNonEssentialIntCreator.OpenWordFile()
 		if err == nil {
 			result.trnNonEssentialInts[supportedName] = wfile
+		} else if failedToOpen(err) {
+			result.Close()
+			return nil, err
 		}
 	}
 
@@ -700,6 +706,8 @@ func (cacc *ConcreteAppendableChainCreator) openReadOnlyPrivate() (*concreteRead
 		wfile, err := blkNonEssentialIntCreator.OpenWordFileReadOnly()
 		if err == nil {
 			result.blkNonEssentialInts[supportedName] = wfile
+		} else if failedToOpen(err) {
+			return nil, err
 		}
 	}
 
@@ -711,12 +719,21 @@ func (cacc *ConcreteAppendableChainCreator) openReadOnlyPrivate() (*concreteRead
 		wfile, err := trnNonEssentialIntCreator.OpenWordFileReadOnly()
 		if err == nil {
 			result.trnNonEssentialInts[supportedName] = wfile
+		} else if failedToOpen(err) {
+			return nil, err
 		}
 	}
 
 	return &result, nil
 }
 
+// failedToOpen tells failing to open a file that is there from its not being there
+// (or being empty, for then it can't be mapped into memory)
+func failedToOpen(err error) bool {
+	var pathError *os.PathError
+	return errors.As(err, &pathError) && !errors.Is(err, os.ErrNotExist)
+}
+
 func CheckAvailableRAM() {
 	fmt.Println("WARNING: You are about to map 100+ GB into memory.")
 	fmt.Println("If you have less than 128GB of RAM, this will destroy your SSD performance.")
-- 
2.43.0


From f55aa0b5381894ac60a8d380766e71a3019d4a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:28 +0000
Subject: [PATCH 58/61] fix: failing to append an address hash is reported

---
 chainstorage/concretehasheschain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chainstorage/concretehasheschain.go b/chainstorage/concretehasheschain.go
index 68485a5..5322d50 100644
--- a/chainstorage/concretehasheschain.go
+++ b/chainstorage/concretehasheschain.go
@@ -171,6 +171,9 @@ func (chc *concreteHashesChain) AppendHashesChi(chain chainhandleinterface.IBloc
 			// and is not generally known to bitcoiners
 			puddingHash3 := indexedhashes.HashOfBytes(chc.za_txoReceiver.ScriptPubBytes)
 			_, err = chc.adrHashList.AppendHash(puddingHash3)
+			if err != nil {
+				return err
+			}
 		} // for txo
 	} // for trans
 
-- 
2.43.0


From 10e9605baf74529d1e0997606beb1b9e134fb520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:36 +0000
Subject: [PATCH 59/61] fix: appending to a chain does not depend on the chains
 appended to before in the process

---
 chainstorage/concreteappendablechain.go       | 29 +++++++++++--------
 .../concreteappendablechainfactory.go         |  2 ++
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/chainstorage/concreteappendablechain.go b/chainstorage/concreteappendablechain.go
index fd7d3df..973f032 100644
--- a/chainstorage/concreteappendablechain.go
+++ b/chainstorage/concreteappendablechain.go
@@ -13,10 +13,15 @@ import (
 	"github.com/KitchenMishap/pudding-shed/wordfile"
 )
 
+// PrevFirstTxo and PrevTrans are no longer used: each chain keeps its own. (Existing callers still set them.)
 var PrevFirstTxo int64
 var PrevTrans int64
 
 type concreteAppendableChain struct {
+	// The most recent transaction's height, and the height of its first txo, to check that they never go backwards.
+	// -1 when no transaction has yet been appended to this chain (since it was opened)
+	prevTrans           int64
+	prevFirstTxo        int64
 	blkHashes           indexedhashes.HashReadWriter
 	trnFirstTxi         wordfile.ReadWriteAtWordCounter
 	trnFirstTxo         wordfile.ReadWriteAtWordCounter
@@ -153,7 +158,7 @@ func (cac *concreteAppendableChain) AppendBlock(blockChain chainreadinterface.IB
 			return err
 		}
 		if t == 0 {
-			if transNum < PrevTrans {
+			if transNum < cac.prevTrans {
 				panic("Trans num going backwards!")
 			}
 			// We will need this soon, as duplicate transaction hashes
@@ -334,17 +339,17 @@ func (cac *concreteAppendableChain) appendTransactionContents(blockChain chainre
 	if err != nil {
 		return -1, err
 	}
-	if PrevFirstTxo != -1 {
-		if putativeTxoHeight < PrevFirstTxo {
+	if cac.prevFirstTxo != -1 {
+		if putativeTxoHeight < cac.prevFirstTxo {
 			panic("txo going backwards")
 		}
-		if transHeight < PrevTrans {
+		if transHeight < cac.prevTrans {
 			panic("trans going backwards")
 		}
 	}
 	err = cac.trnFirstTxo.WriteWordAt(putativeTxoHeight, transHeight)
-	PrevFirstTxo = putativeTxoHeight
-	PrevTrans = transHeight
+	cac.prevFirstTxo = putativeTxoHeight
+	cac.prevTrans = transHeight
 
 	if err != nil {
 		return -1, err
@@ -648,7 +653,7 @@ func (cac *concreteAppendableChain) AppendBlockChi(blockChain chainhandleinterfa
 		}
 
 		if t == 0 {
-			if transNum < PrevTrans {
+			if transNum < cac.prevTrans {
 				panic("Trans num going backwards!")
 			}
 			// We will need this soon, as duplicate transaction hashes
@@ -764,11 +769,11 @@ func (cac *concreteAppendableChain) appendTransactionContentsChi(blockChain chai
 	if err != nil {
 		return -1, err
 	}
-	if PrevFirstTxo != -1 {
-		if putativeTxoHeight < PrevFirstTxo {
+	if cac.prevFirstTxo != -1 {
+		if putativeTxoHeight < cac.prevFirstTxo {
 			panic("txo going backwards")
 		}
-		if transHeight < PrevTrans {
+		if transHeight < cac.prevTrans {
 			panic("trans going backwards")
 		}
 	}
@@ -776,8 +781,8 @@ func (cac *concreteAppendableChain) appendTransactionContentsChi(blockChain chai
 	if err != nil {
 		return -1, err
 	}
-	PrevFirstTxo = putativeTxoHeight
-	PrevTrans = transHeight
+	cac.prevFirstTxo = putativeTxoHeight
+	cac.prevTrans = transHeight
 
 	for _, hTxo := range trans.TxoHandles {
 		err = blockChain.GetTxoInfo(hTxo, cac.za_txoReceiver)
diff --git a/chainstorage/concreteappendablechainfactory.go b/chainstorage/concreteappendablechainfactory.go
index 6b0082e..fcddfac 100644
--- a/chainstorage/concreteappendablechainfactory.go
+++ b/chainstorage/concreteappendablechainfactory.go
@@ -281,6 +281,8 @@ func (cacc *ConcreteAppendableChainCreator) OpenWithIndexer() (IAppendableChain,
 
 func (cacc *ConcreteAppendableChainCreator) openPrivate() (*concreteAppendableChain, error) {
 	result := concreteAppendableChain{}
+	result.prevTrans = -1
+	result.prevFirstTxo = -1
 	result.transactionIndexingIsDelegated = cacc.transactionIndexingToBeDelegated
 
 	var err error
-- 
2.43.0


From f369c42e0256f79349248984dc39a811a4a5e2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:57 +0000
Subject: [PATCH 60/61] fix: a block or transaction lacking an optional integer
 is not given the previous one's

---
 chainhandleinterface/iblockreceiver.go       | 5 ++++-
 chainhandleinterface/itransactionreceiver.go | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/chainhandleinterface/iblockreceiver.go b/chainhandleinterface/iblockreceiver.go
index 938631b..674bf33 100644
--- a/chainhandleinterface/iblockreceiver.go
+++ b/chainhandleinterface/iblockreceiver.go
@@ -29,7 +29,10 @@ type BlockReceiver struct {
 // BlockReceiver implements IBlockReceiver
 var _ IBlockReceiver = (*BlockReceiver)(nil) // Check that implements
 
-func (br *BlockReceiver) ResetReceiver()                            { br.TransactionHandles = br.TransactionHandles[:0] }
+func (br *BlockReceiver) ResetReceiver() {
+	br.TransactionHandles = br.TransactionHandles[:0]
+	clear(br.FieldMap) // So that fields of a previous block are not taken for fields of the next
+}
 func (br *BlockReceiver) ReceiveBlockHeight(height int64)           { br.BlockHeight = height }
 func (br *BlockReceiver) ReceiveBlockHash(hash [32]byte)            { br.BlockHash = hash }
 func (br *BlockReceiver) ReceiveIntField(field string, value int64) { br.FieldMap[field] = value }
diff --git a/chainhandleinterface/itransactionreceiver.go b/chainhandleinterface/itransactionreceiver.go
index 8c08445..ee7e708 100644
--- a/chainhandleinterface/itransactionreceiver.go
+++ b/chainhandleinterface/itransactionreceiver.go
@@ -38,6 +38,7 @@ var _ IBitcoinCoreTransactionReceiver = (*BitcoinCoreTransactionReceiver)(nil) /
 func (tr *BitcoinCoreTransactionReceiver) ResetReceiver() {
 	tr.TxiHandles = tr.TxiHandles[:0]
 	tr.TxoHandles = tr.TxoHandles[:0]
+	clear(tr.FieldMap) // So that fields of a previous transaction are not taken for fields of the next
 }
 func (tr *BitcoinCoreTransactionReceiver) ReceiveParentBlockHandle(blockHandle BlockHandle) {
 	tr.ParentBlockHandle = blockHandle
-- 
2.43.0


From 8b7b54852c8edd8c1dff31c2d028941ce80c5a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:35 +0000
Subject: [PATCH 61/61] fix: a newly created cake does not hold the lower tiers
 of an earlier one

---
 weddingcakefront/cakecreator.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/weddingcakefront/cakecreator.go b/weddingcakefront/cakecreator.go
index 5731fdc..8ef4ec3 100644
--- a/weddingcakefront/cakecreator.go
+++ b/weddingcakefront/cakecreator.go
@@ -1,11 +1,14 @@
 package weddingcakefront
 
 import (
+	"os"
+
 	"github.com/KitchenMishap/pudding-shed/weddingcakeback"
 )
 
 type CakeCreator struct {
 	folder         string
+	config         *weddingcakeback.CakeConfig
 	tierTopCreator *weddingcakeback.TierTopCreator
 }
 
@@ -16,6 +19,7 @@ func NewCakeCreator(folder string, reassuranceBytes byte) *CakeCreator {
 	result := CakeCreator{}
 	result.folder = folder
 	config := weddingcakeback.NewCakeConfig(32, reassuranceBytes)
+	result.config = config
 	result.tierTopCreator = weddingcakeback.NewTierTopCreator(folder, config)
 	return &result
 }
@@ -26,6 +30,14 @@ func (cc *CakeCreator) HashStoreExists() bool {
 }
 
 func (cc *CakeCreator) CreateHashStore() error {
+	// Remove any lower tiers of an earlier cake in this folder, as their hashes are not this cake's
+	for i := range cc.config.TierBelowConfigs {
+		tierBelow := weddingcakeback.NewTierBelow(cc.folder, byte(i), cc.config)
+		err := os.RemoveAll(tierBelow.TierFolder)
+		if err != nil {
+			return err
+		}
+	}
 	// Create an empty tier zero
 	return cc.tierTopCreator.Create(0)
 }
-- 
2.43.0

