From 9a2c0b0f052890c27de36f94397144790ea940af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:59 +0000
Subject: [PATCH 01/32] fix: keep our own copy of the seeds passed to
 DeriveInto

---
 api.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index 28f434c..3a67420 100644
--- a/api.go
+++ b/api.go
@@ -441,8 +441,17 @@ func (ctx *Context) DeriveInto(ctr PrivateKeyContainer,
 		return nil, nil, err
 	}
 
+	// The caller is free to reuse (or wipe) the slices passed to us
+	// and the container owns concatSk, so we need our own copy.
+	seeds := make([]byte, 3*ctx.p.N)
+	copy(seeds, concatSk)
+
 	pad := ctx.newScratchPad()
-	sk, err := ctx.newPrivateKey(pad, pubSeed, skSeed, skPrf, 0, ctr)
+	sk, err := ctx.newPrivateKey(pad,
+		seeds[2*ctx.p.N:3*ctx.p.N],
+		seeds[:ctx.p.N],
+		seeds[ctx.p.N:2*ctx.p.N],
+		0, ctr)
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From 0fcd78a6e8e39264afd7d8523890598af6c0a196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:18 +0000
Subject: [PATCH 02/32] fix: do not open a key when its lock could not be
 acquired

---
 container.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/container.go b/container.go
index a878742..3e57a79 100644
--- a/container.go
+++ b/container.go
@@ -155,6 +155,11 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 		err2.locked = true
 		return nil, err2
 	}
+	if err != nil {
+		// We might have failed after the lockfile was put in place.
+		ctr.flock.Unlock()
+		return nil, wrapErrorf(err, "Failed to acquire lock %s", lockFilePath)
+	}
 
 	// Check if the container exists
 	if _, err = os.Stat(ctr.path); os.IsNotExist(err) {
-- 
2.43.0


From 5442cb7875691dd02969e2dfdedc49f5202e9872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:36 +0000
Subject: [PATCH 03/32] fix: refuse to open a key twice within the same process

---
 container.go | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/container.go b/container.go
index 3e57a79..edd98ab 100644
--- a/container.go
+++ b/container.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"sync"
 
 	"github.com/bwesterb/byteswriter"
 	"github.com/edsrzf/mmap-go"
@@ -128,6 +129,33 @@ const (
 	FS_CONTAINER_CACHE_MAGIC2 = "5a11d7cf4a1f6314"
 )
 
+// Set of paths of the fsContainers that are open in this process.
+//
+// The lockfile only contains the pid of its owner, so it can't prevent
+// one process from opening the same container twice.
+var (
+	openFSContainers    = make(map[string]bool)
+	openFSContainersMux sync.Mutex
+)
+
+// Claims path for this process.  Returns false if it is already claimed.
+func claimFSContainer(path string) bool {
+	openFSContainersMux.Lock()
+	defer openFSContainersMux.Unlock()
+	if openFSContainers[path] {
+		return false
+	}
+	openFSContainers[path] = true
+	return true
+}
+
+// Releases a path claimed by claimFSContainer().
+func releaseFSContainer(path string) {
+	openFSContainersMux.Lock()
+	defer openFSContainersMux.Unlock()
+	delete(openFSContainers, path)
+}
+
 // Returns a PrivateKeyContainer backed by the filesystem.
 func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 	var ctr fsContainer
@@ -147,10 +175,17 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 			"Failed to create lockfile %s", lockFilePath)
 	}
 
+	if !claimFSContainer(ctr.path) {
+		err2 := errorf("%s is locked", path)
+		err2.locked = true
+		return nil, err2
+	}
+
 	err = ctr.flock.TryLock()
 	if _, ok := err.(interface {
 		Temporary() bool
 	}); ok {
+		releaseFSContainer(ctr.path)
 		err2 := errorf("%s is locked", path)
 		err2.locked = true
 		return nil, err2
@@ -158,6 +193,7 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 	if err != nil {
 		// We might have failed after the lockfile was put in place.
 		ctr.flock.Unlock()
+		releaseFSContainer(ctr.path)
 		return nil, wrapErrorf(err, "Failed to acquire lock %s", lockFilePath)
 	}
 
@@ -720,6 +756,10 @@ func (ctr *fsContainer) closeCache() (err error) {
 
 func (ctr *fsContainer) Close() Error {
 	var err error
+	if ctr.closed {
+		// The path, and thus the lock, might belong to someone else by now.
+		return errorf("Container is already closed")
+	}
 	if err2 := ctr.closeCache(); err2 != nil {
 		err = multierror.Append(err, wrapErrorf(err2,
 			"Could not close cache"))
@@ -728,6 +768,7 @@ func (ctr *fsContainer) Close() Error {
 		err = multierror.Append(err, wrapErrorf(err2,
 			"Could not release file lock"))
 	}
+	releaseFSContainer(ctr.path)
 	ctr.closed = true
 	ctr.initialized = false
 
-- 
2.43.0


From 2b64244fdbf71c6b94ed1c0f8d1e0cf4428328c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 04/32] fix: release the lock when opening, loading or deriving
 a key fails

---
 api.go       | 14 ++++++++++++--
 container.go | 30 ++++++++++++++++++++----------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/api.go b/api.go
index 3a67420..bbd2c34 100644
--- a/api.go
+++ b/api.go
@@ -419,7 +419,12 @@ func (ctx *Context) Derive(path string, pubSeed, skSeed, skPrf []byte) (
 	if err != nil {
 		return nil, nil, err
 	}
-	return ctx.DeriveInto(ctr, pubSeed, skSeed, skPrf)
+	sk, pk, err := ctx.DeriveInto(ctr, pubSeed, skSeed, skPrf)
+	if err != nil {
+		ctr.Close()
+		return nil, nil, err
+	}
+	return sk, pk, nil
 }
 
 // Derives an XMSS[MT] public/private keypair from the given seeds
@@ -732,7 +737,12 @@ func LoadPrivateKey(path string) (
 	if err != nil {
 		return nil, nil, 0, err
 	}
-	return LoadPrivateKeyFrom(ctr)
+	sk, pk, lostSigs, err = LoadPrivateKeyFrom(ctr)
+	if err != nil {
+		ctr.Close()
+		return nil, nil, 0, err
+	}
+	return
 }
 
 // Loads the private key from the given private key container.
diff --git a/container.go b/container.go
index edd98ab..00dd3bb 100644
--- a/container.go
+++ b/container.go
@@ -197,26 +197,36 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 		return nil, wrapErrorf(err, "Failed to acquire lock %s", lockFilePath)
 	}
 
+	if err2 := ctr.open(); err2 != nil {
+		ctr.Close() // releases the lock
+		return nil, err2
+	}
+
+	return &ctr, nil
+}
+
+// Reads the key file (if it exists) and opens the cache.
+func (ctr *fsContainer) open() Error {
 	// Check if the container exists
-	if _, err = os.Stat(ctr.path); os.IsNotExist(err) {
-		return &ctr, nil
+	if _, err := os.Stat(ctr.path); os.IsNotExist(err) {
+		return nil
 	}
 
 	// Open the container.
 	file, err := os.Open(ctr.path)
 	if err != nil {
-		return &ctr, wrapErrorf(err, "Failed to open keyfile %s", path)
+		return wrapErrorf(err, "Failed to open keyfile %s", ctr.path)
 	}
 	defer file.Close()
 
 	var keyHeader fsKeyHeader
 	err = binary.Read(file, binary.BigEndian, &keyHeader)
 	if err != nil {
-		return &ctr, wrapErrorf(err, "Failed to read keyfile header")
+		return wrapErrorf(err, "Failed to read keyfile header")
 	}
 
 	if FS_CONTAINER_KEY_MAGIC != hex.EncodeToString(keyHeader.Magic[:]) {
-		return &ctr, wrapErrorf(err, "Keyfile has invalid magic")
+		return errorf("Keyfile has invalid magic")
 	}
 
 	ctr.params = keyHeader.Params
@@ -225,12 +235,12 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 	ctr.borrowed = keyHeader.Borrowed
 	_, err = io.ReadAtLeast(file, ctr.privateKey, ctr.params.PrivateKeySize())
 	if err != nil {
-		return &ctr, wrapErrorf(err, "Failed to read private key")
+		return wrapErrorf(err, "Failed to read private key")
 	}
 
 	ctr.initialized = true
 
-	return &ctr, ctr.openCache()
+	return ctr.openCache()
 }
 
 func (ctr *fsContainer) openCache() Error {
@@ -258,18 +268,18 @@ func (ctr *fsContainer) openCache() Error {
 
 	magic := hex.EncodeToString(header.Magic[:])
 	if magic != FS_CONTAINER_CACHE_MAGIC && magic != FS_CONTAINER_CACHE_MAGIC2 {
-		return wrapErrorf(err, "Cache file magic is wrong")
+		return errorf("Cache file magic is wrong")
 	}
 
 	if magic == FS_CONTAINER_CACHE_MAGIC {
 		if header.Version != 0 {
-			return wrapErrorf(err, "Cache file version does not match magic")
+			return errorf("Cache file version does not match magic")
 		}
 
 		ctr.subTreeAlignment = 4096
 	} else {
 		if header.Version != 1 {
-			return wrapErrorf(err, "Unsupported cache file version: %d",
+			return errorf("Unsupported cache file version: %d",
 				header.Version)
 		}
 
-- 
2.43.0


From 59c3400644830c56baea8a3933af04cf729f8630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:21 +0000
Subject: [PATCH 05/32] fix: load keys whose cache file is missing or damaged

---
 container.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/container.go b/container.go
index 00dd3bb..f6dfad3 100644
--- a/container.go
+++ b/container.go
@@ -240,7 +240,15 @@ func (ctr *fsContainer) open() Error {
 
 	ctr.initialized = true
 
-	return ctr.openCache()
+	// Everything in the cache can be computed again, so a missing or damaged
+	// cache is no reason to refuse to load the key.  Leave it to the caller
+	// to call ResetCache().
+	if err2 := ctr.openCache(); err2 != nil {
+		log.Logf("Could not open cache: %v", err2)
+		ctr.closeCache()
+	}
+
+	return nil
 }
 
 func (ctr *fsContainer) openCache() Error {
@@ -289,6 +297,17 @@ func (ctr *fsContainer) openCache() Error {
 	ctr.pageSize = os.Getpagesize()
 	ctr.allocatedSubTrees = header.AllocatedSubTrees
 
+	// Accessing a mapping beyond the end of the file is fatal, so make sure
+	// the file has not been cut short.
+	info, err := ctr.cacheFile.Stat()
+	if err != nil {
+		return wrapErrorf(err, "Failed to stat cache file")
+	}
+	if ctr.allocatedSubTrees > 0 && info.Size() <
+		int64(ctr.subTreeOffset(ctr.allocatedSubTrees)) {
+		return errorf("Cache file is truncated")
+	}
+
 	// Read subtrees
 	var idx uint32
 	for idx = 0; idx < ctr.allocatedSubTrees; idx++ {
@@ -394,7 +413,7 @@ func (ctr *fsContainer) ResetCache() Error {
 		os.O_RDWR|os.O_CREATE|os.O_TRUNC,
 		0600)
 	if err2 != nil {
-		return wrapErrorf(err, "failed to create cache file")
+		return wrapErrorf(err2, "failed to create cache file")
 	}
 
 	if err = ctr.writeCacheHeader(); err != nil {
-- 
2.43.0


From da1a3a38ff7baf4b1adf6d05f57798ccdb92a130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:39 +0000
Subject: [PATCH 06/32] fix: check the subtree alignment read from the cache
 file

---
 container.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/container.go b/container.go
index f6dfad3..97116ad 100644
--- a/container.go
+++ b/container.go
@@ -292,6 +292,13 @@ func (ctr *fsContainer) openCache() Error {
 		}
 
 		ctr.subTreeAlignment = int(header.SubTreeAlignment)
+		if ctr.subTreeAlignment == 0 {
+			ctr.subTreeAlignment = 4096
+		}
+		if ctr.subTreeAlignment%4096 != 0 {
+			return errorf("Invalid subtree alignment in cache file: %d",
+				header.SubTreeAlignment)
+		}
 	}
 
 	ctr.pageSize = os.Getpagesize()
-- 
2.43.0


From 562550342da99f116a5bd655efb9e543da83ff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:27 +0000
Subject: [PATCH 07/32] fix: bind the checksum of a cached subtree to its key
 and address

---
 api.go  |  4 ++++
 core.go | 28 ++++++++++++++++++++++++++--
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/api.go b/api.go
index bbd2c34..58eabb8 100644
--- a/api.go
+++ b/api.go
@@ -58,6 +58,10 @@ type PrivateKey struct {
 
 	ctx *Context          // context, which contains algorithm parameters.
 	ph  precomputedHashes // precomputed hashes
+
+	// Hash of the private key, included in the checksums of cached subtrees.
+	cacheTag []byte
+
 	// container that stores the secret key, signature sequence number
 	// and caches the subtrees
 	ctr PrivateKeyContainer
diff --git a/core.go b/core.go
index bd607cf..ef9b13a 100644
--- a/core.go
+++ b/core.go
@@ -6,6 +6,7 @@ import (
 	"github.com/cespare/xxhash"
 
 	"container/heap"
+	"crypto/sha256"
 	"encoding/binary"
 	"runtime"
 	"sync"
@@ -302,7 +303,7 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 		storedCheckSum := binary.BigEndian.Uint64(buf[len(buf)-8:])
 
 		sk.mux.Lock()
-		intact := storedCheckSum == xxhash.Sum64(buf[:len(buf)-8])
+		intact := storedCheckSum == sk.subTreeCheckSum(sta, buf)
 		if intact {
 			sk.subTreeChecked[sta] = true
 			sk.mux.Unlock()
@@ -352,7 +353,7 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 	// Called when we were sucessful in the end.
 	succeed := func() {
 		binary.BigEndian.PutUint64(buf[len(buf)-8:],
-			xxhash.Sum64(buf[:len(buf)-8]))
+			sk.subTreeCheckSum(sta, buf))
 
 		sk.mux.Lock()
 		sk.subTreeReady[sta] = true
@@ -411,6 +412,22 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 	return
 }
 
+// Computes the checksum for the given cached subtree stored in buf.
+//
+// The checksum covers the private key and the address of the subtree as well,
+// such that we do not mistake an intact subtree of another key, or from
+// elsewhere in the tree, for the one we want.
+func (sk *PrivateKey) subTreeCheckSum(sta SubTreeAddress, buf []byte) uint64 {
+	var addr [12]byte
+	binary.BigEndian.PutUint32(addr[:4], sta.Layer)
+	binary.BigEndian.PutUint64(addr[4:], sta.Tree)
+	h := xxhash.New()
+	h.Write(sk.cacheTag)
+	h.Write(addr[:])
+	h.Write(buf[:len(buf)-8])
+	return h.Sum64()
+}
+
 // Gets the next free sequence number
 func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 	sk.mux.Lock()
@@ -515,6 +532,13 @@ func (ctx *Context) newPrivateKey(pad scratchPad, pubSeed, skSeed, skPrf []byte,
 		ph:      ctx.precomputeHashes(pubSeed, skSeed),
 	}
 
+	tag := sha256.New()
+	tag.Write(skSeed)
+	tag.Write(skPrf)
+	tag.Write(pubSeed)
+	tag.Write([]byte(ctx.p.String()))
+	ret.cacheTag = tag.Sum(nil)
+
 	// Initialize helper data structures
 	ret.cond = sync.NewCond(&ret.mux)
 	ret.subTreeReady = make(map[SubTreeAddress]bool)
-- 
2.43.0


From 3f902083f852162fde3f7a0301674e55df9b0114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:06 +0000
Subject: [PATCH 08/32] fix: do not panic after generating or dropping a
 subtree failed

---
 core.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/core.go b/core.go
index ef9b13a..b113b97 100644
--- a/core.go
+++ b/core.go
@@ -254,10 +254,10 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 			return
 		}
 
-		if exists2 {
-			if !exists {
-				panic("This should not be possible")
-			}
+		// NOTE Dropping a subtree might fail and leave the container with
+		// a subtree we don't know about, or the other way around.  Either way
+		// it has to be filled.
+		if exists && exists2 {
 			if subTreeReady {
 				alreadyDone = true
 				justCheckTheChecksum = !sk.subTreeChecked[sta]
@@ -270,10 +270,6 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 			continue
 		}
 
-		if exists {
-			panic("This should not be possible")
-		}
-
 		// The sub tree does not yet exist.  We will have to fill it.
 		sk.subTreeReady[sta] = false
 		sk.subTreeChecked[sta] = true
@@ -346,6 +342,9 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 		sk.mux.Lock()
 		delete(sk.subTreeReady, sta)
 		delete(sk.subTreeChecked, sta)
+		if err := sk.ctr.DropSubTree(sta); err != nil {
+			log.Logf("Failed to drop subtree %v: %v", sta, err)
+		}
 		sk.cond.Broadcast()
 		sk.mux.Unlock()
 	}
-- 
2.43.0


From 7d37a2542adac70623cce451fe9f1f2ad9012fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:22 +0000
Subject: [PATCH 09/32] fix: check cached subtrees for corruption without
 racing their correction

---
 core.go | 65 ++++++++++++++++++---------------------------------------
 1 file changed, 20 insertions(+), 45 deletions(-)

diff --git a/core.go b/core.go
index b113b97..a319356 100644
--- a/core.go
+++ b/core.go
@@ -235,7 +235,6 @@ func (ctx *Context) subTreePathForSeqNo(seqNo SignatureSeqNo) (
 func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 	mt *merkleTree, wotsSig []byte, err Error) {
 	alreadyDone := false
-	justCheckTheChecksum := false
 	isRoot := (sta.Layer == sk.ctx.p.D-1)
 	parentSta := SubTreeAddress{
 		Layer: sta.Layer + 1,
@@ -259,8 +258,25 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 		// it has to be filled.
 		if exists && exists2 {
 			if subTreeReady {
-				alreadyDone = true
-				justCheckTheChecksum = !sk.subTreeChecked[sta]
+				if sk.subTreeChecked[sta] {
+					alreadyDone = true
+					break
+				}
+
+				// The tree seems ready, but we still need to check whether it
+				// hasn't been corrupted.  We keep holding the lock, as a
+				// corrupted tree is corrected in place.
+				log.Logf("Checking integrity of subtree %v ...", sta)
+				if binary.BigEndian.Uint64(buf[len(buf)-8:]) ==
+					sk.subTreeCheckSum(sta, buf) {
+					sk.subTreeChecked[sta] = true
+					alreadyDone = true
+					break
+				}
+
+				// Mark the subtree not-ready
+				log.Logf("Subtree %v is corrupted.  Correcting it ...", sta)
+				sk.subTreeReady[sta] = false
 				break
 			}
 
@@ -288,48 +304,7 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 	wotsSig = buf[sk.ctx.p.BareSubTreeSize() : sk.ctx.p.BareSubTreeSize()+int(sk.ctx.p.WotsSignatureSize())]
 
 	if alreadyDone {
-		if !justCheckTheChecksum {
-			return
-		}
-
-		log.Logf("Checking integrity of subtree %v ...", sta)
-
-		// The tree seems ready, but we just need to check whether it
-		// hasn't been corrupted.
-		storedCheckSum := binary.BigEndian.Uint64(buf[len(buf)-8:])
-
-		sk.mux.Lock()
-		intact := storedCheckSum == sk.subTreeCheckSum(sta, buf)
-		if intact {
-			sk.subTreeChecked[sta] = true
-			sk.mux.Unlock()
-			return
-		}
-
-		// The tree seems corrupted.  Another thread might have reached the
-		// same conclusion, so we should check whether another thread is already
-		// correcting the problem for us.
-		if !sk.subTreeReady[sta] {
-			// There is another thread correcting the issue.  Lets wait
-			// for it.
-			log.Logf("Subtree %v is corrupted.  Another thread seems to be "+
-				"correcting the problem.  Waiting ...", sta)
-			for {
-				sk.cond.Wait()
-				if sk.subTreeReady[sta] {
-					log.Logf(" ... the subtree has been corrected.")
-					sk.mux.Unlock()
-					return
-				}
-
-				log.Logf(" ... not corrected, yet.")
-			}
-		}
-
-		// Mark the subtree not-ready
-		log.Logf("Subtree %v is corrupted.  Correcting it ...", sta)
-		sk.subTreeReady[sta] = false
-		sk.mux.Unlock()
+		return
 	}
 
 	sk.ctx.genSubTreeInto(pad, sk.skSeed, sk.ph, sta, mtDeref)
-- 
2.43.0


From 51aa401b70df2ece13664d974071b751ec20b2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:19 +0000
Subject: [PATCH 10/32] fix: let Close wait for running signatures and
 precomputation

---
 api.go  | 51 +++++++++++++++++++++++++++++++++++++++++----------
 core.go |  7 +++++++
 2 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/api.go b/api.go
index 58eabb8..3d790c0 100644
--- a/api.go
+++ b/api.go
@@ -80,7 +80,11 @@ type PrivateKey struct {
 
 	mux  sync.Mutex
 	cond *sync.Cond     // signalled when a subtree is generated
-	wg   sync.WaitGroup // used to join all background workers when Close()ing
+	wg   sync.WaitGroup // used to join all users of ctr when Close()ing
+
+	closed   bool       // true if Close()d, or about to be
+	closeMux sync.Mutex // held during Close()
+
 	// subTreeReady[sta] is true if and only if the sub tree with the given
 	// address is allocated and filled.
 	subTreeReady map[SubTreeAddress]bool
@@ -475,6 +479,9 @@ func (ctx *Context) DeriveInto(ctr PrivateKeyContainer,
 func (sk *PrivateKey) BorrowExactlyIfBelow(amount, treshHold uint32) Error {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
+	if sk.closed {
+		return errorf("Private key is closed")
+	}
 	if sk.borrowed <= treshHold {
 		return sk.borrowExactly(amount)
 	}
@@ -494,6 +501,9 @@ func (sk *PrivateKey) BorrowExactlyIfBelow(amount, treshHold uint32) Error {
 func (sk *PrivateKey) BorrowExactly(amount uint32) Error {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
+	if sk.closed {
+		return errorf("Private key is closed")
+	}
 	return sk.borrowExactly(amount)
 }
 
@@ -539,6 +549,7 @@ func (sk *PrivateKey) SignFrom(msg io.Reader) (*Signature, Error) {
 	if err != nil {
 		return nil, err
 	}
+	defer sk.wg.Done()
 	defer sk.retireSeqNo(seqNo)
 
 	// Compute the path of subtrees
@@ -597,24 +608,39 @@ func (sk *PrivateKey) SignFrom(msg io.Reader) (*Signature, Error) {
 }
 
 // Close the underlying container
+//
+// Waits for running Sign() operations to finish.  If Close() failed because
+// the signature sequence number could not be stored, then the PrivateKey is
+// still open and Close() can be called again.
 func (sk *PrivateKey) Close() Error {
+	sk.closeMux.Lock()
+	defer sk.closeMux.Unlock()
+
+	sk.mux.Lock()
+	if sk.closed {
+		sk.mux.Unlock()
+		return errorf("Private key is already closed")
+	}
+	sk.closed = true
+	sk.mux.Unlock()
+
+	// There might be other Sign()s busy and there might be a background
+	// goroutine generating a subtree when EnableSubTreePrecomputation() was
+	// called.  As these use the container and need the lock, we have to
+	// wait for them without holding it.
+	sk.wg.Wait()
+
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 	if sk.borrowed > 0 {
 		sk.borrowed = 0
 		err := sk.ctr.SetSeqNo(sk.seqNo)
 		if err != nil {
+			sk.closed = false
 			return err
 		}
 	}
-	err := sk.ctr.Close()
-	sk.cond.Broadcast()
-
-	// There might be a background goroutine generating a subtree
-	// when EnableSubTreePrecomputation() was called.  So wait for that.
-	sk.wg.Wait()
-
-	return err
+	return sk.ctr.Close()
 }
 
 // Return new context for the given XMSS[MT] oid (and nil if it's unknown).
@@ -873,10 +899,15 @@ func (sk *PrivateKey) EnableSubTreePrecomputation() {
 		Tree:  (uint64(sk.seqNo) >> sk.ctx.treeHeight) + 1,
 	}
 	_, nextTreeExists := sk.subTreeReady[nextSta]
+	if sk.closed {
+		nextTreeExists = true
+	}
+	if !nextTreeExists {
+		sk.wg.Add(1)
+	}
 	sk.mux.Unlock()
 
 	if !nextTreeExists {
-		sk.wg.Add(1)
 		go func() {
 			sk.getSubTree(sk.ctx.newScratchPad(), nextSta)
 			sk.wg.Done()
diff --git a/core.go b/core.go
index a319356..cdb73d6 100644
--- a/core.go
+++ b/core.go
@@ -407,6 +407,10 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 
+	if sk.closed {
+		return 0, errorf("Private key is closed")
+	}
+
 	if uint64(sk.seqNo) == sk.ctx.p.MaxSignatureSeqNo() {
 		return 0, errorf("No unused signatures left")
 	}
@@ -426,6 +430,9 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 
 	sk.seqNo += 1
 
+	// Close() has to wait for us: see SignFrom().
+	sk.wg.Add(1)
+
 	// Check if we need to precompute a subtree
 	if sk.precomputeNextSubTree &&
 		(uint64(sk.seqNo)&((1<<sk.ctx.treeHeight)-1) == 0) {
-- 
2.43.0


From 4ff87ec110be9b685752013471a1fdc346c7be46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:08 +0000
Subject: [PATCH 11/32] fix: do not precompute subtrees that are retired or do
 not exist

---
 api.go  | 15 ++---------
 core.go | 79 ++++++++++++++++++++++++++++++++++++++++++++-------------
 2 files changed, 64 insertions(+), 30 deletions(-)

diff --git a/api.go b/api.go
index 3d790c0..b225787 100644
--- a/api.go
+++ b/api.go
@@ -898,19 +898,8 @@ func (sk *PrivateKey) EnableSubTreePrecomputation() {
 		Layer: 0,
 		Tree:  (uint64(sk.seqNo) >> sk.ctx.treeHeight) + 1,
 	}
-	_, nextTreeExists := sk.subTreeReady[nextSta]
-	if sk.closed {
-		nextTreeExists = true
-	}
-	if !nextTreeExists {
-		sk.wg.Add(1)
+	if _, ok := sk.subTreeReady[nextSta]; !ok {
+		sk.precomputeSubTree(nextSta.Tree)
 	}
 	sk.mux.Unlock()
-
-	if !nextTreeExists {
-		go func() {
-			sk.getSubTree(sk.ctx.newScratchPad(), nextSta)
-			sk.wg.Done()
-		}()
-	}
 }
diff --git a/core.go b/core.go
index cdb73d6..23d8b9b 100644
--- a/core.go
+++ b/core.go
@@ -436,21 +436,47 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 	// Check if we need to precompute a subtree
 	if sk.precomputeNextSubTree &&
 		(uint64(sk.seqNo)&((1<<sk.ctx.treeHeight)-1) == 0) {
-		sk.wg.Add(1)
-		go func(sta SubTreeAddress) {
-			log.Logf("Precomputing subtree %v", sta)
-			sk.getSubTree(sk.ctx.newScratchPad(), sta)
-			log.Logf("Finished precomputing subtree %v", sta)
-			sk.wg.Done()
-		}(SubTreeAddress{
-			Layer: 0,
-			Tree:  (uint64(sk.seqNo) >> sk.ctx.treeHeight) + 1,
-		})
+		sk.precomputeSubTree((uint64(sk.seqNo) >> sk.ctx.treeHeight) + 1)
 	}
 
 	return sk.seqNo - 1, nil
 }
 
+// Generates the given subtree of layer 0 in the background.
+//
+// NOTE Assumes a lock on sk.mux.
+func (sk *PrivateKey) precomputeSubTree(tree uint64) {
+	if sk.closed || tree>>(sk.ctx.p.FullHeight-sk.ctx.treeHeight) != 0 {
+		return
+	}
+	sk.wg.Add(1)
+	go func(sta SubTreeAddress) {
+		defer sk.wg.Done()
+
+		// By the time we get to run, the subtree might have been used up.
+		sk.mux.Lock()
+		retired := sk.isRetired(sta)
+		sk.mux.Unlock()
+		if retired {
+			return
+		}
+
+		log.Logf("Precomputing subtree %v", sta)
+		sk.getSubTree(sk.ctx.newScratchPad(), sta)
+		log.Logf("Finished precomputing subtree %v", sta)
+
+		// The subtree (or one of its ancestors) might also have been used up
+		// while we were generating it, see incLeastSeqNoInUse().
+		sk.mux.Lock()
+		for sta.Layer < sk.ctx.p.D && sk.isRetired(sta) {
+			sk.dropSubTree(sta)
+			sta.Layer++
+			sta.Tree >>= sk.ctx.treeHeight
+		}
+		sk.mux.Unlock()
+	}(SubTreeAddress{Layer: 0, Tree: tree})
+}
+
 func (pad scratchPad) fBuf() []byte {
 	return pad.buf[:3*pad.n]
 }
@@ -589,12 +615,31 @@ func (sk *PrivateKey) incLeastSeqNoInUse() {
 			Layer: sta.Layer,
 			Tree:  sta.Tree - 1,
 		}
-		log.Logf("Dropping cached subtree %v ...", staToDrop)
-		if err := sk.ctr.DropSubTree(staToDrop); err != nil {
-			log.Logf("  failed to drop subtree %v: %v", staToDrop, err)
-		} else {
-			delete(sk.subTreeReady, staToDrop)
-			delete(sk.subTreeChecked, staToDrop)
-		}
+		sk.dropSubTree(staToDrop)
+	}
+}
+
+// Drops the given subtree from the cache, except if it's still being generated.
+//
+// NOTE Assumes a lock on sk.mux.
+func (sk *PrivateKey) dropSubTree(sta SubTreeAddress) {
+	if ready, ok := sk.subTreeReady[sta]; ok && !ready {
+		return
 	}
+	log.Logf("Dropping cached subtree %v ...", sta)
+	if err := sk.ctr.DropSubTree(sta); err != nil {
+		log.Logf("  failed to drop subtree %v: %v", sta, err)
+	} else {
+		delete(sk.subTreeReady, sta)
+		delete(sk.subTreeChecked, sta)
+	}
+}
+
+// Returns whether all signature sequence numbers of the given subtree have
+// been retired.
+//
+// NOTE Assumes a lock on sk.mux.
+func (sk *PrivateKey) isRetired(sta SubTreeAddress) bool {
+	return sta.Tree < uint64(sk.leastSeqNoInUse)>>
+		((sta.Layer+1)*sk.ctx.treeHeight)
 }
-- 
2.43.0


From 3795c663c80b24dbc6e72356d987a4c8c98c8c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:21 +0000
Subject: [PATCH 12/32] fix: drop retired subtrees from the cache when loading
 a key

---
 core.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core.go b/core.go
index 23d8b9b..596baab 100644
--- a/core.go
+++ b/core.go
@@ -561,6 +561,13 @@ func (ctx *Context) newPrivateKey(pad scratchPad, pubSeed, skSeed, skPrf []byte,
 		return nil, err
 	}
 	for _, sta := range stas {
+		if sta.Layer >= ctx.p.D || ret.isRetired(sta) {
+			// Left behind, for instance, when signatures were lost.
+			if err := ctr.DropSubTree(sta); err != nil {
+				log.Logf("Failed to drop subtree %v: %v", sta, err)
+			}
+			continue
+		}
 		ret.subTreeReady[sta] = true
 		ret.subTreeChecked[sta] = false
 	}
-- 
2.43.0


From 17dd5f2dfb43f13ada618c0fdd5722de4839bacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:15 +0000
Subject: [PATCH 13/32] fix: keep the record of borrowed signatures when
 borrowing fewer

---
 api.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/api.go b/api.go
index b225787..8d4fe4a 100644
--- a/api.go
+++ b/api.go
@@ -514,12 +514,14 @@ func (sk *PrivateKey) borrowExactly(amount uint32) Error {
 	}
 
 	if sk.borrowed > amount {
-		err := sk.ctr.SetSeqNo(sk.seqNo + SignatureSeqNo(amount))
-		if err != nil {
+		// Return all of them and borrow the right amount anew, so that
+		// the container keeps track of how many we might lose.
+		if err := sk.returnBorrowed(); err != nil {
 			return err
 		}
-		sk.borrowed = amount
-		return nil
+		if amount == 0 {
+			return nil
+		}
 	}
 
 	// sk.borrowed < amount
@@ -531,6 +533,17 @@ func (sk *PrivateKey) borrowExactly(amount uint32) Error {
 	return nil
 }
 
+// Return the borrowed signature sequence numbers to the container.
+//
+// If this fails, the container might or might not have stored the change. Thus
+// in either case we have to borrow again before using a sequence number.
+//
+// NOTE Assumes a lock on sk.mux.
+func (sk *PrivateKey) returnBorrowed() Error {
+	sk.borrowed = 0
+	return sk.ctr.SetSeqNo(sk.seqNo)
+}
+
 // Returns the number of signature sequence numbers borrowed from the container.
 // See BorrowExactly() or PrivateKeyContainer.BorrowSeqNos()
 func (sk *PrivateKey) BorrowedSeqNos() uint32 {
@@ -633,9 +646,7 @@ func (sk *PrivateKey) Close() Error {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 	if sk.borrowed > 0 {
-		sk.borrowed = 0
-		err := sk.ctr.SetSeqNo(sk.seqNo)
-		if err != nil {
+		if err := sk.returnBorrowed(); err != nil {
 			sk.closed = false
 			return err
 		}
-- 
2.43.0


From 9c79f8da99efb39bcb20fea61b3d92225185b62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:30 +0000
Subject: [PATCH 14/32] fix: refuse to borrow more signatures than there are
 left

---
 api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/api.go b/api.go
index 8d4fe4a..ffb1ae7 100644
--- a/api.go
+++ b/api.go
@@ -513,6 +513,10 @@ func (sk *PrivateKey) borrowExactly(amount uint32) Error {
 		return nil
 	}
 
+	if uint64(sk.seqNo)+uint64(amount) > sk.ctx.p.MaxSignatureSeqNo() {
+		return errorf("There are less than %d unused signatures left", amount)
+	}
+
 	if sk.borrowed > amount {
 		// Return all of them and borrow the right amount anew, so that
 		// the container keeps track of how many we might lose.
-- 
2.43.0


From a3a33cce916b3c688dc72beb6cd2dd6aa7b08de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:45 +0000
Subject: [PATCH 15/32] fix: leave no stale record of borrowed signatures
 behind

---
 api.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/api.go b/api.go
index ffb1ae7..169d4f7 100644
--- a/api.go
+++ b/api.go
@@ -517,6 +517,12 @@ func (sk *PrivateKey) borrowExactly(amount uint32) Error {
 		return errorf("There are less than %d unused signatures left", amount)
 	}
 
+	if sk.borrowed == 0 {
+		if err := sk.settle(); err != nil {
+			return err
+		}
+	}
+
 	if sk.borrowed > amount {
 		// Return all of them and borrow the right amount anew, so that
 		// the container keeps track of how many we might lose.
@@ -548,6 +554,22 @@ func (sk *PrivateKey) returnBorrowed() Error {
 	return sk.ctr.SetSeqNo(sk.seqNo)
 }
 
+// Ensures the container has stored our signature sequence number and that
+// there is no record of borrowed signatures left: not of those that we borrowed,
+// not of those we used up, nor of those lost before we loaded the key.
+//
+// NOTE Assumes a lock on sk.mux.
+func (sk *PrivateKey) settle() Error {
+	seqNo, lostSigs, err := sk.ctr.GetSeqNo()
+	if err != nil {
+		return err
+	}
+	if sk.borrowed == 0 && lostSigs == 0 && seqNo == sk.seqNo {
+		return nil
+	}
+	return sk.returnBorrowed()
+}
+
 // Returns the number of signature sequence numbers borrowed from the container.
 // See BorrowExactly() or PrivateKeyContainer.BorrowSeqNos()
 func (sk *PrivateKey) BorrowedSeqNos() uint32 {
@@ -649,11 +671,9 @@ func (sk *PrivateKey) Close() Error {
 
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
-	if sk.borrowed > 0 {
-		if err := sk.returnBorrowed(); err != nil {
-			sk.closed = false
-			return err
-		}
+	if err := sk.settle(); err != nil {
+		sk.closed = false
+		return err
 	}
 	return sk.ctr.Close()
 }
-- 
2.43.0


From 96443171f68f069281bd43cab83a5d7e6909e23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:59 +0000
Subject: [PATCH 16/32] fix: forget borrowed signatures on DangerousSetSeqNo

---
 api.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api.go b/api.go
index 169d4f7..81cb779 100644
--- a/api.go
+++ b/api.go
@@ -901,6 +901,9 @@ func (sk *PrivateKey) DangerousSetSeqNo(seqNo SignatureSeqNo) {
 	defer sk.mux.Unlock()
 	sk.seqNo = seqNo
 
+	// The sequence numbers we borrowed are not the ones that we will use now.
+	sk.borrowed = 0
+
 	// We might forget to drop some cached subtrees, but that is probably
 	// the least of our worries now.
 	emptyHeap := uint32Heap([]uint32{})
-- 
2.43.0


From 6afd844c3336d1cfd8480979a9bf79fd6415db76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:34 +0000
Subject: [PATCH 17/32] fix: do not overflow the number of borrowed signatures

---
 container.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/container.go b/container.go
index 97116ad..1358b06 100644
--- a/container.go
+++ b/container.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"sync"
@@ -649,12 +650,16 @@ func (ctr *fsContainer) BorrowSeqNos(amount uint32) (SignatureSeqNo, Error) {
 		return 0, errorf("Container is not initialized")
 	}
 
+	oldBorrowed := ctr.borrowed
 	ctr.borrowed += amount
+	if ctr.borrowed < oldBorrowed { // overflow
+		ctr.borrowed = math.MaxUint32
+	}
 	ctr.seqNo += SignatureSeqNo(amount)
 
 	if err := ctr.writeKeyFile(); err != nil {
 		// rollback
-		ctr.borrowed -= amount
+		ctr.borrowed = oldBorrowed
 		ctr.seqNo -= SignatureSeqNo(amount)
 		return 0, err
 	}
-- 
2.43.0


From 405d0f13cbf174e4b9bd3a07941d6e211d3c627f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:50 +0000
Subject: [PATCH 18/32] fix: retire sequence numbers larger than 2^32 properly

---
 api.go  |  4 ++--
 core.go |  6 +++---
 misc.go | 19 +++++++++++++++++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/api.go b/api.go
index 81cb779..d68c3db 100644
--- a/api.go
+++ b/api.go
@@ -76,7 +76,7 @@ type PrivateKey struct {
 
 	// Heap of retired seqNo's larger than lesatSeqNoInUse.
 	// See PrivateKey.retireSeqNo().
-	retiredSeqNos *uint32Heap
+	retiredSeqNos *seqNoHeap
 
 	mux  sync.Mutex
 	cond *sync.Cond     // signalled when a subtree is generated
@@ -906,7 +906,7 @@ func (sk *PrivateKey) DangerousSetSeqNo(seqNo SignatureSeqNo) {
 
 	// We might forget to drop some cached subtrees, but that is probably
 	// the least of our worries now.
-	emptyHeap := uint32Heap([]uint32{})
+	emptyHeap := seqNoHeap([]SignatureSeqNo{})
 	sk.retiredSeqNos = &emptyHeap
 	heap.Init(sk.retiredSeqNos)
 	sk.leastSeqNoInUse = seqNo
diff --git a/core.go b/core.go
index 596baab..64ecb78 100644
--- a/core.go
+++ b/core.go
@@ -550,7 +550,7 @@ func (ctx *Context) newPrivateKey(pad scratchPad, pubSeed, skSeed, skPrf []byte,
 	ret.cond = sync.NewCond(&ret.mux)
 	ret.subTreeReady = make(map[SubTreeAddress]bool)
 	ret.subTreeChecked = make(map[SubTreeAddress]bool)
-	emptyHeap := uint32Heap([]uint32{})
+	emptyHeap := seqNoHeap([]SignatureSeqNo{})
 	ret.retiredSeqNos = &emptyHeap
 	heap.Init(ret.retiredSeqNos)
 	ret.leastSeqNoInUse = seqNo
@@ -590,7 +590,7 @@ func (sk *PrivateKey) retireSeqNo(seqNo SignatureSeqNo) {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 	if sk.leastSeqNoInUse != seqNo {
-		heap.Push(sk.retiredSeqNos, uint32(seqNo))
+		heap.Push(sk.retiredSeqNos, seqNo)
 		return
 	}
 
@@ -598,7 +598,7 @@ func (sk *PrivateKey) retireSeqNo(seqNo SignatureSeqNo) {
 	// the leastSeqNoInUse counter by using seqNos in retiredSeqNos.
 	sk.incLeastSeqNoInUse()
 	for sk.retiredSeqNos.Len() != 0 &&
-		sk.retiredSeqNos.Min() == uint32(sk.leastSeqNoInUse) {
+		sk.retiredSeqNos.Min() == sk.leastSeqNoInUse {
 		heap.Pop(sk.retiredSeqNos)
 		sk.incLeastSeqNoInUse()
 	}
diff --git a/misc.go b/misc.go
index dd4988c..6a98b55 100644
--- a/misc.go
+++ b/misc.go
@@ -112,3 +112,22 @@ func (h *uint32Heap) Pop() interface{} {
 	*h = old[0 : n-1]
 	return x
 }
+
+// Priority queue of SignatureSeqNos
+type seqNoHeap []SignatureSeqNo
+
+func (h seqNoHeap) Min() SignatureSeqNo { return h[0] }
+func (h seqNoHeap) Len() int            { return len(h) }
+func (h seqNoHeap) Less(i, j int) bool  { return h[i] < h[j] }
+func (h seqNoHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
+func (h *seqNoHeap) Push(x interface{}) {
+	*h = append(*h, x.(SignatureSeqNo))
+}
+
+func (h *seqNoHeap) Pop() interface{} {
+	old := *h
+	n := len(old)
+	x := old[n-1]
+	*h = old[0 : n-1]
+	return x
+}
-- 
2.43.0


From 9ccd4afb3a9ebb80b9053e49643c28a0c7abfda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:26 +0000
Subject: [PATCH 19/32] fix: lock in the accessors of PrivateKey and Context

---
 api.go    |  8 ++++++++
 params.go | 21 +++++++++++----------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/api.go b/api.go
index d68c3db..9675d29 100644
--- a/api.go
+++ b/api.go
@@ -42,6 +42,8 @@ type Context struct {
 	mt   bool    // true for XMSSMT; false for XMSS
 	oid  uint32  // OID of this configuration, if it has any
 	name *string // name of algorithm
+
+	nameOnce sync.Once // to look up oid and name: ensureNameAndOidAreSet()
 }
 
 // Sequence number of signatures.
@@ -573,6 +575,8 @@ func (sk *PrivateKey) settle() Error {
 // Returns the number of signature sequence numbers borrowed from the container.
 // See BorrowExactly() or PrivateKeyContainer.BorrowSeqNos()
 func (sk *PrivateKey) BorrowedSeqNos() uint32 {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	return sk.borrowed
 }
 
@@ -889,6 +893,8 @@ func (sk *PrivateKey) UnretiredSeqNos() uint32 {
 
 // Returns the number of subtrees that are cached
 func (sk *PrivateKey) CachedSubTrees() int {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	return len(sk.subTreeReady)
 }
 
@@ -914,6 +920,8 @@ func (sk *PrivateKey) DangerousSetSeqNo(seqNo SignatureSeqNo) {
 
 // Returns the signature sequence used next.
 func (sk *PrivateKey) SeqNo() SignatureSeqNo {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	return sk.seqNo
 }
 
diff --git a/params.go b/params.go
index f3e9ea5..ec4d9b0 100644
--- a/params.go
+++ b/params.go
@@ -547,16 +547,17 @@ func (params *Params) LookupNameAndOid() (string, uint32) {
 // Looks up the name and oid of this set of parameters and returns whether
 // any were found.
 func (ctx *Context) ensureNameAndOidAreSet() bool {
-	if ctx.name != nil {
-		return true
-	}
-	var name2 string
-	name2, ctx.oid = ctx.p.LookupNameAndOid()
-	if name2 != "" {
-		ctx.name = &name2
-		return true
-	}
-	return false
+	ctx.nameOnce.Do(func() {
+		if ctx.name != nil {
+			return
+		}
+		name, oid := ctx.p.LookupNameAndOid()
+		if name != "" {
+			ctx.name = &name
+			ctx.oid = oid
+		}
+	})
+	return ctx.name != nil
 }
 
 // Returns the name of the XMSSMT instance and an empty string if it has
-- 
2.43.0


From 08792991479bb9b75d173029987a0c02defa6f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:14 +0000
Subject: [PATCH 20/32] fix: do not use the fourway hashes with the NIST PRFs

---
 api.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index 9675d29..4bd60c9 100644
--- a/api.go
+++ b/api.go
@@ -775,7 +775,9 @@ func NewContext(params Params) (ctx *Context, err Error) {
 		ctx.prefixLen = 4
 	}
 
-	if ctx.p.Func == SHAKE && (ctx.p.N == 32 || ctx.p.N == 16) {
+	// The fourway hashes assume the prefix is N bytes long.
+	if ctx.p.Func == SHAKE && ctx.p.Prf == RFC &&
+		(ctx.p.N == 32 || ctx.p.N == 16) {
 		ctx.x4Available = f1600x4.Available
 	}
 
-- 
2.43.0


From 0ab4cb95350d22f7449a0f841369bfc51d57c6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:28 +0000
Subject: [PATCH 21/32] fix: reject malformed signatures, public keys and
 parameters

---
 api.go       | 31 +++++++++++++++++++++++++++++++
 container.go |  4 ++++
 2 files changed, 35 insertions(+)

diff --git a/api.go b/api.go
index 4bd60c9..f390855 100644
--- a/api.go
+++ b/api.go
@@ -207,6 +207,11 @@ func (pk *PublicKey) Verify(sig *Signature, msg []byte) (bool, Error) {
 // Reads a message from the io.Reader and verifies whether the provided
 // signature is valid for this public key and message.
 func (pk *PublicKey) VerifyFrom(sig *Signature, msg io.Reader) (bool, Error) {
+	if sig.ctx.p != pk.ctx.p {
+		return false, errorf("Signature is for %s whereas public key is for %s",
+			sig.ctx.p, pk.ctx.p)
+	}
+
 	pad := pk.ctx.newScratchPad()
 	curHash := make([]byte, sig.ctx.p.N)
 
@@ -283,6 +288,9 @@ func (sig *Signature) MarshalBinary() ([]byte, error) {
 // Initializes the Signature as stored by MarshalBinary.
 func (sig *Signature) UnmarshalBinary(buf []byte) error {
 	var params Params
+	if len(buf) < 4 {
+		return errorf("Too short: %d < 4 bytes", len(buf))
+	}
 	err := params.UnmarshalBinary(buf[:4])
 	if err != nil {
 		return err
@@ -291,6 +299,10 @@ func (sig *Signature) UnmarshalBinary(buf []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(buf) != int(4+sig.ctx.sigBytes) {
+		return errorf("Signature should be %d bytes long (instead of %d)",
+			4+sig.ctx.sigBytes, len(buf))
+	}
 	sig.seqNo = SignatureSeqNo(decodeUint64(buf[4 : 4+sig.ctx.indexBytes]))
 	sig.drv = make([]byte, params.N)
 	sig.sigs = make([]subTreeSig, params.D)
@@ -380,6 +392,9 @@ func (pk *PublicKey) MarshalBinary() ([]byte, error) {
 // Initializes the PublicKey as was stored by MarshalBinary.
 func (pk *PublicKey) UnmarshalBinary(buf []byte) error {
 	var params Params
+	if len(buf) < 4 {
+		return errorf("Too short: %d < 4 bytes", len(buf))
+	}
 	err := params.UnmarshalBinary(buf[:4])
 	if err != nil {
 		return err
@@ -388,6 +403,10 @@ func (pk *PublicKey) UnmarshalBinary(buf []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(buf) != int(4+pk.ctx.pkBytes) {
+		return errorf("Public key should be %d bytes long (instead of %d)",
+			4+pk.ctx.pkBytes, len(buf))
+	}
 	pk.root = make([]byte, params.N)
 	pk.pubSeed = make([]byte, params.N)
 	copy(pk.root, buf[4:4+params.N])
@@ -740,6 +759,18 @@ func NewContext(params Params) (ctx *Context, err Error) {
 		return nil, errorf("Only N=16,24,32,64 are supported")
 	}
 
+	if params.Func > SHAKE256 {
+		return nil, errorf("Unknown hash function")
+	}
+
+	if params.Prf != RFC && params.Prf != NIST {
+		return nil, errorf("Unknown Prf")
+	}
+
+	if params.FullHeight == 0 || params.FullHeight > 63 {
+		return nil, errorf("FullHeight should be between 1 and 63")
+	}
+
 	if params.D == 0 {
 		return nil, errorf("D can't be zero")
 	}
diff --git a/container.go b/container.go
index 1358b06..ea90306 100644
--- a/container.go
+++ b/container.go
@@ -230,6 +230,10 @@ func (ctr *fsContainer) open() Error {
 		return errorf("Keyfile has invalid magic")
 	}
 
+	if _, err := NewContext(keyHeader.Params); err != nil {
+		return wrapErrorf(err, "Keyfile has invalid parameters")
+	}
+
 	ctr.params = keyHeader.Params
 	ctr.privateKey = make([]byte, ctr.params.PrivateKeySize())
 	ctr.seqNo = keyHeader.SeqNo
-- 
2.43.0


From 14b11278c23a51783abd1d0ee198cd873c03324b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:24 +0000
Subject: [PATCH 22/32] fix: recover from failures to allocate a subtree in the
 cache

---
 container.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/container.go b/container.go
index ea90306..3e91b68 100644
--- a/container.go
+++ b/container.go
@@ -336,6 +336,9 @@ func (ctr *fsContainer) openCache() Error {
 
 		if treeHeader.Allocated == 0 {
 			heap.Push(ctr.cacheFreeIdx, idx)
+		} else if _, ok := ctr.cacheIdxLut[treeHeader.Address]; ok {
+			// Might happen if a change to a header didn't make it to disk.
+			heap.Push(ctr.cacheFreeIdx, idx)
 		} else {
 			ctr.cacheIdxLut[treeHeader.Address] = idx
 		}
@@ -429,6 +432,7 @@ func (ctr *fsContainer) ResetCache() Error {
 	}
 
 	if err = ctr.writeCacheHeader(); err != nil {
+		ctr.closeCache()
 		return err
 	}
 	ctr.cacheInitialized = true
@@ -451,7 +455,6 @@ func (ctr *fsContainer) writeCacheHeader() Error {
 	copy(cacheHeader.Magic[:], magic)
 	err = binary.Write(ctr.cacheFile, binary.BigEndian, &cacheHeader)
 	if err != nil {
-		ctr.cacheFile.Close()
 		return wrapErrorf(err, "failed to write to cache file")
 	}
 	return nil
@@ -518,21 +521,22 @@ func (ctr *fsContainer) GetSubTree(address SubTreeAddress) (
 		idx = heap.Pop(ctr.cacheFreeIdx).(uint32)
 	} else {
 		idx = ctr.allocatedSubTrees
-		ctr.allocatedSubTrees += 1
-		err2 = ctr.cacheFile.Truncate(int64(
-			ctr.subTreeOffset(ctr.allocatedSubTrees)))
+		err2 = ctr.cacheFile.Truncate(int64(ctr.subTreeOffset(idx + 1)))
 		if err2 != nil {
 			return nil, false, wrapErrorf(err2,
 				"Failed to allocate space for subtree")
 		}
+		ctr.allocatedSubTrees += 1
 		err = ctr.writeCacheHeader()
 		if err != nil {
+			ctr.allocatedSubTrees -= 1
 			return nil, false, err
 		}
 	}
 
 	buf, err2 := ctr.mmapSubTree(idx)
 	if err2 != nil {
+		heap.Push(ctr.cacheFreeIdx, idx)
 		return nil, false, wrapErrorf(err2, "Failed to mmap subtree from cache")
 	}
 
@@ -544,8 +548,10 @@ func (ctr *fsContainer) GetSubTree(address SubTreeAddress) (
 	bufWriter := byteswriter.NewWriter(buf.buf)
 	err2 = binary.Write(bufWriter, binary.BigEndian, &header)
 	if err2 != nil {
-		err = wrapErrorf(err2, "Failed to write subtree header in cache")
-		return
+		buf.mmap.Unmap()
+		heap.Push(ctr.cacheFreeIdx, idx)
+		return nil, false, wrapErrorf(err2,
+			"Failed to write subtree header in cache")
 	}
 
 	ctr.cacheBufLut[address] = buf
-- 
2.43.0


From 1889bf2ef4d7dc269d6a5ccf37c0f5de48e7348e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:42 +0000
Subject: [PATCH 23/32] fix: consider a container uninitialized when Reset
 fails

---
 container.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/container.go b/container.go
index 3e91b68..0fa8568 100644
--- a/container.go
+++ b/container.go
@@ -632,6 +632,7 @@ func (ctr *fsContainer) Reset(privateKey []byte, params Params) Error {
 	// Even if closing the cache fails, we will try to write the key file.
 	closeCacheErr := ctr.closeCache()
 
+	ctr.initialized = false // until we succeed
 	ctr.params = params
 	ctr.privateKey = privateKey
 	ctr.seqNo = 0
-- 
2.43.0


From 7afb40738ef243da0c2c03d2539cd29baf29ad62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:51 +0000
Subject: [PATCH 24/32] fix: store the sequence number on Close if an earlier
 attempt failed

---
 api.go  | 32 ++++++++++++++++++++++++--------
 core.go |  2 +-
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/api.go b/api.go
index f390855..be916b3 100644
--- a/api.go
+++ b/api.go
@@ -72,6 +72,10 @@ type PrivateKey struct {
 	// See PrivateKeyContainer.Borrow()
 	borrowed uint32
 
+	// True if the container failed to store the signature sequence number.
+	// Then we do not know which sequence number it did store.
+	seqNoUncertain bool
+
 	// The least signature sequence number that might still be in use
 	// by a Sign() operation.
 	leastSeqNoInUse SignatureSeqNo
@@ -557,6 +561,7 @@ func (sk *PrivateKey) borrowExactly(amount uint32) Error {
 
 	// sk.borrowed < amount
 	_, err := sk.ctr.BorrowSeqNos(amount - sk.borrowed)
+	sk.seqNoUncertain = err != nil
 	if err != nil {
 		return err
 	}
@@ -572,7 +577,16 @@ func (sk *PrivateKey) borrowExactly(amount uint32) Error {
 // NOTE Assumes a lock on sk.mux.
 func (sk *PrivateKey) returnBorrowed() Error {
 	sk.borrowed = 0
-	return sk.ctr.SetSeqNo(sk.seqNo)
+	return sk.setSeqNo(sk.seqNo)
+}
+
+// Set the signature sequence number in the container.
+//
+// NOTE Assumes a lock on sk.mux.
+func (sk *PrivateKey) setSeqNo(seqNo SignatureSeqNo) Error {
+	err := sk.ctr.SetSeqNo(seqNo)
+	sk.seqNoUncertain = err != nil
+	return err
 }
 
 // Ensures the container has stored our signature sequence number and that
@@ -585,7 +599,8 @@ func (sk *PrivateKey) settle() Error {
 	if err != nil {
 		return err
 	}
-	if sk.borrowed == 0 && lostSigs == 0 && seqNo == sk.seqNo {
+	if sk.borrowed == 0 && lostSigs == 0 && seqNo == sk.seqNo &&
+		!sk.seqNoUncertain {
 		return nil
 	}
 	return sk.returnBorrowed()
@@ -671,9 +686,8 @@ func (sk *PrivateKey) SignFrom(msg io.Reader) (*Signature, Error) {
 
 // Close the underlying container
 //
-// Waits for running Sign() operations to finish.  If Close() failed because
-// the signature sequence number could not be stored, then the PrivateKey is
-// still open and Close() can be called again.
+// Waits for running Sign() operations to finish.  The container is closed
+// even if an error is returned.
 func (sk *PrivateKey) Close() Error {
 	sk.closeMux.Lock()
 	defer sk.closeMux.Unlock()
@@ -694,11 +708,13 @@ func (sk *PrivateKey) Close() Error {
 
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
-	if err := sk.settle(); err != nil {
-		sk.closed = false
+	err := sk.settle()
+	// Even if that failed, we must not keep the container open (and locked).
+	err2 := sk.ctr.Close()
+	if err != nil {
 		return err
 	}
-	return sk.ctr.Close()
+	return err2
 }
 
 // Return new context for the given XMSS[MT] oid (and nil if it's unknown).
diff --git a/core.go b/core.go
index 64ecb78..01794f3 100644
--- a/core.go
+++ b/core.go
@@ -422,7 +422,7 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 	} else {
 		// If we didn't borrow sequence numbers, then we have to increment
 		// the sequence number in the container before we continue.
-		err := sk.ctr.SetSeqNo(sk.seqNo + 1)
+		err := sk.setSeqNo(sk.seqNo + 1)
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 5973d17089de2299282c2ae76d68cdc563987fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:03 +0000
Subject: [PATCH 25/32] fix: a key could be opened twice by way of a symbolic
 link

The container of a key is locked by its path, and so the same key could be
opened twice if it is reached by two paths, and signatures sequence numbers
were used twice.  Furthermore, when the path of a key was itself a
symbolic link, the first signature replaced the link by a copy of the key.
---
 container.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/container.go b/container.go
index 0fa8568..c99f920 100644
--- a/container.go
+++ b/container.go
@@ -157,12 +157,33 @@ func releaseFSContainer(path string) {
 	delete(openFSContainers, path)
 }
 
+// Returns the absolute path path stands for, without symbolic links.
+//
+// A container that is reached by different paths should still have only one
+// lockfile, and its keyfile is replaced, not written to.
+func resolvePath(path string) (string, error) {
+	path, err := filepath.Abs(path)
+	if err != nil {
+		return "", err
+	}
+	resolved, err := filepath.EvalSymlinks(path)
+	if !os.IsNotExist(err) {
+		return resolved, err
+	}
+	// There is no container yet.
+	dir, err := filepath.EvalSymlinks(filepath.Dir(path))
+	if os.IsNotExist(err) {
+		return path, nil
+	}
+	return filepath.Join(dir, filepath.Base(path)), err
+}
+
 // Returns a PrivateKeyContainer backed by the filesystem.
 func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 	var ctr fsContainer
 	var err error
 
-	ctr.path, err = filepath.Abs(path)
+	ctr.path, err = resolvePath(path)
 	if err != nil {
 		return nil, wrapErrorf(err,
 			"Could not turn %s into an absolute path", path)
-- 
2.43.0


From 9661b9be3cf76f61aeeacb4f11c51c4d31b82dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 26/32] fix: a second copy of a dropped subtree came back after
 reopening the cache

---
 container.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/container.go b/container.go
index c99f920..9ff6395 100644
--- a/container.go
+++ b/container.go
@@ -359,6 +359,13 @@ func (ctr *fsContainer) openCache() Error {
 			heap.Push(ctr.cacheFreeIdx, idx)
 		} else if _, ok := ctr.cacheIdxLut[treeHeader.Address]; ok {
 			// Might happen if a change to a header didn't make it to disk.
+			// Mark it as free on disk as well: otherwise it returns when
+			// the other one is dropped.
+			_, err = ctr.cacheFile.WriteAt([]byte{0},
+				int64(ctr.subTreeOffset(idx)))
+			if err != nil {
+				return wrapErrorf(err, "Failed to free subtree in cache")
+			}
 			heap.Push(ctr.cacheFreeIdx, idx)
 		} else {
 			ctr.cacheIdxLut[treeHeader.Address] = idx
-- 
2.43.0


From 9e6c909d12b576764998daf67fd856a2225a3e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 27/32] fix: the public key changed when the container cleared
 its private key on Close()

---
 api.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api.go b/api.go
index be916b3..cd0c1db 100644
--- a/api.go
+++ b/api.go
@@ -893,6 +893,8 @@ func LoadPrivateKeyFrom(ctr PrivateKeyContainer) (
 	if err != nil {
 		return nil, nil, 0, err
 	}
+	// The buffer is the container's, which might clear it on Close().
+	skBuf = append([]byte(nil), skBuf...)
 	var seqNo SignatureSeqNo
 	seqNo, lostSigs, err = ctr.GetSeqNo()
 
-- 
2.43.0


From 8bec29aca335af1c0fa3ab252f510b769626f29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 28/32] fix: precomputation took a damaged or half-made subtree
 in the cache for a usable one

---
 api.go  | 10 ++--------
 core.go | 10 +++++++++-
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/api.go b/api.go
index cd0c1db..6572013 100644
--- a/api.go
+++ b/api.go
@@ -990,13 +990,7 @@ func (sk *PrivateKey) EnableSubTreePrecomputation() {
 	sk.mux.Lock()
 	sk.precomputeNextSubTree = true
 
-	// ensure the next subtree is computed
-	nextSta := SubTreeAddress{
-		Layer: 0,
-		Tree:  (uint64(sk.seqNo) >> sk.ctx.treeHeight) + 1,
-	}
-	if _, ok := sk.subTreeReady[nextSta]; !ok {
-		sk.precomputeSubTree(nextSta.Tree)
-	}
+	// ensure the next subtree is computed, or checked if it's in the cache
+	sk.precomputeSubTree((uint64(sk.seqNo) >> sk.ctx.treeHeight) + 1)
 	sk.mux.Unlock()
 }
diff --git a/core.go b/core.go
index 01794f3..a2d4ee1 100644
--- a/core.go
+++ b/core.go
@@ -462,7 +462,15 @@ func (sk *PrivateKey) precomputeSubTree(tree uint64) {
 		}
 
 		log.Logf("Precomputing subtree %v", sta)
-		sk.getSubTree(sk.ctx.newScratchPad(), sta)
+		// If it's in the cache, then its ancestors might not be, or they might
+		// be damaged.
+		pad := sk.ctx.newScratchPad()
+		for layer := uint32(0); layer < sk.ctx.p.D; layer++ {
+			sk.getSubTree(pad, SubTreeAddress{
+				Layer: layer,
+				Tree:  sta.Tree >> (sk.ctx.treeHeight * layer),
+			})
+		}
 		log.Logf("Finished precomputing subtree %v", sta)
 
 		// The subtree (or one of its ancestors) might also have been used up
-- 
2.43.0


From 36ad0c1da3dcd6f8a55d5555fbb3142f0bdf353b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:11 +0000
Subject: [PATCH 29/32] fix: DangerousSetSeqNo beyond the end made out-of-range
 signatures and lost the key

A sequence number beyond the last signature was taken as it is: Sign() then
returned signatures with an index out of range, and once such a number was
stored, the key could not be loaded anymore.  Clamp it.
---
 api.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/api.go b/api.go
index 6572013..8264299 100644
--- a/api.go
+++ b/api.go
@@ -956,6 +956,11 @@ func (sk *PrivateKey) CachedSubTrees() int {
 func (sk *PrivateKey) DangerousSetSeqNo(seqNo SignatureSeqNo) {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
+
+	// There is nothing beyond the last signature: the key is used up.
+	if max := SignatureSeqNo(sk.ctx.p.MaxSignatureSeqNo()); seqNo > max {
+		seqNo = max
+	}
 	sk.seqNo = seqNo
 
 	// The sequence numbers we borrowed are not the ones that we will use now.
-- 
2.43.0


From 9ae6884a9d72d9fb59687eddb86765df14c5addd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:11 +0000
Subject: [PATCH 30/32] fix: DangerousSetSeqNo lost track of the sequence
 numbers still in use

When signatures were being made while DangerousSetSeqNo() was called, the
numbers they used were retired after leastSeqNoInUse was moved over them:
UnretiredSeqNos() was off for good, and subtrees could be dropped from the
cache while still in use.  Wait for the running Sign()s first.
---
 api.go  | 6 ++++++
 core.go | 1 +
 2 files changed, 7 insertions(+)

diff --git a/api.go b/api.go
index 8264299..a797d2f 100644
--- a/api.go
+++ b/api.go
@@ -957,6 +957,12 @@ func (sk *PrivateKey) DangerousSetSeqNo(seqNo SignatureSeqNo) {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 
+	// Wait for running Sign()s: we would lose track of the sequence numbers,
+	// and thus of the cached subtrees, they are still using.
+	for sk.leastSeqNoInUse != sk.seqNo {
+		sk.cond.Wait()
+	}
+
 	// There is nothing beyond the last signature: the key is used up.
 	if max := SignatureSeqNo(sk.ctx.p.MaxSignatureSeqNo()); seqNo > max {
 		seqNo = max
diff --git a/core.go b/core.go
index a2d4ee1..21ab82f 100644
--- a/core.go
+++ b/core.go
@@ -610,6 +610,7 @@ func (sk *PrivateKey) retireSeqNo(seqNo SignatureSeqNo) {
 		heap.Pop(sk.retiredSeqNos)
 		sk.incLeastSeqNoInUse()
 	}
+	sk.cond.Broadcast() // see DangerousSetSeqNo()
 }
 
 // Increments leastSeqNoInUse and drops cached subtrees which have become
-- 
2.43.0


From d4518e4098d9665d81693bc206685a3ef4848786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:56 +0000
Subject: [PATCH 31/32] fix: a subtree of old could reappear in the cache after
 a power loss and a crash

If the file is longer than the header says after a power loss, GetSubTree()
took over the space with what was in it: a crash right after made the
subtree that used to be there appear in the cache again.  Clear it first.
---
 container.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/container.go b/container.go
index 9ff6395..e1d4084 100644
--- a/container.go
+++ b/container.go
@@ -554,6 +554,13 @@ func (ctr *fsContainer) GetSubTree(address SubTreeAddress) (
 			return nil, false, wrapErrorf(err2,
 				"Failed to allocate space for subtree")
 		}
+		// After a power loss the file might be longer than the header says: do
+		// not let a subtree of old reappear if we do not get further than this.
+		_, err2 = ctr.cacheFile.WriteAt([]byte{0}, int64(ctr.subTreeOffset(idx)))
+		if err2 != nil {
+			return nil, false, wrapErrorf(err2,
+				"Failed to clear space for subtree")
+		}
 		ctr.allocatedSubTrees += 1
 		err = ctr.writeCacheHeader()
 		if err != nil {
-- 
2.43.0


From b89b0de42f93680cc2056be4a4cf1871be1175db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:10 +0000
Subject: [PATCH 32/32] fix: a damaged alignment in the cache made signing fail

A bit flip in the alignment in the header of the cache could make it so large
that the subtrees did not fit in what the filesystem allows for a file, and
Sign() failed.  Refuse the cache, so that it is reset.
---
 container.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/container.go b/container.go
index e1d4084..c22606d 100644
--- a/container.go
+++ b/container.go
@@ -321,7 +321,9 @@ func (ctr *fsContainer) openCache() Error {
 		if ctr.subTreeAlignment == 0 {
 			ctr.subTreeAlignment = 4096
 		}
-		if ctr.subTreeAlignment%4096 != 0 {
+		// The largest page size around is 256KiB.  A damaged header might have
+		// us make the file too large for the filesystem.
+		if ctr.subTreeAlignment%4096 != 0 || ctr.subTreeAlignment > 1<<20 {
 			return errorf("Invalid subtree alignment in cache file: %d",
 				header.SubTreeAlignment)
 		}
-- 
2.43.0

