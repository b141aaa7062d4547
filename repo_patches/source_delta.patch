From 19f7027f3a38459a3e4ea3220838688a13f3889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 01/13] fix: bound DAG size lookup tables by their length

The shipped tables have 2045 entries but are declared to cover 2048 epochs,
so a size query for epochs 2045 to 2047 panicked.
---
 internal/dag/config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/dag/config.go b/internal/dag/config.go
index 3570a61..ec386b8 100644
--- a/internal/dag/config.go
+++ b/internal/dag/config.go
@@ -27,6 +27,11 @@ type LookupTable struct {
 }
 
 func NewLookupTable(table []uint64, maxEpoch uint64) *LookupTable {
+	// never index past the end of the table, sizes beyond it are calculated
+	if length := uint64(len(table)); maxEpoch > length {
+		maxEpoch = length
+	}
+
 	lookupTable := &LookupTable{
 		maxEpoch: maxEpoch,
 		table:    table,
-- 
2.43.0


From df53d922e64ff6756b5d1a065a0056b7d4768086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 02/13] fix: set the mix width of the Ethereum Classic preset

Without it the dataset size of an epoch beyond the lookup table divides by zero.
---
 ethash/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ethash/client.go b/ethash/client.go
index 4a64672..2ff63d8 100644
--- a/ethash/client.go
+++ b/ethash/client.go
@@ -65,6 +65,7 @@ func NewEthereumClassic() *Client {
 		CacheSizes:   dag.NewLookupTable(cacheSizes, 2048),
 		DatasetSizes: dag.NewLookupTable(datasetSizes, 2048),
 
+		MixBytes:        128,
 		DatasetParents:  256,
 		EpochLength:     60000,
 		SeedEpochLength: 30000,
-- 
2.43.0


From ec75ca94ad91f14b8b7e1ff94d8a9cf44227cbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 03/13] fix: refuse the all zero hash in HeavyHash

Its xoshiro state never changes, so the search for a full rank matrix never ended.
---
 heavyhash/client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/heavyhash/client.go b/heavyhash/client.go
index d9643b9..45d7613 100644
--- a/heavyhash/client.go
+++ b/heavyhash/client.go
@@ -1,6 +1,7 @@
 package heavyhash
 
 import (
+	"bytes"
 	"fmt"
 )
 
@@ -21,6 +22,12 @@ func (c *Client) Compute(hash []byte, timestamp int64, nonce uint64) ([]byte, er
 		return nil, fmt.Errorf("hash must be 32 bytes")
 	}
 
+	// the generator never leaves the all zero state, so no
+	// full rank matrix exists for it
+	if bytes.Equal(hash, make([]byte, 32)) {
+		return nil, fmt.Errorf("hash must not be zero")
+	}
+
 	digest := heavyHash(hash, timestamp, nonce)
 
 	return digest, nil
-- 
2.43.0


From d9e57467f899186e3acc02f27ff3a4f1c0138763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 04/13] fix: write the last partial row of a generated lookup
 table

The generator dropped up to four trailing epochs (2045 of the 2048 asked for).
---
 cmd/gen-lookup/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gen-lookup/main.go b/cmd/gen-lookup/main.go
index 39035a5..63d63ec 100644
--- a/cmd/gen-lookup/main.go
+++ b/cmd/gen-lookup/main.go
@@ -47,7 +47,7 @@ func genDatasetLookupTable(mixBytes, initBytes, growthBytes uint64, epochs int)
 }
 
 func formatLookupTable(lookupTable []uint64, rowSize int) string {
-	rows := len(lookupTable) / rowSize
+	rows := (len(lookupTable) + rowSize - 1) / rowSize
 
 	var formatted string
 	for i := 0; i < rows; i++ {
-- 
2.43.0


From 754c2408cdb9cb1af7de15b348c5dca3b04bfe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 05/13] fix: enforce ascending edges in Cuckoo proofs

The comparison was guarded by n < 0, so permuted copies of a proof were accepted.
---
 cuckoo/cuckoo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuckoo/cuckoo.go b/cuckoo/cuckoo.go
index d11846a..65fb54f 100644
--- a/cuckoo/cuckoo.go
+++ b/cuckoo/cuckoo.go
@@ -9,7 +9,7 @@ func (c *Client) cuckoo(siphashKeys [4]uint64, edges []uint64) (bool, error) {
 	for n := 0; n < c.proofSize; n++ {
 		if edges[n] > c.edgeMask {
 			return false, ErrPowTooBig
-		} else if n < 0 && edges[n] <= edges[n-1] {
+		} else if n > 0 && edges[n] <= edges[n-1] {
 			return false, ErrPowTooSmall
 		}
 
-- 
2.43.0


From c9f05dc3b24659e2cd262ef27f0cb111ac60b077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 06/13] fix: enforce ascending edges in Cuckaroo proofs

The comparison was guarded by n < 0, so permuted copies of a proof were accepted.
---
 cuckoo/cuckaroo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuckoo/cuckaroo.go b/cuckoo/cuckaroo.go
index 4970acf..43bfa9a 100644
--- a/cuckoo/cuckaroo.go
+++ b/cuckoo/cuckaroo.go
@@ -9,7 +9,7 @@ func (c *Client) cuckaroo(siphashKeys [4]uint64, edges []uint64) (bool, error) {
 	for n := 0; n < c.proofSize; n++ {
 		if edges[n] > c.edgeMask {
 			return false, ErrPowTooBig
-		} else if n < 0 && edges[n] <= edges[n-1] {
+		} else if n > 0 && edges[n] <= edges[n-1] {
 			return false, ErrPowTooSmall
 		}
 
-- 
2.43.0


From 439ac58bbe9ff38fb908ba001027b2300b56b239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:56 +0000
Subject: [PATCH 07/13] fix: expand Equihash chunks when input and output
 lengths coincide

A parameter set whose expanded length happens to equal the packed one
(60,3 or 90,5 for instance) was left unexpanded, so valid solutions were
refused. Only whole-byte chunks without padding need no expansion.
---
 equihash/equihash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/equihash/equihash.go b/equihash/equihash.go
index 656a1db..c14b32a 100644
--- a/equihash/equihash.go
+++ b/equihash/equihash.go
@@ -47,7 +47,7 @@ func expandArray(input []byte, bitLen, bytePad uint32) ([]byte, error) {
 	outputWidth := (bitLen+7)/8 + bytePad
 	outputLen := 8 * outputWidth * inputLen / bitLen
 
-	if outputLen == inputLen {
+	if bitLen%8 == 0 && bytePad == 0 {
 		return input, nil
 	}
 
-- 
2.43.0


From 3a73bd420c7e4da3659c9d011027b04c6839a141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 08/13] fix: reject cache dumps of the wrong size

A truncated or overlong dump with intact magic was mapped as it was, which
gave wrong digests, and a file shorter than the magic crashed.
---
 internal/dag/cache.go |  4 ++--
 internal/dag/mmap.go  | 16 +++++++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/internal/dag/cache.go b/internal/dag/cache.go
index 416e00c..0d785c0 100644
--- a/internal/dag/cache.go
+++ b/internal/dag/cache.go
@@ -67,12 +67,12 @@ func (c *cache) generate(cfg *DAG) {
 
 		// Try to load the file from disk and memory map it
 		var err error
-		c.cache, err = memoryMap(cachePath, cfg.CachesLockMmap)
+		c.cache, err = memoryMap(cachePath, size, cfg.CachesLockMmap)
 		needsCache := err != nil
 
 		needsL1 := cfg.L1Enabled
 		if cfg.L1Enabled {
-			c.l1, err = memoryMap(l1Path, cfg.CachesLockMmap)
+			c.l1, err = memoryMap(l1Path, cfg.L1CacheSize, cfg.CachesLockMmap)
 			needsL1 = err != nil
 		}
 
diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index c97b07f..f5d92ad 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -38,8 +38,9 @@ type dataFile struct {
 	data []uint32
 }
 
-// memoryMap tries to memory map a file of uint32s for read only access.
-func memoryMap(path string, lock bool) (dataFile, error) {
+// memoryMap tries to memory map a file of uint32s for read only access. The file
+// has to hold exactly size bytes of data after the magic.
+func memoryMap(path string, size uint64, lock bool) (dataFile, error) {
 	var df dataFile
 
 	file, err := os.OpenFile(path, os.O_RDONLY, 0644)
@@ -47,6 +48,15 @@ func memoryMap(path string, lock bool) (dataFile, error) {
 		return df, err
 	}
 
+	info, err := file.Stat()
+	if err != nil {
+		file.Close()
+		return df, err
+	} else if info.Size() != int64(len(dumpMagic))*4+int64(size) {
+		file.Close()
+		return df, errors.New("invalid dump size")
+	}
+
 	mem, buffer, err := memoryMapFile(file, false)
 	if err != nil {
 		file.Close()
@@ -160,5 +170,5 @@ func memoryMapAndGenerate(path string, size uint64, lock bool, generator func(bu
 		return df, err
 	}
 
-	return memoryMap(path, lock)
+	return memoryMap(path, size, lock)
 }
-- 
2.43.0


From b29cb2949b6da43b3cf355550eb7dc3f073ede6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 09/13] fix: remove the temporary cache file when publishing it
 fails

A failing unmap, close or rename left the temporary dump behind, once for
every attempt, and a failing unmap also leaked the descriptor.
---
 internal/dag/mmap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index f5d92ad..ef51fe2 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -159,14 +159,18 @@ func memoryMapAndGenerate(path string, size uint64, lock bool, generator func(bu
 	generator(data)
 
 	if err := mem.Unmap(); err != nil {
+		dump.Close()
+		os.Remove(temp)
 		return df, err
 	}
 
 	if err := dump.Close(); err != nil {
+		os.Remove(temp)
 		return df, err
 	}
 
 	if err := os.Rename(temp, path); err != nil {
+		os.Remove(temp)
 		return df, err
 	}
 
-- 
2.43.0


From 8abf4747869df9de14e928de156826e02ca00be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 10/13] fix: allocate the cache file before mapping it

The file was only truncated to its size, so filling its mapping on a full
disk killed the process with SIGBUS instead of falling back to memory.
---
 internal/dag/mmap.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index ef51fe2..7cda026 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -115,11 +115,23 @@ func memoryMapFile(file *os.File, write bool) (mmap.MMap, []uint32, error) {
 // even though it ostensibly is already expanded, but due to being sparse
 // does not actually occupy the full declared size on disk.
 func ensureSize(f *os.File, size int64) error {
-	// On systems which do not support fallocate, we merely truncate it.
-	// More robust alternatives  would be to
-	// - Use posix_fallocate, or
-	// - explicitly fill the file with zeroes.
-	return f.Truncate(size)
+	// Merely truncating would leave the file sparse, and filling a mapping of it
+	// on a full disk would then be fatal. Explicitly fill the file with zeroes,
+	// which works on every system.
+	zeroes := make([]byte, 1<<16)
+	for size > 0 {
+		if size < int64(len(zeroes)) {
+			zeroes = zeroes[:size]
+		}
+
+		n, err := f.Write(zeroes)
+		if err != nil {
+			return err
+		}
+		size -= int64(n)
+	}
+
+	return nil
 }
 
 // memoryMapAndGenerate tries to memory map a temporary file of uint32s for write
-- 
2.43.0


From 199d6b03325ffc1756b3942c89a8f6b1c6adae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 11/13] fix: never open another process's temporary cache file

---
 internal/dag/mmap.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index 7cda026..5634d87 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -134,6 +134,18 @@ func ensureSize(f *os.File, size int64) error {
 	return nil
 }
 
+// createTemp creates a temporary file next to the path. It never opens an existing
+// file, another process may be filling one of the same random name.
+func createTemp(path string) (*os.File, error) {
+	for try := 0; ; try++ {
+		temp := path + "." + strconv.Itoa(rand.Int())
+		file, err := os.OpenFile(temp, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
+		if !os.IsExist(err) || try == 10000 {
+			return file, err
+		}
+	}
+}
+
 // memoryMapAndGenerate tries to memory map a temporary file of uint32s for write
 // access, fill it with the data from a generator and then move it into the final
 // path requested.
@@ -146,11 +158,11 @@ func memoryMapAndGenerate(path string, size uint64, lock bool, generator func(bu
 	}
 
 	// Create a huge temporary empty file to fill with data
-	temp := path + "." + strconv.Itoa(rand.Int())
-	dump, err := os.Create(temp)
+	dump, err := createTemp(path)
 	if err != nil {
 		return df, err
 	}
+	temp := dump.Name()
 
 	if err = ensureSize(dump, int64(len(dumpMagic))*4+int64(size)); err != nil {
 		dump.Close()
-- 
2.43.0


From 51b96544e2871ac2631323c5162d92cc1a279a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:02 +0000
Subject: [PATCH 12/13] fix: hash the sum of the Autolykos elements as 32 bytes

A sum with leading zeros lost them, so that clients with a small k returned
a wrong hash (for Ergo's k of 32 such a sum is out of reach).
---
 autolykos2/autolykos2.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/autolykos2/autolykos2.go b/autolykos2/autolykos2.go
index 89d284e..56d0fa9 100644
--- a/autolykos2/autolykos2.go
+++ b/autolykos2/autolykos2.go
@@ -84,7 +84,8 @@ func compute(k, nBase uint32, msg []byte, nonce, height uint64) []byte {
 		f2.Add(f2, new(big.Int).SetBytes(elemHash))
 	}
 
-	ha := crypto.Blake2b256(f2.Bytes())
+	// the sum is hashed as 32 bytes, leading zeros included
+	ha := crypto.Blake2b256(f2.FillBytes(make([]byte, 32)))
 
 	return ha
 }
-- 
2.43.0


From 1083822ae3875a33ceafaffa8e53542698447d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:03 +0000
Subject: [PATCH 13/13] fix: keep the Autolykos table at its last size for
 every base size

Above the height of the last increase the size was always the one that Ergo's
base of 2^26 has grown to, whatever the base of the client.
---
 autolykos2/autolykos2.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/autolykos2/autolykos2.go b/autolykos2/autolykos2.go
index 56d0fa9..a4c5bc5 100644
--- a/autolykos2/autolykos2.go
+++ b/autolykos2/autolykos2.go
@@ -32,8 +32,9 @@ func generateM(size uint64) []byte {
 }
 
 func calcN(nBase uint32, height uint64) uint32 {
+	// the table does not grow any further
 	if height > nIncreasementHeightMax {
-		return 2143944600
+		height = nIncreasementHeightMax
 	}
 
 	var n uint32 = nBase
-- 
2.43.0

