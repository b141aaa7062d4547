#!/usr/bin/env python3
"""Writes properties.jsonl (source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Ethash/Etchash results equal the Ethash specification",
 "For every 32-byte header hash, block height and 64-bit nonce, an Ethash client (Ethereum, Ethereum Classic, or any custom DAG configuration) returns exactly the mix digest and final digest the Ethash specification (Etchash/ECIP-1099 epoch lengths for Classic) defines for that DAG. A share is therefore never wrongly accepted or rejected.",
 ["inputs","configurations"],"all hashes, heights, nonces; the two presets and any well-formed DAG configuration, including datasets above 4 GiB",
 "Tests check three known blocks per chain; the digest must be right for every input, dataset size and epoch.",
 ["ethash/ethash.go","ethash/client.go","internal/dag/generate.go","internal/crypto/keccak.go","internal/crypto/fnv.go"],
 [("hashimoto mixing loop","ethash/ethash.go hashimoto"),("dataset item derivation","internal/dag/generate.go generateDatasetItem")],["ethash.Client.Compute"])
p("C02","KawPow results equal the KawPow specification",
 "For every 32-byte header hash, height and nonce a KawPow client returns exactly the mix hash and digest that the Ravencoin KawPow specification defines (period length 3, RAVENCOINKAWPOW padding, 512 dataset parents in the preset).",
 ["inputs","configurations"],"all hashes, heights (any 64-bit period number), nonces; preset and custom DAG configurations",
 "Thirteen known vectors at low heights; every ProgPoW program (one per period) and data-dependent branch must be right.",
 ["kawpow/kawpow.go","kawpow/client.go","internal/progpow/algorithm.go","internal/crypto/keccak.go"],
 [("initialize/finalize keccak-f800 sponges","kawpow/kawpow.go"),("ProgPoW loop","internal/progpow/algorithm.go")],["kawpow.Client.Compute"])
p("C03","FiroPow results equal the FiroPow specification",
 "For every 32-byte header hash, height and nonce a FiroPow client returns exactly the mix hash and digest that the Firo FiroPow specification defines (period length 1, its own padding constants, 1.5 GiB initial dataset and 512 parents in the preset).",
 ["inputs","configurations"],"all hashes, heights, nonces; preset and custom DAG configurations",
 "Known vectors only; each height is a new random program, so tests see a vanishing fraction of programs.",
 ["firopow/firopow.go","firopow/client.go","internal/progpow/algorithm.go"],
 [("initialize/finalize keccak-f800 sponges","firopow/firopow.go"),("ProgPoW loop","internal/progpow/algorithm.go")],["firopow.Client.Compute"])
p("C04","The ProgPoW 0.9.4 core computes the specified program for any parameters",
 "For every seed, block number, dataset and L1 cache contents, and every valid ProgPoW parameter set (period, lanes, registers, rounds, cache accesses, math operations), the shared ProgPoW core returns the mix hash defined by the ProgPoW 0.9.4 specification.",
 ["inputs","configurations"],"all 64-bit seeds and heights, dataset sizes, dataset/L1 contents and parameter sets",
 "Tests fix one parameter set and a few seeds; random programs reach operator and operand combinations tests never produce.",
 ["internal/progpow/algorithm.go","internal/progpow/math.go","internal/progpow/mixrng.go","internal/progpow/kiss99.go"],
 [("random program derivation","internal/progpow/mixrng.go"),("random math and merge","internal/progpow/math.go")],["progpow.Hash"])
p("C05","Octopus results equal the Conflux Octopus specification",
 "For every 32-byte header hash, height and nonce an Octopus client returns exactly the digest that the Conflux Octopus specification defines, including hashes for which the quadratic-discriminant retry is needed and every residue of the nonce modulo the warp size.",
 ["inputs","configurations"],"all hashes, nonces and heights; preset and custom DAG configurations",
 "Three vectors; the discriminant retry has probability about 1e-6 on random hashes and is never executed by tests.",
 ["octopus/octopus.go","octopus/client.go"],[("polynomial multi-point evaluation","octopus/octopus.go octopus"),("coefficient derivation","octopus/octopus.go remap, computeC")],["octopus.Client.Compute"])
p("C06","Autolykos v2 results equal the Ergo specification at every height",
 "For every 32-byte message, height and nonce the Ergo Autolykos2 client returns exactly the hash the Ergo reference defines, with the table size N following the specified growth schedule (unchanged below height 614400, growing 5% every 51200 blocks, constant from height 4198400). A client of other parameters (1 to 32 elements k, an initial table of 2^7 to 2^27) computes the same scheme with those.",
 ["inputs"],"all messages, heights (each schedule step and its boundaries) and nonces",
 "Three vectors and nine schedule points; results must be right between and on every boundary.",
 ["autolykos2/autolykos2.go","autolykos2/client.go"],[("N schedule","autolykos2/autolykos2.go calcN"),("index generation and sum","autolykos2/autolykos2.go compute")],["autolykos2.Client.Compute"])
p("C07","Eaglesong equals the Nervos specification for inputs of every length",
 "For every byte string of any length (including empty, block-aligned and multi-block) the Nervos Eaglesong client returns exactly the 32-byte digest defined by the Eaglesong specification (RFC 0010). A client of other parameters (rounds up to 43, delimiter, output of several 32-byte blocks) computes the same sponge with those.",
 ["inputs"],"all byte strings of all lengths","One 14-byte vector; padding and multi-block absorption are never exercised.",
 ["eaglesong/eaglesong.go","eaglesong/client.go","eaglesong/eaglesong_constants.go"],[("sponge absorb/squeeze","eaglesong/eaglesong.go eaglesong"),("permutation","eaglesong/eaglesong.go permute")],["eaglesong.Client.Compute"])
p("C08","HeavyHash equals the Kaspa specification and always terminates",
 "For every 32-byte hash that defines a matrix, every signed timestamp and nonce, the Kaspa HeavyHash client returns exactly the digest the kHeavyHash specification defines, regenerating the matrix until it has full rank. It returns for every 32-byte hash: a hash from which no full-rank matrix can be generated (all zero) is answered with an error rather than an endless loop.",
 ["inputs"],"all hashes (including seeds whose first matrix is singular), timestamps (negative too) and nonces",
 "Three vectors; rank-deficient matrices and the degenerate seed are never seen.",
 ["heavyhash/heavyhash.go","heavyhash/matrix.go","heavyhash/client.go","internal/crypto/xoshiro256plusplus.go","internal/crypto/shakehash.go"],
 [("matrix generation until full rank","heavyhash/matrix.go newMatrix"),("matrix product and cSHAKE","heavyhash/heavyhash.go heavyHash")],["heavyhash.Client.Compute"])
p("C09","Equihash accepts exactly the valid solutions",
 "For Zcash-style Equihash with each supported (n, k, personalization), Verify accepts a header and solution if and only if the solution encodes 2^k distinct indices whose hashes collide on the required bits at every tree level, are correctly ordered at every level, and XOR to zero. No permuted, duplicated, truncated, padded or almost-colliding solution is accepted, and no valid one is refused.",
 ["inputs","configurations"],"all headers (any length) and solutions; presets BitcoinGold, ZClassic, ZCash, Aion and small custom (n, k)",
 "One valid vector for one custom (96,5) set and no negative test: nothing settles that each rejection rule works at each tree level, nor the presets.",
 ["equihash/equihash.go","equihash/client.go","internal/crypto/blake.go"],[("subtree validation","equihash/equihash.go validateSubtrees"),("minimal decoding","equihash/equihash.go indicesFromMinimal, expandArray"),("tree XOR to zero","equihash/equihash.go verify")],["equihash.Client.Verify"])
p("C10","ZelHash (twisted Equihash 125,4) accepts exactly the valid solutions",
 "For Flux/ZelHash, Verify accepts a header and 52-byte solution if and only if the indices are distinct, ordered, collide at every level and XOR to zero under the twisted BLAKE2b leaf hash (running sums over each aligned group of sixteen, masked tail bits). The same holds for other twisted parameter sets with 64-byte hash output.",
 ["inputs","configurations"],"all headers and solutions; the Flux preset and small twisted parameter sets",
 "A single valid vector and no invalid one.",
 ["equihash/equihash.go","equihash/client.go"],[("twisted leaf hash","equihash/equihash.go generateHash"),("subtree validation","equihash/equihash.go validateSubtrees")],["equihash.Client.Verify"])
p("C11","BeamHash III accepts exactly the valid solutions",
 "Verify accepts a 40-byte Beam header and 104-byte solution if and only if, under BeamHash III (SipHash leaves keyed by header and the solution's extra nonce, per-round mixing, 24-bit collisions over five rounds), all 32 indices are distinct, ordered and collide at every level and the final work bits are zero. Near-valid solutions violating any single rule at any level are refused.",
 ["inputs"],"all headers, index sets and extra nonces","Three valid vectors, all with zero extra nonce; no negative test.",
 ["beamhashiii/beamhashiii.go","beamhashiii/client.go","internal/crypto/siphash.go"],[("round mixing","beamhashiii/beamhashiii.go applyMix"),("subtree validation","beamhashiii/beamhashiii.go validateSubtrees"),("final zero test","beamhashiii/beamhashiii.go verify")],["beamhashiii.Client.Verify"])
p("C12","Cuckoo Cycle (Aeternity) accepts exactly strictly ascending single cycles",
 "A Cuckoo client accepts a header and edge list if and only if the list has exactly the proof length, every edge index is within the edge mask, indices are strictly ascending, and the edges form one single cycle of the proof length in the SipHash-derived bipartite graph. In particular a permuted copy of an accepted proof is refused, and a named error is only returned when the rule it names is really violated.",
 ["inputs","configurations"],"all headers and edge lists; Aeternity preset and any edge-bits/proof-length",
 "Only valid proofs are tested: no rejection rule is exercised at all.",
 ["cuckoo/cuckoo.go","cuckoo/client.go","cuckoo/errors.go","internal/crypto/siphash.go"],[("edge checks and cycle walk","cuckoo/cuckoo.go")],["cuckoo.Client.Verify"])
p("C13","Cuckaroo (Cortex) accepts exactly strictly ascending single cycles",
 "A Cuckaroo client accepts a header and edge list if and only if the list has exactly the proof length, every edge index is within the edge mask, indices are strictly ascending, and the edges form one single cycle of the proof length in the graph derived from 64-edge SipHash-4-8 blocks. A permuted copy of an accepted proof is refused, and a named error is only returned when the rule it names is really violated.",
 ["inputs","configurations"],"all headers and edge lists; Cortex preset and any edge-bits/proof-length",
 "Only valid proofs are tested: no rejection rule is exercised at all.",
 ["cuckoo/cuckaroo.go","cuckoo/client.go","cuckoo/errors.go","internal/crypto/siphash.go"],[("edge checks and cycle walk","cuckoo/cuckaroo.go"),("edge block hashing","internal/crypto/siphash.go SipBlock48")],["cuckoo.Client.Verify"])
p("C14","DAG sizes follow the growth schedule at every epoch, table or no table",
 "For every DAG coin and every epoch the verification-cache and dataset sizes equal the largest-prime-rows sizes that the coin's published growth schedule defines. Precomputed tables and direct computation agree everywhere, and no epoch, inside, at the end of or beyond the tables, makes a size query panic.",
 ["inputs","configurations"],"all epochs 0..2047 of every preset (exhaustive), epochs beyond the tables, and custom schedules",
 "Ten epochs are tested on a custom configuration without tables; the 16k generated table entries and their ends are not.",
 ["internal/dag/dag.go","internal/dag/config.go","ethash/ethash_lookup.go","kawpow/kawpow_lookup.go","firopow/firopow_lookup.go","octopus/octopus_lookup.go","ethash/client.go","kawpow/client.go","firopow/client.go","octopus/client.go"],
 [("table lookup with fallback","internal/dag/dag.go CacheSize, DatasetSize"),("prime search","internal/dag/dag.go calcCacheSize, calcDatasetSize")],["dag.DAG.CacheSize","dag.DAG.DatasetSize"])
p("C15","Heights map to the right epoch and seed",
 "For every DAG coin and height, the epoch is the height divided by the coin's epoch length, and the epoch's seed is Keccak-256 iterated once per elapsed seed epoch starting from 32 zero bytes (Ethereum Classic: 60000-block epochs seeded by 30000-block seed epochs). Crossing an epoch boundary by one block switches cache exactly there.",
 ["inputs","configurations"],"all heights, in particular both sides of every epoch boundary; all presets and custom epoch/seed-epoch lengths",
 "Seven heights and six seeds on one configuration; Classic's differing seed epoch is never checked.",
 ["internal/dag/dag.go","internal/dag/cache.go","ethash/client.go"],[("epoch calculation","internal/dag/dag.go CalcEpoch"),("seed chain","internal/dag/dag.go SeedHash")],["dag.DAG.CalcEpoch","dag.DAG.SeedHash","Client.Compute"])
p("C16","Verification caches, L1 caches and dataset items have the specified contents",
 "For every epoch and configuration the light cache (sequential Keccak-512 fill plus RandMemoHash rounds), the L1 cache (first dataset items) and every dataset item of 64, 128 or 256 bytes equal the Ethash-family specification, whatever the cache size, round count and parent count, and whether held in memory or in a file.",
 ["inputs","configurations"],"all epochs, item indices (up to the end of multi-GiB datasets), light caches below 4 GiB (where every coin reaches the end of 32-bit item indices), rounds and parents; in-memory and on-disk",
 "Tests compare two 1 KiB caches, three hashes and a few items.",
 ["internal/dag/generate.go","internal/dag/cache.go","internal/dag/dag.go","internal/common/bitutil/xor_amd64.s"],[("cache generation","internal/dag/generate.go generateCache"),("item generation","internal/dag/generate.go generateDatasetItem"),("L1 generation","internal/dag/generate.go generateL1Cache")],["dag.DAG.GetCache","dag.DAG.NewLookupFunc512/1024/2048"])
p("C17","Concurrent use gives the sequential results and is race free",
 "Any number of goroutines may call Compute or Verify on shared or separate clients of any algorithm, mixing epochs so that caches are created, pre-generated, evicted and reloaded meanwhile; every call returns exactly what it would return alone. No data race, deadlock or crash occurs.",
 ["schedules","histories"],"all interleavings of concurrent calls over shared clients, with evictions, background generation and garbage collection in flight",
 "Every existing test is single-threaded apart from the background generation it ignores.",
 ["internal/dag/dag.go","internal/dag/cache.go","internal/crypto/hasher.go","ethash/client.go","kawpow/client.go","firopow/client.go","octopus/client.go"],
 [("mutex over the epoch map","internal/dag/dag.go GetCache"),("once-only generation","internal/dag/cache.go generate"),("per-call hashers","internal/dag/dag.go NewLookupFunc*")],["Client.Compute and Client.Verify under the race detector"],
 [("caches, future","resident and pre-generated epoch caches","internal/dag/dag.go DAG")])
p("C18","Resident epoch caches are bounded; the least recently used is evicted",
 "After any sequence of epoch requests a DAG keeps at most its configured number of epoch caches reachable (plus one pre-generated successor); a request for a resident epoch returns the very same cache, and when a new epoch needs room the least recently used one is evicted.",
 ["histories","schedules"],"all request sequences, cache limits of 1 and more, sequential and concurrent requesters",
 "No test requests more epochs than the limit.",
 ["internal/dag/dag.go"],[("eviction by last use","internal/dag/dag.go GetCache")],["dag.DAG.GetCache"],
 [("caches","resident epoch caches","internal/dag/dag.go DAG.caches"),("used","last use time","internal/dag/cache.go cache.used")])
p("C19","Each epoch is generated once per residency and its successor prepared ahead",
 "Concurrent requests for one epoch share a single generated cache: none sees a partly generated one and none triggers another generation. Requesting a new highest epoch prepares the next epoch in the background, exactly one ahead, and a later request for it uses the prepared cache.",
 ["schedules","histories"],"all interleavings of simultaneous first requests and all advancing epoch sequences",
 "No test makes simultaneous requests or observes the background preparation.",
 ["internal/dag/dag.go","internal/dag/cache.go"],[("sync.Once generation","internal/dag/cache.go generate"),("future cache","internal/dag/dag.go GetCache")],["dag.DAG.GetCache","files appearing in the storage directory"],
 [("future","pre-generated successor","internal/dag/dag.go DAG.future")])
p("C20","Unusable files in the storage directory never change a result",
 "Whatever the storage directory holds at start (nothing, empty or few-byte files, wrong headers, truncated or over-long dumps, zero-filled files, directories or dangling links in place of dumps, leftovers of interrupted runs, a dump of another size under the same name), Compute neither crashes nor returns anything but the correct digest. Unusable dumps are replaced by correct ones.",
 ["inputs","crash_points","histories"],"all directory states that are not complete dumps of this cache, for caches and L1 caches independently and together",
 "Tests start with an absent or good cache directory only.",
 ["internal/dag/mmap.go","internal/dag/cache.go"],[("header validation when mapping","internal/dag/mmap.go memoryMap"),("regeneration on failure","internal/dag/cache.go generate")],["Client.Compute","dag.DAG.GetCache"])
p("C21","A crash at any point never publishes an incomplete cache file",
 "If the process is killed at any moment, any cache or L1 file present under its final name is complete and correct, and a later process using the directory computes correct results. Incomplete data is only ever visible under temporary names.",
 ["crash_points","schedules"],"all kill points during generation and publication (system-call boundaries and arbitrary times)",
 "No test interrupts generation or looks at the directory while it runs.",
 ["internal/dag/mmap.go"],[("temporary file then rename","internal/dag/mmap.go memoryMapAndGenerate")],["storage directory contents while and after killing a generating process"])
p("C22","Storage failures fall back to memory with correct results",
 "When storage cannot be used (directory cannot be created or written, open, resize, map, close or rename fails, the disk is full, descriptors run out) Compute still returns the correct digest without crashing, using in-memory caches. Failed attempts leave no partial file behind.",
 ["fault_sequences"],"every failing storage system call on the cache path, singly, in pairs and repeatedly, and real out-of-space and read-only directories",
 "Tests never fail a file operation.",
 ["internal/dag/mmap.go","internal/dag/cache.go"],[("error fallbacks","internal/dag/cache.go generate"),("reserve space before mapping","internal/dag/mmap.go ensureSize")],["Client.Compute with injected system-call failures"])
p("C23","Stale cache files are pruned; everything else in the directory is kept",
 "When a new epoch has been generated on disk, no cache or L1 file of the same coin remains for epochs at or below that epoch minus the configured count; more recent and newer epochs' files, other coins' and other revisions' files, and unrelated files in the directory are never deleted or altered. At quiescence no temporary file remains.",
 ["histories","configurations"],"all epoch request sequences by one or several coins sharing a directory, with and without L1 caches",
 "No test looks at the directory.",
 ["internal/dag/cache.go","internal/dag/dag.go"],[("deletion of stale files","internal/dag/cache.go generate"),("name, revision and seed in file names","internal/dag/dag.go cacheStorageLocation, l1StorageLocation")],["storage directory listing after each request"])
p("C24","Evicted caches are released, and never while still in use",
 "Over any number of epochs, open descriptors and memory mappings stay bounded by the configured cache count, and goroutines left in the background do not accumulate from epoch to epoch or from hash to hash: evicted caches are unmapped and closed once unreferenced, and failed or rejected mappings leak nothing. Memory of a cache that a caller still holds is never unmapped, so computing during eviction and garbage collection cannot fault.",
 ["histories","schedules"],"long epoch sequences with garbage collection at arbitrary points, holders keeping evicted caches, unusable files met repeatedly",
 "Tests touch few epochs and never look at mappings or descriptors.",
 ["internal/dag/cache.go","internal/dag/mmap.go","internal/dag/dag.go"],[("finalizer unmaps and closes","internal/dag/cache.go finalizer"),("KeepAlive around computations","*/client.go Compute")],["/proc/self/maps and /proc/self/fd","reads of held cache memory"])
p("C25","Processes sharing a storage directory do not disturb each other",
 "Any number of processes (same coin or different coins) may use one storage directory at the same time, generating, loading and pruning the same epochs, being killed meanwhile, and even sharing the same pseudo-random seed; each always returns correct results, and no file under a final name is ever incomplete or modified after publication.",
 ["schedules","crash_points"],"all interleavings of several processes generating, publishing, loading and deleting the same files",
 "The test script runs packages one at a time precisely because of shared temporary names.",
 ["internal/dag/mmap.go","internal/dag/cache.go"],[("unique temporary file and atomic rename","internal/dag/mmap.go memoryMapAndGenerate")],["results of each process; directory observer"])
p("C26","Hostile input is rejected with an error, never a panic or hang",
 "For every byte string, list or number a remote peer can supply (wrong lengths, nil, huge, degenerate or adversarial indices and edges) every public Compute and Verify of the shipped coins returns promptly: wrong-length hashes, headers, proofs and solutions yield an error and no success, and nothing panics. (Block heights are bounded by the caller's chain: an epoch whose cache cannot fit in memory is outside this promise.) Verify never reports success together with an error.",
 ["inputs"],"all input lengths and contents for all shipped presets","No test passes malformed input to any API.",
 ["equihash/equihash.go","beamhashiii/client.go","cuckoo/client.go","ethash/client.go","kawpow/client.go","firopow/client.go","octopus/client.go","autolykos2/client.go","heavyhash/client.go","eaglesong/client.go"],
 [("length validation","*/client.go"),("cycle walk terminates","cuckoo/cuckoo.go")],["all Client.Compute and Client.Verify"])
p("C27","Calls are pure: inputs unmodified, no state carried over, results unaliased",
 "The result of every Compute and Verify depends only on its arguments and the client's configuration, not on earlier calls, on other clients, or on what the caller does with previously returned or passed-in buffers. Arguments are never modified (even spare capacity behind them), and returned slices are independent of each other and of the arguments.",
 ["histories","inputs"],"all call sequences over all clients with callers mutating arguments and results between calls",
 "Tests call with fresh buffers once and never look at them again.",
 ["autolykos2/autolykos2.go","equihash/equihash.go","beamhashiii/beamhashiii.go","octopus/octopus.go","ethash/ethash.go","internal/crypto/hasher.go","internal/dag/generate.go"],
 [("copying concatenations","autolykos2/autolykos2.go concatBytes"),("fresh buffers per call","all algorithm files")],["all Client.Compute and Client.Verify with guarded argument buffers"])
p("C28","Shared cryptographic primitives equal their specifications",
 "Keccak-256/512 (legacy padding), Keccak-f[800], cSHAKE256, BLAKE2b with personalization and any digest size, SipHash-2-4/4-8 node and block hashing, xoshiro256++ and FNV-1/1a mixing return what their specifications define for every input, including reusable hashers used repeatedly and with overlapping source and destination.",
 ["inputs","histories"],"all inputs, lengths across block boundaries, digest sizes and reuse sequences",
 "A few vectors for SipHash, FNV and xoshiro; Keccak-f[800], cSHAKE, BLAKE2b and the reusable hashers have none.",
 ["internal/crypto/keccak.go","internal/crypto/hasher.go","internal/crypto/blake.go","internal/crypto/shakehash.go","internal/crypto/siphash.go","internal/crypto/xoshiro256plusplus.go","internal/crypto/fnv.go","internal/common/convutil/convutil.go"],
 [("permutation and sponge code","internal/crypto/*.go")],["exported functions of internal/crypto and internal/common/convutil"])
p("C29","The XOR kernel is exact and stays in bounds for all lengths and alignments",
 "XORing two byte slices writes exactly the bytewise XOR of the common prefix to the destination, returns its length, reads and writes nothing outside the given slices, leaves the rest of the destination untouched, works in place, and panics rather than overruns when the destination is too short; assembly and portable versions agree.",
 ["inputs","configurations"],"all lengths, alignments, length mismatches and in-place use; the assembly and the portable implementation",
 "The existing test uses separate buffers without guard bytes, so an over-write, over-read or in-place error passes.",
 ["internal/common/bitutil/xor_amd64.go","internal/common/bitutil/xor_amd64.s","internal/common/bitutil/xor_generic.go"],[("SSE2 loop with tails","internal/common/bitutil/xor_amd64.s")],["bitutil.XORBytes with guard pages"])
p("C30","The lookup-table generator emits every epoch's correct sizes",
 "For any schedule parameters and any epoch count the generator writes a Go file whose two tables contain exactly that many entries, in order, each equal to the growth-schedule size of its epoch, replacing an older file of that name entirely; if the file cannot be written the generator exits with a failure. Run with a coin's documented parameters it reproduces (at least as a prefix) the tables shipped for that coin.",
 ["inputs","configurations"],"all parameter combinations and epoch counts, multiples of the row width or not",
 "The generator has no tests.",
 ["cmd/gen-lookup/main.go","internal/dag/dag.go"],[("table formatting","cmd/gen-lookup/main.go formatLookupTable")],["the gen-lookup program's output file"])
p("C31","Results do not depend on word size or build flavour",
 "On every supported little-endian platform and build flavour (64-bit with assembly, 32-bit portable code) every algorithm returns identical results for identical inputs, also for heights, nonces, edges and dataset sizes above 32 bits.",
 ["configurations","inputs"],"amd64 and 386 builds on the same inputs, including 64-bit extremes",
 "Tests run only on the build machine's architecture.",
 ["internal/common/bitutil/xor_generic.go","internal/dag/dag.go","internal/dag/generate.go","octopus/octopus.go","autolykos2/autolykos2.go"],[("fixed-width arithmetic","all algorithm files"),("portable XOR","internal/common/bitutil/xor_generic.go")],["results of the same program built for both architectures"])
p("C32","A valid cache file is reused unchanged across restarts",
 "A process that finds complete cache and L1 files for an epoch loads them instead of regenerating: it returns the same results as the process that wrote them, and neither rewrites nor deletes them; when only one of the two files is missing, only that one is written again.",
 ["histories"],"all sequences of process starts and epoch requests over a shared directory, with and without L1, with and without the L1 or cache file missing",
 "Tests cannot tell a loaded cache from a regenerated one.",
 ["internal/dag/cache.go","internal/dag/mmap.go"],[("load before generate","internal/dag/cache.go generate")],["results, inode numbers and modification times of files"])
p("C33","Coin presets carry their chain's published parameters",
 "Each preset constructor yields a client that follows its chain's published parameters for every input: DAG growth, epoch and seed lengths, parents, mix size and default storage under ~/.powcache for DAG coins; n, k, personalization and twist for Equihash coins; edge bits, proof size and hash flavour for Cuckoo coins; rounds and rate for Eaglesong; k and N for Autolykos. Different presets sharing a storage directory never use each other's files.",
 ["configurations","inputs"],"all preset constructors, over inputs that distinguish every parameter",
 "Each preset is tested on at most a few known blocks, BitcoinGold, ZClassic, ZCash and Aion not at all.",
 ["ethash/client.go","kawpow/client.go","firopow/client.go","octopus/client.go","equihash/client.go","beamhashiii/client.go","cuckoo/client.go","eaglesong/client.go","autolykos2/client.go","heavyhash/client.go","internal/common/filesystem.go"],
 [("preset constructors","*/client.go")],["preset clients' results and files"])
p("C34","Generating one epoch never delays requests that do not need it",
 "While the verification cache of an epoch is generated, in the background or because callers asked for it, requests for epochs that are ready are answered at once, a request for a new epoch waits for its own generation only and not for the preparation of its successor, and other clients are not held up; all of them get the results they get otherwise.",
 ["schedules","histories","configurations"],"all moments of a generation, all other requests at that moment, of the same client and of others, in memory and on disk",
 "Tests call one client at a time and never look at how long a call waits for another one's work; a lock held over a generation passes all of them.",
 ["internal/dag/dag.go","internal/dag/cache.go"],[("lock released before generating; successor in its own goroutine","internal/dag/dag.go GetCache"),("per-cache sync.Once","internal/dag/cache.go generate")],["duration of Client.Compute calls during a generation of another epoch, and their results"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
