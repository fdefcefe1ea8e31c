"""Which harness runs decide which property, with their bounds."""
SEQ = "stateless model checking of the real code: exhaustive bounded operation histories against a reference model"
CONC = "stateless model checking of the real code: exhaustive preemption-bounded thread schedules"
import os
VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = {}
CHECKS = {}
NOT_APPLICABLE = {}
def T(**k): return k

HARNESS["c13s"] = T(harness="c13_critnib.cpp", variant="asan")
HARNESS["c13c"] = T(harness="c13_critnib.cpp", variant="tsan")
CHECKS["C13"] = T(level="model_checking", technique=SEQ + "; " + CONC,
  note="Every insert/update/remove history up to the depth over 5 adversarial key sets is compared with std::map after each step; "
       "every schedule of small reader/writer programs is checked for linearizability. Sequentially consistent memory only.",
  bounds="sequential: depth 4 (quick) / 6 (thorough) over 5-7 keys, 1 allocation failure at depth 3/4; concurrent: 2 threads x (2+1 ops) and "
         "3 threads x 1 op, <=2 preemptions (3 thorough); stalled reader vs up to 36 writer operations, 1 preemption",
  runs=[
    T(bin="c13s", scenario="seq", quick=T(depth=4), thorough=T(depth=6)),
    T(bin="c13s", scenario="seq", quick=T(depth=3, faults=1), thorough=T(depth=4, faults=2)),
    T(bin="c13s", scenario="churn", params=T(churn=40)),
    T(bin="c13c", scenario="wr", quick=T(pb=2), thorough=T(pb=3, keysets=3)),
    T(bin="c13c", scenario="wr", params=T(pb=2, wops=1, rops=2), quick=T(pb=1)),
    T(bin="c13c", scenario="wr", quick=T(pb=1, wops=3), thorough=T(pb=2, wops=3)),
    T(bin="c13c", scenario="wwr", quick=T(pb=1), thorough=T(pb=2, keysets=3), budget=600),
    T(bin="c13c", scenario="stall", quick=T(pb=1, maxchurn=36), thorough=T(pb=1, maxchurn=70), budget=600),
    T(bin="c13c", scenario="stall", params=T(pb=2, minchurn=34), quick=T(maxchurn=35, sparse=1), thorough=T(maxchurn=36), budget=900),
  ])

HARNESS["c01s"] = T(harness="c01_disjoint.cpp", variant="asan")
HARNESS["c02"] = T(harness="c02_disjoint_mt.cpp", variant="tsan")
HARNESS["c04p"] = T(harness="c04_proxy.cpp", variant="asan")
CHECKS["C01"] = T(level="model_checking", technique=SEQ,
  note="Every history of malloc/aligned_malloc/free up to the depth over ten pool configurations with boundary sizes runs on the real pool over a model "
       "provider; after each step all live blocks, usable sizes, contents and owner lookups are compared with a reference model.",
  bounds="10 configurations; all boundary sizes and alignments to depth 4 (5 thorough), reduced alphabet to depth 6 (8 thorough); every parameter combination from 17x7x17x2 values",
  runs=[
    T(bin="c01s", scenario="hist", params=T(orc=1), quick=T(depth=4), thorough=T(depth=5)),
    T(bin="c01s", scenario="hist", params=T(orc=1, alpha=1), quick=T(depth=6), thorough=T(depth=7)),
    T(bin="c01s", scenario="params"),
  ])
CHECKS["C02"] = T(level="model_checking", technique=CONC,
  note="Ten thread programs (allocate, free own and foreign blocks, usable size, aligned, direct) are combined in every way; every schedule up to the "
       "preemption bound runs on the real pool, internal allocations and provider memory are monitored for use after release. Sequentially consistent memory.",
  bounds="2 threads, all pairs of 10 programs, 2 preemptions (3 thorough); 3 threads, all triples, 1 preemption; 2 pools under one limit, 2 (3) preemptions",
  runs=[
    T(bin="c02", scenario="mt", quick=T(pb=2), thorough=T(pb=3)),
    T(bin="c02", scenario="mt", params=T(threads=3), quick=T(pb=1), thorough=T(pb=1)),
    T(bin="c02", scenario="shared", quick=T(pb=2), thorough=T(pb=3)),
  ])
CHECKS["C03"] = T(level="model_checking", technique=SEQ + "; " + CONC,
  note="A reference model of slabs predicts for each step whether the provider is asked, and whether an emptied slab is kept; idle memory is also summed "
       "independently of that model from the provider's record.",
  bounds="10 configurations, depth 5 (6 thorough) with a reduced alphabet and depth 3 (4) with all boundary sizes; 2 pools under 6 shared maxima incl. destroy/re-create, depth 5 (6); 2 threads on 2 pools under one limit, 2 (3) preemptions",
  runs=[
    T(bin="c01s", scenario="hist", params=T(orc=2, alpha=1), quick=T(depth=6), thorough=T(depth=7)),
    T(bin="c01s", scenario="hist", params=T(orc=2), quick=T(depth=3), thorough=T(depth=4)),
    T(bin="c01s", scenario="shared", quick=T(depth=5), thorough=T(depth=6)),
    T(bin="c02", scenario="shared", quick=T(pb=2), thorough=T(pb=3)),
  ])
CHECKS["C04"] = T(level="model_checking", technique=SEQ,
  note="The model provider checks every free it receives against its outstanding allocations (address and exact size) and refuses up to N calls at every "
       "possible place; after each history the provider recovers, every class is used again and the pool is destroyed, empty or with live blocks.",
  bounds="disjoint: 10 configurations, depth 3 with 2 provider failures, depth 5 with 1 (reduced alphabet); proxy: depth 4 with 2 failures of alloc/free (5 thorough); scalable: see C23",
  runs=[
    T(bin="c01s", scenario="hist", params=T(orc=4, faults=2), quick=T(depth=3), thorough=T(depth=4)),
    T(bin="c01s", scenario="hist", params=T(orc=4, faults=1, alpha=1), quick=T(depth=5), thorough=T(depth=6)),
    T(bin="c04p", scenario="proxy", quick=T(depth=4), thorough=T(depth=5)),
  ])
HARNESS["c05"] = T(harness="c05_tracker.cpp", variant="asan", defs=("-DNDEBUG",))
HARNESS["c06"] = T(harness="c06_tracker_mt.cpp", variant="tsan")
CHECKS["C05"] = T(level="model_checking", technique=SEQ,
  note="Four pools (two independent, two stacked) allocate and free at every placement; after each step every unit boundary +-1 byte is looked up and "
       "compared with a reference list, and handles for sharing are checked against the provider's record.",
  bounds="depth 5 (6 thorough) over 15 placements, 3 address bases; depth 4 with one failed metadata allocation or provider call; stacks up to 10 levels in 3 shapes; metadata growth over every sequence of 3 (4) of 10 balanced operations, repeated 72 times",
  runs=[
    T(bin="c05", scenario="owners", quick=T(depth=5), thorough=T(depth=7)),
    T(bin="c05", scenario="owners", params=T(faults=1), quick=T(depth=4), thorough=T(depth=5)),
    T(bin="c05", scenario="deep"),
    T(bin="c05", scenario="split", params=T(alpha=1, ipc=1), quick=T(depth=3), thorough=T(depth=4)),
    T(bin="c05", scenario="steady", quick=T(depth=3), thorough=T(depth=4)),
  ])
CHECKS["C06"] = T(level="model_checking", technique=CONC,
  note="Writers (siblings, neighbours, nested, split, merge, free) and readers run under every schedule up to the preemption bound; each lookup is judged "
       "against the blocks certainly or possibly live during the call; released bookkeeping memory is watched. Sequentially consistent memory.",
  bounds="1 writer of 12 x 1 reader of 4, 2 preemptions (3 thorough); 2 writers, 2 (3) preemptions; 2 writers + 1 reader, 1 (2) preemptions; 1 writer + 2 readers, 1 (2)",
  runs=[
    T(bin="c06", scenario="mt", quick=T(pb=2), thorough=T(pb=3)),
    T(bin="c06", scenario="mt", params=T(writers=2, readers=0), quick=T(pb=2), thorough=T(pb=3), budget=900),
    T(bin="c06", scenario="mt", params=T(writers=1, readers=2), quick=T(pb=1), thorough=T(pb=2), budget=900),
    T(bin="c06", scenario="mt", params=T(writers=2, readers=1), quick=T(pb=1), thorough=T(pb=2), budget=900),
  ])
CHECKS["C07"] = T(level="model_checking", technique=SEQ,
  note="Every history of valid and invalid splits, merges, frees and nested allocations on up to three top-level blocks; the upstream provider accepts anything, "
       "so only the library's own checks stand between a bad request and success. Built with NDEBUG (the library asserts on a rejected merge otherwise).",
  bounds="depth 3 with all arguments, depth 4 with a reduced alphabet (5 thorough), at top level and nested in another pool's block; one failed metadata allocation or upstream refusal at depth 3; metadata growth over every sequence of 3 (4) of 10 balanced operations",
  runs=[
    T(bin="c05", scenario="split", quick=T(depth=3, alpha=1, nest=1), thorough=T(depth=4, alpha=1, nest=1)),
    T(bin="c05", scenario="split", params=T(alpha=1, faults=1, nest=1), quick=T(depth=3), thorough=T(depth=4)),
    T(bin="c05", scenario="split", params=T(alpha=1, ipc=1), quick=T(depth=3), thorough=T(depth=4)),
    T(bin="c05", scenario="steady", quick=T(depth=3), thorough=T(depth=4)),
    T(bin="c05", scenario="split", quick=T(depth=3), thorough=T(depth=4), budget=1500),
  ])

HARNESS["c10"] = T(harness="c10_ipc.cpp", variant="asan")
HARNESS["c11"] = T(harness="c10_ipc.cpp", variant="tsan")
CHECKS["C10"] = T(level="model_checking", technique=SEQ,
  note="Three pools over model providers export, open, close, free, re-allocate and re-create under limits 0, 1, 2; each mapping returned is compared with the "
       "provider's record of what it maps, each close with the mappings in use, each eviction with the least-recently-used order.",
  bounds="depth 4 (5 thorough), opens and closes of three handles depth 8 (9), one slot with everything depth 7 (8); with one refused provider call or metadata allocation depth 4-5 (5-6), with two depth 3 (4)",
  runs=[
    T(bin="c10", scenario="hist", quick=T(depth=4), thorough=T(depth=5)),
    T(bin="c10", scenario="hist", params=T(flt=1), quick=T(depth=4), thorough=T(depth=5), budget=900),
    T(bin="c10", scenario="hist", params=T(flt=2), quick=T(depth=3), thorough=T(depth=4), budget=900),
    T(bin="c10", scenario="hist", params=T(focus=1), quick=T(depth=8), thorough=T(depth=9), budget=900),
    T(bin="c10", scenario="hist", params=T(focus=2), quick=T(depth=7), thorough=T(depth=8), budget=900),
    T(bin="c10", scenario="hist", params=T(focus=1, flt=1), quick=T(depth=5), thorough=T(depth=6), budget=900),
    T(bin="c10", scenario="hist", params=T(focus=2, flt=1), quick=T(depth=5), thorough=T(depth=6), budget=900),
  ])
CHECKS["C11"] = T(level="model_checking", technique=CONC,
  note="Eleven thread programs (open/close of shared and own handles through shared and own pools, get, re-allocation, pool coming and going) combined in every "
       "way under limits 0-2 and 0-2 mappings cached beforehand; every schedule up to the preemption bound. Sequentially consistent memory.",
  bounds="2 threads, all pairs, 2 preemptions (3 thorough); 3 threads, all triples, 1 preemption (limits 0 and 1)",
  runs=[
    T(bin="c11", scenario="mt", quick=T(pb=2), thorough=T(pb=3), budget=900),
    T(bin="c11", scenario="mt", params=T(threads=3, maxes=2), quick=T(pb=0), thorough=T(pb=1), budget=900),
  ])
HARNESS["c08"] = T(harness="c08_coarse.cpp", variant="asan")
CHECKS["C08"] = T(level="model_checking", technique=SEQ,
  note="The underlying provider of the region allocator is a model that records how the region is divided; after each step live blocks, statistics and coalescing "
       "are compared with it. Refused callbacks and metadata allocation failures are enumerated. The fixed provider runs through the public API.",
  bounds="3 strategies x 5 region shapes; all sizes/alignments and invalid requests depth 3 (4 thorough), depth 5-6 (6-8) reduced alphabets; one metadata failure or "
         "refusal at depth 3-4 (5), two refusals at depth 4; fixed provider: 5 offsets x 7 sizes, depth 2 (3)",
  runs=[
    T(bin="c08", scenario="hist", quick=T(depth=3), thorough=T(depth=4)),
    T(bin="c08", scenario="hist", params=T(alpha=2), quick=T(depth=5), thorough=T(depth=6), budget=900),
    T(bin="c08", scenario="hist", params=T(alpha=1), quick=T(depth=6), thorough=T(depth=7), budget=900),
    T(bin="c08", scenario="hist", params=T(alpha=2, flt=1), quick=T(depth=3), thorough=T(depth=4), budget=900),
    T(bin="c08", scenario="hist", params=T(alpha=1, flt=1), quick=T(depth=4), thorough=T(depth=5), budget=900),
    T(bin="c08", scenario="hist", params=T(alpha=2, flt=2), quick=T(depth=3), thorough=T(depth=4), budget=900),
    T(bin="c08", scenario="fixed", quick=T(depth=2), thorough=T(depth=3)),
  ])
HARNESS["c21"] = T(harness="c21_ravl.cpp", variant="asan")
CHECKS["C21"] = T(level="model_checking", technique=SEQ,
  note="Trees of copied records and of pointers against std::set: after each step iteration, both ends, all five searches on and between keys, and the walks are "
       "compared; the number of comparisons of a search is bounded by the rank-tree height for the insertions made.",
  bounds="all insert/remove/duplicate histories depth 6 over 6 keys (7-8 over 5-6 thorough), one allocation failure at depth 5; all insertion orders of 7 (8) keys x 2 (3) "
         "removals; 140 regular runs of 600 (2000) insertions",
  runs=[
    T(bin="c21", scenario="hist", quick=T(depth=6, keys=6), thorough=T(depth=7, keys=6)),
    T(bin="c21", scenario="hist", params=T(faults=1), quick=T(depth=5, keys=5), thorough=T(depth=6, keys=5)),
    T(bin="c21", scenario="perm", quick=T(keys=7, removals=2), thorough=T(keys=8, removals=3), budget=900),
    T(bin="c21", scenario="shape", quick=T(n=600), thorough=T(n=2000)),
  ])
BA_SRC = ["base_alloc/" + f for f in ("base_alloc.c", "base_alloc_global.c", "base_alloc_linear.c", "base_alloc_linux.c")] + \
         ["utils/" + f for f in ("utils_common.c", "utils_log.c", "utils_linux_common.c", "utils_posix_common.c", "utils_posix_concurrency.c")]
HARNESS["c12s"] = T(harness="c12_base.cpp", variant="asan", ba_wrap=False, only=BA_SRC, wraps=("mmap", "munmap"))
HARNESS["c12c"] = T(harness="c12_base.cpp", variant="tsan", ba_wrap=False, only=BA_SRC, wraps=("mmap", "munmap"))
CHECKS["C12"] = T(level="model_checking", technique=SEQ + "; " + CONC,
  note="The three internal allocators run over a recorded mmap/munmap: after each step all live blocks are checked for alignment, disjointness, usable size, contents and for lying inside "
       "mapped memory; freed memory must be handed out again before more is mapped; every mapping must be returned exactly. Refused mappings and lock initialisations are enumerated.",
  bounds="size-class allocator: depth 2 over 25 boundary sizes x 8 alignments, depth 3 reduced (3-4 thorough), one refused mapping at depth 2-3; pool: depth 5 (6) x 6 chunk sizes, 1 refusal; linear: depth 4 (5), 1 refusal; "
         "2 threads 2 preemptions (3), 3 threads 1 preemption",
  runs=[
    T(bin="c12s", scenario="pool", params=T(faults=1), quick=T(depth=4), thorough=T(depth=5), budget=900),
    T(bin="c12s", scenario="linear", quick=T(depth=3), thorough=T(depth=4)),
    T(bin="c12s", scenario="linear", params=T(faults=1), quick=T(depth=3), thorough=T(depth=4)),
    T(bin="c12s", scenario="global", quick=T(depth=2), thorough=T(depth=3), budget=900),
    T(bin="c12s", scenario="global", params=T(alpha=1), quick=T(depth=3), thorough=T(depth=4), budget=900),
    T(bin="c12s", scenario="global", params=T(faults=1), quick=T(depth=2), thorough=T(depth=2)),
    T(bin="c12s", scenario="global", params=T(alpha=1, faults=1), quick=T(depth=2), thorough=T(depth=3), budget=900),
    T(bin="c12c", scenario="mt", quick=T(pb=2), thorough=T(pb=3), budget=900),
    T(bin="c12c", scenario="mt", params=T(threads=3), quick=T(pb=1), thorough=T(pb=1)),
  ])
OS_WRAPS = tuple("mmap munmap madvise ftruncate posix_fallocate close open stat fstat shm_open shm_unlink syscall "
                 "hwloc_topology_init hwloc_topology_load hwloc_topology_destroy hwloc_bitmap_alloc hwloc_bitmap_dup hwloc_bitmap_free "
                 "hwloc_set_area_membind".split())
HARNESS["c14s"] = T(harness="c14_os.cpp", variant="asan", wraps=OS_WRAPS)
HARNESS["c14c"] = T(harness="c14_os.cpp", variant="tsan", wraps=OS_WRAPS)
CHECKS["C14"] = T(level="model_checking", technique=SEQ + "; " + CONC,
  note="The provider runs over a model operating system (address space, descriptors, files, shared memory names) on which every call is recorded, checked and can be refused; "
       "after each step every page of every live block, its file range, protection and contents, and the statistics are compared with a reference list.",
  bounds="3 modes x 2 placements of each mapping; all 12x9 sizes/alignments depth 2 (3 thorough), reduced depth 4-5 (5-6), one refused system call or metadata allocation at depth 3 (4), two refused system calls at depth 3; "
         "324 parameter combinations, each also with one failure; 2-3 threads, 2 (3) preemptions",
  runs=[
    T(bin="c14s", scenario="hist", params=T(alpha=0), quick=T(depth=2), thorough=T(depth=2)),
    T(bin="c14s", scenario="hist", quick=T(depth=4, mode=0), thorough=T(depth=5, mode=0)),
    T(bin="c14s", scenario="hist", quick=T(depth=4, mode=1), thorough=T(depth=5, mode=1), budget=900),
    T(bin="c14s", scenario="hist", params=T(alpha=2), quick=T(depth=5), thorough=T(depth=6), budget=900),
    T(bin="c14s", scenario="hist", params=T(oflt=1023, mflt=1, faults=1), quick=T(depth=3), thorough=T(depth=4)),
    T(bin="c14s", scenario="hist", params=T(oflt=1023, faults=2), quick=T(depth=3), thorough=T(depth=4), budget=900),
    T(bin="c14s", scenario="create", params=T(oflt=1023, mflt=1, faults=1), thorough=T(faults=2)),
    T(bin="c14s", scenario="native"),
    T(bin="c14c", scenario="mt", quick=T(pb=2), thorough=T(pb=3)),
    T(bin="c14c", scenario="mt", params=T(threads=3), quick=T(pb=1), thorough=T(pb=2)),
  ])
HARNESS["c15s"] = T(harness="c15_file.cpp", variant="asan", wraps=OS_WRAPS)
HARNESS["c15c"] = T(harness="c15_file.cpp", variant="tsan", wraps=OS_WRAPS)
CHECKS["C15"] = T(level="model_checking", technique=SEQ + "; " + CONC,
  note="The file provider (private, shared, on DAX) and the device DAX provider run over the model operating system of C14 (address space, files, a character device with 2 MB pages). After each step "
       "every page of every live block is looked up in the model (file, offset, visibility, MAP_SYNC, end of file), file ranges of blocks are compared, contents are compared through memory and through the file, "
       "and every block is exported, opened by a second provider and compared.",
  bounds="4 modes x placements of each mapping (2 alignments, right above/below the latest mapping); all 12x9 sizes/alignments depth 1 (2), 6 kinds depth 3 (4), 3 kinds depth 4 (5), incl. split, merge, purge, export/open/close; "
         "one refused system call or metadata allocation at depth 3 (4); creation over paths, protections, visibilities, device sizes, each with one (two) failures; 2-3 threads, 2 (3) preemptions",
  runs=[T(bin="c15s", scenario="hist", params=T(alpha=0), quick=T(depth=1), thorough=T(depth=2), budget=900)] +
   [T(bin="c15s", scenario="hist", params=T(alpha=1, mode=m), quick=T(depth=3), thorough=T(depth=4), budget=900) for m in range(4)] +
   [T(bin="c15s", scenario="hist", params=T(alpha=2, mode=m), quick=T(depth=4), thorough=T(depth=5), budget=900) for m in range(4)] +
   [T(bin="c15s", scenario="hist", params=T(alpha=1, mode=m, oflt=4095, mflt=1, faults=1), quick=T(depth=3), thorough=T(depth=4), budget=900) for m in range(4)] + [
    T(bin="c15s", scenario="create", params=T(oflt=4095, mflt=1, faults=1), thorough=T(faults=2)),
    T(bin="c15c", scenario="native"),
   ] + [T(bin="c15c", scenario="mt", params=T(mode=m), quick=T(pb=2), thorough=T(pb=3)) for m in range(4)] + [
    T(bin="c15c", scenario="mt", params=T(threads=3, mode=m), quick=T(pb=1), thorough=T(pb=2), budget=900) for m in (1, 3)],
  )
HARNESS["c16s"] = T(harness="c16_numa.cpp", variant="asan", wraps=OS_WRAPS)
HARNESS["c16c"] = T(harness="c16_numa.cpp", variant="tsan", wraps=OS_WRAPS)
CHECKS["C16"] = T(level="model_checking", technique=SEQ + "; " + CONC,
  note="The provider runs over the model operating system with a 4-node topology numbered 0, 2, 5, 9; every binding call is recorded (range, node set, policy, flags) and may be refused. After each "
       "allocation every page of the block is compared with an oracle computing the binding the documentation asks for (exact fractions for split; position in the node cycle for interleave).",
  bounds="all 6 modes x 8 node lists x 6 part sizes x 15 size/alignment pairs, 2 (3) allocations or frees; split: all lists of up to 3 partitions over 3 weights and the listed nodes x 27 block sizes; "
         "one (two) refused call or failed metadata allocation; 6x3x5x2x6 creation combinations; 2-3 threads allocating concurrently, 2 (3) preemptions",
  runs=[
    T(bin="c16s", scenario="place", quick=T(depth=2), thorough=T(depth=3), budget=900),
    T(bin="c16s", scenario="place", params=T(split=1, depth=1), quick=T(maxparts=3), thorough=T(maxparts=3, weights=5), budget=900),
    T(bin="c16s", scenario="place", params=T(split=1, depth=2, maxparts=1), tiers=("thorough",), budget=900),
    T(bin="c16s", scenario="place", params=T(oflt=4095, mflt=1, faults=1), quick=T(depth=1), thorough=T(depth=2)),
    T(bin="c16s", scenario="place", params=T(split=1, oflt=4095, mflt=1, faults=1, depth=1), quick=T(maxparts=2), thorough=T(maxparts=2, faults=2), budget=900),
    T(bin="c16s", scenario="create", params=T(oflt=4095, mflt=1, faults=1), thorough=T(faults=2)),
    T(bin="c16c", scenario="mt", quick=T(pb=2), thorough=T(pb=3)),
    T(bin="c16c", scenario="mt", params=T(threads=3), quick=T(pb=1), thorough=T(pb=2), budget=900),
  ])
HARNESS["c17s"] = T(harness="c17_memspace.cpp", variant="asan", wraps=OS_WRAPS)
HARNESS["c17c"] = T(harness="c17_memspace.cpp", variant="tsan", wraps=OS_WRAPS)
CHECKS["C17"] = T(level="model_checking", technique=SEQ + "; " + CONC,
  note="Every execution builds a real hwloc topology (node numbers, processors next to each node, capacity, bandwidth and latency values or none) that the library discovers through its own hwloc calls; "
       "the predefined spaces, histories of user-made spaces and the bindings requested by providers made from a space are compared with what the documentation asks for.",
  bounds="1-4 nodes, numbered 0,2,5,9 / 0,5,2 / 0,1,2..; all assignments of capacities (4-5 values), processor groups (2-3 or none) and bandwidth/latency values (or missing) to 3 (4) nodes; "
         "histories of 3 (4) create/clone/add/remove/filter/destroy calls on two spaces, with up to one (two) failed metadata allocations; 8 spaces x 9 policies x 4 capacity orders; "
         "library restarted after every predefined-space run; 2-3 threads making the first query, 2 (3) preemptions",
  runs=[
    T(bin="c17s", scenario="args"),
    T(bin="c17s", scenario="hist", quick=T(depth=3), thorough=T(depth=4), budget=900),
    T(bin="c17s", scenario="hist", params=T(nodes=4), quick=T(depth=2), thorough=T(depth=3)),
    T(bin="c17s", scenario="hist", params=T(mflt=1, faults=1), quick=T(depth=2), thorough=T(depth=3)),
    T(bin="c17s", scenario="hist", params=T(mflt=1, faults=2, depth=2), tiers=("thorough",)),
    T(bin="c17s", scenario="prov"),
    T(bin="c17s", scenario="prov", params=T(nodes=1, contig=1)),
    T(bin="c17s", scenario="prov", params=T(nodes=2)),
    T(bin="c17s", scenario="prov", params=T(oflt=4095, mflt=1, faults=1), quick=T(nodes=2), thorough=T(nodes=4)),
    T(bin="c17c", scenario="mt", quick=T(pb=2), thorough=T(pb=3)),
    T(bin="c17c", scenario="mt", params=T(threads=3), quick=T(pb=1), thorough=T(pb=2), budget=900),
  ] + [r for w in (1, 2, 3) for r in (
    T(bin="c17s", scenario="predef", params=T(what=w), quick=T(nodes=3), thorough=T(nodes=4, values=5), budget=900),
    T(bin="c17s", scenario="predef", params=T(what=w, contig=1), quick=T(nodes=2, values=5, groups=2), thorough=T(nodes=3, values=5, groups=3)),
    T(bin="c17s", scenario="predef", params=T(what=w, nodes=2, oflt=128, mflt=1, faults=1), thorough=T(nodes=3)))])
HARNESS["c18s"] = T(harness="c18_ctl.cpp", variant="asan")
HARNESS["c18c"] = T(harness="c18_ctl.cpp", variant="tsan")
CHECKS["C18"] = T(level="model_checking", technique=SEQ + "; " + CONC,
  note="Control trees with every kind of entry (named, indexed, nested, read/write/run leaves, subtrees, common prefixes) are registered through the library's own registration call; for every enumerated name, query kind "
       "and source the handlers invoked (which, how often, context, argument, indexes, rest of the name, kind) are compared with an independent walk of the same tree. Configuration texts and files are compared with an "
       "independent reader, including the converted bytes. umfCtlGet/Set/Exec are driven with all names over pools and providers whose ctl operation is present, absent or failing, and over the system-memory provider.",
  bounds="3 trees x all names of up to 4 (5) tokens over 13 (23) tokens incl. numbers, near-numbers, empty, unknown, 5000-character and past-a-leaf ones x 3 kinds x 2 sources x with/without argument; "
         "all texts of 5 pieces out of 9 and 4 of 12 (5 of 14), 3 (4) items out of 23; 51 values per numeric/boolean/string field; files of 4 (5) pieces out of 11 and sizes around the 1 MB limit; "
         "one (two) failed metadata allocations; 2-3 threads making the first query, 2 (3) preemptions",
  runs=[T(bin="c18s", scenario="names", params=T(tree=t), quick=T(depth=4), thorough=T(depth=5), budget=900) for t in range(3)] + [
    T(bin="c18s", scenario="names", params=T(tree=0, alpha=23), quick=T(depth=3), thorough=T(depth=4)),
    T(bin="c18s", scenario="names", params=T(tree=0, faults=1), quick=T(depth=3), thorough=T(depth=4, faults=2)),
    T(bin="c18s", scenario="config", params=T(alpha=9), quick=T(depth=5), thorough=T(depth=6), budget=900),
    T(bin="c18s", scenario="config", quick=T(depth=4, alpha=12), thorough=T(depth=5, alpha=14), budget=900),
    T(bin="c18s", scenario="config", params=T(faults=1), quick=T(depth=3), thorough=T(depth=4, faults=2), budget=900),
    T(bin="c18s", scenario="items", quick=T(depth=3), thorough=T(depth=4), budget=900),
    T(bin="c18s", scenario="items", params=T(faults=1), quick=T(depth=2), thorough=T(depth=3, faults=2), budget=900),
    T(bin="c18s", scenario="conv"),
    T(bin="c18s", scenario="file", quick=T(depth=4), thorough=T(depth=5), budget=900),
    T(bin="c18s", scenario="public", quick=T(depth=4), thorough=T(depth=5), budget=900),
    T(bin="c18s", scenario="public", params=T(faults=1), quick=T(depth=3), thorough=T(depth=4), budget=900),
    T(bin="c18s", scenario="os", quick=T(depth=3), thorough=T(depth=4), budget=900),
    T(bin="c18c", scenario="mt", quick=T(pb=2), thorough=T(pb=3), budget=900),
    T(bin="c18c", scenario="mt", params=T(threads=3), quick=T(pb=0), thorough=T(pb=1), budget=900),
  ])
HARNESS["c19s"] = T(harness="c19_dispatch.cpp", variant="asan")
HARNESS["c19c"] = T(harness="c19_dispatch.cpp", variant="tsan")
CHECKS["C19"] = T(level="model_checking", technique=SEQ + "; " + CONC,
  note="Providers and pools whose callbacks record what reaches them and answer whatever the exploration chooses: every operation table, every call with valid and with each kind of invalid argument, every result code, "
       "histories over two objects with the last-failed provider tracked, creation flags with failing initialisers and failing internal steps, the built-in proxy pool, and threads failing on different providers.",
  bounds="all 2^18 subsets of callbacks, with initialize succeeding and failing; 15 provider calls x 2 providers x 1-8 argument variants x 10 codes, depth 2 (3); 13 pool calls x 2 pools x null/valid x 10 answers with and without tracking, depth 2 (3); "
         "4 flag sets x 10 initialiser results x one or two pools x one (two) failed internal steps; proxy pool depth 3 (4) with one (two) refusals; 2-3 threads, 2 (3) preemptions",
  runs=[
    T(bin="c19s", scenario="tables"),
    T(bin="c19s", scenario="tables", params=T(how=1)),
    T(bin="c19s", scenario="calls", quick=T(depth=2), thorough=T(depth=3, codes=4), budget=900),
    T(bin="c19s", scenario="pools", quick=T(depth=2), thorough=T(depth=3, answers=3), budget=900),
    T(bin="c19s", scenario="create", params=T(faults=0)),
    T(bin="c19s", scenario="create", params=T(faults=1), thorough=T(faults=2)),
    T(bin="c19s", scenario="proxy", params=T(faults=1), quick=T(depth=3), thorough=T(depth=4), budget=900),
    T(bin="c19c", scenario="errors", quick=T(pb=2), thorough=T(pb=3)),
    T(bin="c19c", scenario="errors", params=T(threads=3), quick=T(pb=1), thorough=T(pb=2)),
    T(bin="c19c", scenario="mt", quick=T(pb=2), thorough=T(pb=2, len=3), budget=900),
    T(bin="c19c", scenario="mt", params=T(threads=3, len=1), quick=T(pb=2), thorough=T(pb=2, len=2), budget=900),
    T(bin="c19c", scenario="tags", quick=T(pb=2), thorough=T(pb=4)),
    T(bin="c19c", scenario="tags", params=T(threads=3), quick=T(pb=2), thorough=T(pb=3)),
  ])
HARNESS["c25"] = T(harness="c25_log.cpp", variant="asan")
HARNESS["c25c"] = T(harness="c25_log.cpp", variant="tsan", defs=("-DWRAPIO",), wraps=("vsnprintf", "snprintf", "fputs", "fwrite", "fputc", "fprintf", "fflush", "strftime"))
CHECKS["C25"] = T(level="model_checking", technique=SEQ + "; " + CONC,
  note="Every UMF_LOG text made of the listed items (valid, repeated, malformed, file names that contain option texts) is applied by starting the library, messages of every level are written, and all streams and files are compared, after each message, "
       "with an independent reading of the documented grammar. Histories of settings over restarts, all message lengths around the line buffer, and interleavings of logging threads with the C library's text and stream calls as scheduling points.",
  bounds="all sequences of up to 2 (3) of 33 items and 3 (4) of 15; up to 3 (4) settings of 10 over restarts, each history repeated three times; message lengths over windows of 80 around 300, 4 KiB and 8 KiB; 2-3 threads, 2 messages, 2 (3) preemptions",
  runs=[
    T(bin="c25", scenario="env", quick=T(depth=2), thorough=T(depth=3)),
    T(bin="c25", scenario="env", params=T(few=1), quick=T(depth=3), thorough=T(depth=4), budget=900),
    T(bin="c25", scenario="reinit", quick=T(cycles=3), thorough=T(cycles=4), budget=600),
    T(bin="c25", scenario="fork", quick=T(gens=2), thorough=T(gens=4)),
    T(bin="c25", scenario="len", quick=T(span=60), thorough=T(span=300), budget=600),
    T(bin="c25c", scenario="mt", quick=T(pb=2), thorough=T(pb=3), budget=600),
    T(bin="c25c", scenario="mt", params=T(big=1), quick=T(pb=2), thorough=T(pb=3), budget=600),
    T(bin="c25c", scenario="mt", params=T(init=1), quick=T(pb=2), thorough=T(pb=3), budget=600),
    T(bin="c25c", scenario="mt", params=T(threads=3), quick=T(pb=1), thorough=T(pb=2), budget=600),
    T(bin="c25c", scenario="mt", params=T(threads=3, init=1), quick=T(pb=1), thorough=T(pb=2), budget=600),
  ])
HARNESS["c22s"] = T(harness="c22_init.cpp", variant="asan", wraps=OS_WRAPS)
HARNESS["c22b"] = T(harness="c22_init.cpp", variant="asan", ba_wrap=False, wraps=OS_WRAPS, defs=("-DREAL_BA",))
HARNESS["c22d"] = T(harness="c22_init.cpp", variant="tsan", ba_wrap=False, wraps=OS_WRAPS, defs=("-DREAL_BA",))
HARNESS["c22c"] = T(harness="c22_init.cpp", variant="tsan", wraps=OS_WRAPS)
CHECKS["C22"] = T(level="model_checking", technique=SEQ + "; " + CONC,
  note="Histories of umfInit, umfTearDown, object creation, allocation, lookup, release, predefined memory spaces and control queries against a counter: usable exactly while initialisations outnumber teardowns, and no metadata, mapping, "
       "topology or bitmap left when they balance. The same with the library's own metadata allocator over model system calls. Threads bring the library up, use it and take it down in every interleaving.",
  bounds="depth 5-6 (6-7) with four kinds of pool and provider, depth 4 (5) with one (two) failed metadata allocations or mappings during umfInit; 2-3 threads x {nothing, pool life cycle, memory space}, 2 (3) preemptions, one failed allocation; sequentially consistent memory",
  runs=[T(bin="c22s", scenario="seq", params=T(kind=k), quick=T(depth=6 if k == 0 else 5), thorough=T(depth=7 if k == 0 else 6), budget=900) for k in range(4)] + [
    T(bin="c22s", scenario="seq", params=T(mflt=1, faults=1), quick=T(depth=4), thorough=T(depth=5, faults=2), budget=900),
    T(bin="c22b", scenario="seq", quick=T(depth=5), thorough=T(depth=6), budget=900),
    T(bin="c22b", scenario="seq", params=T(kind=1), quick=T(depth=4), thorough=T(depth=6), budget=900),
    T(bin="c22b", scenario="seq", params=T(mflt=1, faults=1), quick=T(depth=3), thorough=T(depth=4, faults=2), budget=900),
    T(bin="c22c", scenario="mt", quick=T(pb=2), thorough=T(pb=3), budget=900),
    T(bin="c22c", scenario="mt", params=T(pre=1), quick=T(pb=2), thorough=T(pb=3), budget=900),
    T(bin="c22c", scenario="mt", params=T(use=1), quick=T(pb=2), thorough=T(pb=3), budget=900),
    T(bin="c22c", scenario="mt", params=T(use=1, space=3), quick=T(pb=2), thorough=T(pb=3), budget=900),
    T(bin="c22c", scenario="mt", params=T(threads=3), quick=T(pb=2), thorough=T(pb=3), budget=900),
    T(bin="c22c", scenario="mt", params=T(threads=3, use=1, pre=1), quick=T(pb=1), thorough=T(pb=2), budget=900),
    T(bin="c22c", scenario="mt", params=T(mflt=1, faults=1), quick=T(pb=1), thorough=T(pb=2), budget=900),
    T(bin="c22d", scenario="mt", quick=T(pb=1), thorough=T(pb=2), budget=900),
    T(bin="c22d", scenario="mt", params=T(threads=3), quick=T(pb=1), thorough=T(pb=1), budget=900)])
TBB_WRAPS = ("utils_open_library", "utils_get_symbol_addr", "utils_close_library")
PX_WRAPS = OS_WRAPS + TBB_WRAPS + tuple("umfMemoryProviderCreate umfPoolCreate umfPoolMalloc umfPoolCalloc umfPoolRealloc umfPoolAlignedMalloc umfPoolMallocUsableSize umfPoolFree".split())
HARNESS["c20s"] = T(harness="c20_proxy.cpp", variant="asan", wraps=PX_WRAPS, extra_src=(VERIF + "/harness/px_proxy.c",))
HARNESS["c20c"] = T(harness="c20_proxy.cpp", variant="tsan", wraps=PX_WRAPS, extra_src=(VERIF + "/harness/px_proxy.c",))
CHECKS["C20"] = T(level="model_checking", technique=SEQ + "; " + CONC,
  note="The proxy library's own source is linked with renamed entry points over the model operating system, a recording system allocator and the installed TBB allocator or a model of it; every execution is a process of its own. "
       "Histories of all entry points cover the time before, during (calls made from inside the creation of provider and pool), after start-up and after the destructor, and calls made from inside the pool's own functions; "
       "every live block is compared with a reference list (place, contents, source) after each step.",
  bounds="4 configurations (plain, two thresholds, shared memory by descriptor and by name); 28 requests x 7 new sizes depth 2 (3), 5 requests x 3 new sizes depth 3 (4), 1 (2) calls from inside UMF, one (two) refused system calls; "
         "25 impossible requests x 3 stages x 13 alignments/sizes; 2 (3) threads before, during and after start-up, 2 (3) preemptions",
  runs=[T(bin="c20s", scenario="odd", params=T(cfg=c, model=m)) for c in (0, 1, 4) for m in (0, 1)] + [
    T(bin="c20s", scenario="hist", params=T(full=1, cfg=0), quick=T(depth=2), thorough=T(depth=3), budget=900),
    T(bin="c20s", scenario="hist", params=T(full=1, cfg=1), quick=T(depth=2), thorough=T(depth=3), budget=900),
    T(bin="c20s", scenario="hist", params=T(full=1, cfg=4, model=1), quick=T(depth=2), thorough=T(depth=3), budget=900),
    T(bin="c20s", scenario="hist", params=T(cfg=0), quick=T(depth=3), thorough=T(depth=4), budget=900),
    T(bin="c20s", scenario="hist", params=T(cfg=4, model=1), quick=T(depth=3), thorough=T(depth=4), budget=900),
    T(bin="c20s", scenario="hist", params=T(cfg=2), quick=T(depth=3), thorough=T(depth=4), budget=900),
    T(bin="c20s", scenario="hist", params=T(cfg=1, model=1), quick=T(depth=2, inner=1), thorough=T(depth=3, inner=1), budget=900),
    T(bin="c20s", scenario="hist", params=T(cfg=0), quick=T(depth=2, inner=1), thorough=T(depth=2, inner=2), budget=900),
    T(bin="c20s", scenario="hist", params=T(cfg=0, oflt=1021), quick=T(depth=3, faults=1), thorough=T(depth=4, faults=1), budget=900),
    T(bin="c20s", scenario="hist", params=T(cfg=3, oflt=1021, nest=0), quick=T(depth=3, faults=1), thorough=T(depth=4, faults=2), budget=900),
    T(bin="c20c", scenario="mt", params=T(model=1), quick=T(pb=2), thorough=T(pb=3), budget=900),
    T(bin="c20c", scenario="mt", params=T(model=1, stage=1), quick=T(pb=2), thorough=T(pb=3), budget=900),
    T(bin="c20c", scenario="mt", params=T(model=1, stage=1, cfg=1), quick=T(pb=1), thorough=T(pb=2), budget=900),
    T(bin="c20c", scenario="mt", params=T(model=1, threads=3), quick=T(pb=1), thorough=T(pb=2), budget=900)])
HARNESS["c23s"] = T(harness="c23_scalable.cpp", variant="asan", wraps=TBB_WRAPS)
HARNESS["c23c"] = T(harness="c23_scalable.cpp", variant="tsan", wraps=TBB_WRAPS)
CHECKS["C23"] = T(level="model_checking", technique=SEQ + "; " + CONC,
  note="Histories of every allocation call over one or two pools and one or two threads run against the installed TBB allocator, and against a model of its interface that asks the provider for each block; live blocks are compared with a reference list "
       "(contents, usable size, place, owner) after each step and provider calls are recorded. The model also answers the loading of the library, so that every missing library or symbol and concurrent first uses are covered.",
  bounds="5 parameter sets x 16 requests depth 3 (4), 5 requests depth 5 (6); 2 threads x 2 pools depth 3 with two refusals; 24 impossible requests; library answers over 3-4 library life times; 2-3 threads, 2 (3) preemptions",
  runs=[
    T(bin="c23s", scenario="odd"),
    T(bin="c23s", scenario="odd", params=T(model=1)),
    T(bin="c23s", scenario="load"),
    T(bin="c23s", scenario="hist", quick=T(depth=3), thorough=T(depth=4), budget=900),
    T(bin="c23s", scenario="hist", params=T(cfg=1), quick=T(depth=3), thorough=T(depth=5), budget=900),
    T(bin="c23s", scenario="hist", params=T(small=1), quick=T(depth=5), thorough=T(depth=6), budget=900),
    T(bin="c23s", scenario="hist", params=T(small=1, drain=0), quick=T(depth=4), thorough=T(depth=5), budget=900),
    T(bin="c23s", scenario="hist", params=T(small=1, flt=1, threads=2, faults=1), quick=T(depth=3), thorough=T(depth=4), budget=900),
    T(bin="c23s", scenario="hist", params=T(small=1, flt=1, threads=2, pools=2), quick=T(depth=3, faults=1), thorough=T(depth=3, faults=2), budget=900),
    T(bin="c23s", scenario="hist", params=T(flt=1), quick=T(depth=2, faults=1), thorough=T(depth=3, faults=2), budget=900),
    T(bin="c23s", scenario="hist", params=T(mflt=1), quick=T(depth=2, faults=1), thorough=T(depth=3, faults=1), budget=900),
    T(bin="c23s", scenario="hist", params=T(model=1), quick=T(depth=3), thorough=T(depth=4), budget=900),
    T(bin="c23s", scenario="hist", params=T(model=1, mflt=1, mcreate=1), quick=T(depth=2, faults=1), thorough=T(depth=2, faults=2), budget=900),
    T(bin="c23s", scenario="hist", params=T(model=1, flt=3, small=1), quick=T(depth=3, faults=1), thorough=T(depth=4, faults=2), budget=900),
    T(bin="c23s", scenario="hist", params=T(model=1, flt=1, small=1, threads=2, cfg=1), quick=T(depth=3, faults=2), thorough=T(depth=4, faults=2), budget=900),
    T(bin="c23c", scenario="mt", quick=T(pb=2), thorough=T(pb=3), budget=900),
    T(bin="c23c", scenario="mt", params=T(faults=1), quick=T(pb=2), thorough=T(pb=3), budget=900),
    T(bin="c23c", scenario="mt", params=T(threads=3), quick=T(pb=1), thorough=T(pb=2), budget=900)])

ZE_WRAPS = TBB_WRAPS + ("utils_getpid", "utils_duplicate_fd", "utils_close_fd")
HARNESS["c09"] = T(harness="c09_faults.cpp", variant="asan", wraps=OS_WRAPS + TBB_WRAPS)
HARNESS["c24s"] = T(harness="c24_ze.cpp", variant="asan", wraps=ZE_WRAPS)
HARNESS["c24c"] = T(harness="c24_ze.cpp", variant="tsan", wraps=ZE_WRAPS)
CHECKS["C24"] = T(level="model_checking", technique=SEQ + "; " + CONC,
  note="The provider runs over a model of the Level Zero run time loaded through the library's own loader: every call is checked (context, descriptors, device, sizes, handles), recorded and can be refused with four codes; "
       "after each step the run time's allocations, residency, exported and opened handles, descriptors and the answers given to the caller are compared with a reference list. Missing libraries and entry points are enumerated over several library life times.",
  bounds="360 parameter combinations, each with two refused calls or failed metadata allocations; 6 configurations x 30 size/alignment pairs depth 2 (3); 3 kinds with export/put/open/close depth 5 (6), with one refusal depth 4 (5), two refusals depth 4; "
         "two providers depth 4; 14 library answers x 3 policies over 2 (3) life times; 2-3 threads, 2 (3) preemptions, up to two refusals",
  runs=[T(bin="c24s", scenario="create", params=T(flt=1), quick=T(faults=2), thorough=T(faults=3)),
    T(bin="c24s", scenario="create", params=T(mflt=1), quick=T(faults=2), thorough=T(faults=2)),
    T(bin="c24s", scenario="load", quick=T(eras=2), thorough=T(eras=3))] +
   [T(bin="c24s", scenario="hist", params=T(cfg=c, full=1, flt=1, codes=4), quick=T(depth=2, faults=1), thorough=T(depth=3, faults=1), budget=900) for c in (0, 1, 2)] +
   [T(bin="c24s", scenario="hist", params=T(cfg=c), quick=T(depth=4 if c else 5), thorough=T(depth=6), budget=900) for c in range(6)] +
   [T(bin="c24s", scenario="hist", params=T(cfg=c, flt=1), quick=T(depth=4, faults=1), thorough=T(depth=5, faults=2), budget=900) for c in (0, 1, 2)] + [
    T(bin="c24s", scenario="hist", params=T(cfg=5, noput=1, flt=1), quick=T(depth=4, faults=1), thorough=T(depth=5, faults=1), budget=900),
    T(bin="c24s", scenario="hist", params=T(cfg=2, provs=2, flt=1), quick=T(depth=3, faults=1), thorough=T(depth=5, faults=1), budget=900),
    T(bin="c24c", scenario="mt", quick=T(pb=2), thorough=T(pb=4)),
    T(bin="c24c", scenario="mt", params=T(faults=1), quick=T(pb=2), thorough=T(pb=3)),
    T(bin="c24c", scenario="mt", params=T(shared=1, faults=1), quick=T(pb=2), thorough=T(pb=4)),
    T(bin="c24c", scenario="mt", params=T(shared=1, faults=2), quick=T(pb=1), thorough=T(pb=2)),
    T(bin="c24c", scenario="mt", params=T(threads=3, faults=1), quick=T(pb=1), thorough=T(pb=2), budget=900)])
CU_DEFS = ("-UUMF_NO_CUDA_PROVIDER", "-I" + VERIF + "/harness/stub")
HARNESS["c26s"] = T(harness="c26_cuda.cpp", variant="asan", wraps=TBB_WRAPS, defs=CU_DEFS)
HARNESS["c26c"] = T(harness="c26_cuda.cpp", variant="tsan", wraps=TBB_WRAPS, defs=CU_DEFS)
CHECKS["C26"] = T(level="model_checking", technique=SEQ + "; " + CONC,
  note="The provider, which the repository's own build leaves out here, is compiled against a declaration of the driver interface and runs over a model of the driver loaded through the library's own loader: every call is checked "
       "(current context, kind, flags, size, device, handle), recorded and can be refused; after each step the driver's allocations, opened handles and current context and the answers given to the caller are compared with a reference.",
  bounds="180 parameter combinations, each with up to two refused calls (6 codes) or failed metadata allocations; 3 kinds x 28 size/alignment pairs depth 2 (3) with a refusal of 6 codes; 5 configurations with export/put/open/close, changes of the caller's context "
         "and of block placement depth 5 (6), with one (two) refusals depth 4; two providers depth 3 (4); 16 library answers over 2 (3) life times; 2-3 threads, 2 (4) preemptions, up to two refusals",
  runs=[T(bin="c26s", scenario="create", params=T(flt=1), quick=T(faults=2), thorough=T(faults=3)),
    T(bin="c26s", scenario="create", params=T(mflt=1), quick=T(faults=2), thorough=T(faults=2)),
    T(bin="c26s", scenario="load", quick=T(eras=2), thorough=T(eras=3))] +
   [T(bin="c26s", scenario="hist", params=T(cfg=c, full=1, flt=1, codes=6), quick=T(depth=2, faults=1), thorough=T(depth=2, faults=2), budget=900) for c in (0, 1, 2)] +
   [T(bin="c26s", scenario="hist", params=T(cfg=c), quick=T(depth=5), thorough=T(depth=6), budget=900) for c in range(5)] +
   [T(bin="c26s", scenario="hist", params=T(cfg=c, flt=1), quick=T(depth=4 if c < 3 else 3, faults=1), thorough=T(depth=4, faults=2), budget=900) for c in range(5)] + [
    T(bin="c26s", scenario="hist", params=T(cfg=2, longmsg=1, flt=1), quick=T(depth=1, faults=1), thorough=T(depth=2, faults=1)),
    T(bin="c26s", scenario="hist", params=T(cfg=2, provs=2, flt=1), quick=T(depth=3, faults=1), thorough=T(depth=4, faults=1), budget=900),
    T(bin="c26c", scenario="mt", quick=T(pb=2), thorough=T(pb=4)),
    T(bin="c26c", scenario="mt", params=T(flt=1, faults=1), quick=T(pb=2), thorough=T(pb=3)),
    T(bin="c26c", scenario="mt", params=T(shared=1, flt=1, faults=1), quick=T(pb=2), thorough=T(pb=4)),
    T(bin="c26c", scenario="mt", params=T(shared=1, flt=1, faults=2), quick=T(pb=1), thorough=T(pb=2)),
    T(bin="c26c", scenario="mt", params=T(threads=3, flt=1, faults=1), quick=T(pb=1), thorough=T(pb=2), budget=900)])
CHECKS["C09"] = T(level="fault_enumeration", technique=SEQ + " with every single refusal (thorough: every pair) at every place",
  rule="a fault is one refused internal allocation, internal pool, lock initialisation, system or hwloc call, TBB or GPU run-time call or provider callback; every place at which a program or history "
       "of the given depth reaches one of these is refused once (every pair of places where faults=2), after which the call must report the failure, hold nothing it did not hold before, leave older objects "
       "working, and succeed when repeated",
  note="Ten programs (78-130 calls in total order) create, use and destroy every kind of provider, parameter object, pool, handle, memory space, target and policy next to an older pool, with resources compared after each call with the same "
       "program run without failures; in addition the histories of the other checks run with failures enumerated.",
  bounds="10 programs + 3 variants, every single fault place (pairs in thorough); histories of the component harnesses at depth 1-3 (2-4) with one fault, creation scenarios of providers with one (two)",
  runs=[
    T(bin="c09", scenario="prog", params=T(faults=1)),
    T(bin="c09", scenario="prog", params=T(prog=1, shm=1, faults=1)),
    T(bin="c09", scenario="prog", params=T(prog=7, model=0, faults=1)),
    T(bin="c09", scenario="prog", params=T(xmask=3445, faults=2), tiers=("thorough",), budget=900),
    T(bin="c01s", scenario="hist", params=T(orc=4, faults=1, alpha=1), quick=T(depth=4), thorough=T(depth=5)),
    T(bin="c05", scenario="owners", params=T(faults=1), quick=T(depth=3), thorough=T(depth=4)),
    T(bin="c05", scenario="split", params=T(alpha=1, faults=1, nest=1), quick=T(depth=2), thorough=T(depth=3)),
    T(bin="c08", scenario="hist", params=T(alpha=2, flt=1), quick=T(depth=3), thorough=T(depth=4), budget=900),
    T(bin="c10", scenario="hist", params=T(flt=1), quick=T(depth=3), thorough=T(depth=4), budget=900),
    T(bin="c13s", scenario="seq", params=T(faults=1), quick=T(depth=2), thorough=T(depth=3)),
    T(bin="c14s", scenario="create", params=T(oflt=1023, mflt=1, faults=1), thorough=T(faults=2)),
    T(bin="c15s", scenario="create", params=T(oflt=4095, mflt=1, faults=1), thorough=T(faults=2)),
    T(bin="c16s", scenario="create", params=T(oflt=4095, mflt=1, faults=1), thorough=T(faults=2)),
    T(bin="c16s", scenario="place", params=T(oflt=4095, mflt=1, faults=1), quick=T(depth=1), thorough=T(depth=2)),
    T(bin="c17s", scenario="hist", params=T(mflt=1, faults=1), quick=T(depth=2), thorough=T(depth=3)),
    T(bin="c17s", scenario="predef", params=T(what=1, nodes=2, oflt=128, mflt=1, faults=1)),
    T(bin="c18s", scenario="public", params=T(faults=1), quick=T(depth=2), thorough=T(depth=3)),
    T(bin="c19s", scenario="create", params=T(faults=1), thorough=T(faults=2)),
    T(bin="c21", scenario="hist", params=T(faults=1), quick=T(depth=4, keys=4), thorough=T(depth=5, keys=5)),
    T(bin="c22s", scenario="seq", params=T(mflt=1, faults=1), quick=T(depth=3), thorough=T(depth=4, faults=2)),
    T(bin="c23s", scenario="hist", params=T(model=1, mflt=1, mcreate=1), quick=T(depth=2, faults=1), thorough=T(depth=2, faults=2)),
    T(bin="c24s", scenario="create", params=T(flt=1), quick=T(faults=1), thorough=T(faults=2)),
    T(bin="c24s", scenario="create", params=T(mflt=1), quick=T(faults=1), thorough=T(faults=2)),
  ] + [T(bin="c15s", scenario="hist", params=T(alpha=1, mode=m, oflt=4095, mflt=1, faults=1), quick=T(depth=2), thorough=T(depth=3), budget=900) for m in range(4)])
