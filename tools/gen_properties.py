#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "Disjoint pool: live blocks are aligned, large enough and never overlap",
  "For every sequence of allocate, aligned-allocate and free calls on a disjoint pool, in any accepted configuration, every non-null block returned is aligned as requested, lies wholly inside memory the pool currently holds from its provider, offers at least the requested number of usable bytes, and shares no byte with any other live block. Reported usable size never reaches into another live block, the contents of a live block are changed by no pool operation on other blocks, and freeing a live block (or null) succeeds. An unsupported or invalid request returns null with the matching last error and changes nothing else.",
  ["histories", "configurations", "inputs"],
  "all operation sequences up to a depth over a small alphabet of sizes/alignments straddling every bucket and slab boundary, all enumerated pool configurations and provider address layouts",
  "Tests run a few fixed sequences on default-like parameters; the slab/bucket arithmetic depends on the joint choice of slab size, bucket size, alignment, provider page size and prior history.",
  ["src/pool/pool_disjoint.c", "src/pool/pool_disjoint_internal.h", "src/critnib/critnib.c"],
  [("size to bucket mapping", "src/pool/pool_disjoint.c: size_to_idx, disjoint_pool_find_bucket"),
   ("chunk bitmap per slab", "src/pool/pool_disjoint.c: slab_get_chunk, slab_free_chunk"),
   ("pointer to slab lookup", "src/pool/pool_disjoint.c: disjoint_pool_free, disjoint_pool_malloc_usable_size")],
  [("known_slabs", "address to slab map", "pool_disjoint_internal.h"), ("available/unavailable slab lists", "per bucket", "pool_disjoint_internal.h")],
  ["umfPoolMalloc/AlignedMalloc/MallocUsableSize/Free", "upstream provider alloc/free callbacks"])

p("C02", "Disjoint pool: safe and live under every thread interleaving",
  "When several threads allocate and free on one disjoint pool concurrently, in every interleaving each call completes (no deadlock, no livelock), each returned block satisfies the same guarantees as in single-threaded use (exclusive, aligned, within provider memory), and each free of a live block succeeds, including blocks allocated by another thread. Memory is never touched by the pool after it was given back to the provider or to the internal allocator, and after all frees and pool destruction the provider has received back everything.",
  ["schedules"],
  "all interleavings of 2-3 threads with 1-3 pool calls each up to a preemption bound, on the real code",
  "The multithreaded tests let the OS pick a handful of schedules; lock hand-off windows in slab free/reuse/limit accounting need a particular preemption.",
  ["src/pool/pool_disjoint.c", "src/provider/provider_tracking.c", "src/critnib/critnib.c"],
  [("bucket lock", "src/pool/pool_disjoint.c: bucket_lock"), ("slab map", "src/critnib/critnib.c"),
   ("shared limits counter", "src/pool/pool_disjoint.c: bucket_can_pool")],
  observe=["umfPool* calls", "upstream provider callbacks"])

p("C03", "Disjoint pool: pooled idle memory respects its limits and is reused",
  "For every history, the idle memory a disjoint pool keeps (provider memory with no live block in it) never exceeds, per size class, its allowance of slabs (one slab for classes of at most half the slab size, the configured capacity for larger ones), and, summed over all pools attached to one shared-limits object, never exceeds that object's maximum; requests above the maximum poolable size go straight to the provider and are handed back on free. A request whose size class still has a free chunk or a pooled slab is served without asking the provider for memory, and destroying a pool restores the shared budget it was using.",
  ["histories", "configurations"],
  "all operation sequences up to a depth over 1-2 pools sharing limits, all enumerated (capacity, max poolable, slab size, shared limit) settings",
  "Tests check a few capacities on straight-line sequences; drift of the counters shows only after particular alternations of full, empty and pooled slabs across pools.",
  ["src/pool/pool_disjoint.c"],
  [("capacity check", "src/pool/pool_disjoint.c: bucket_can_pool, bucket_decrement_pool"),
   ("shared limits", "src/pool/pool_disjoint.c: umfDisjointPoolSharedLimitsCreate, bucket_update_stats")],
  [("total_size", "bytes pooled under shared limits", "pool_disjoint_internal.h")],
  ["upstream provider alloc/free callbacks"])

p("C04", "Pools return to the provider exactly what they took from it",
  "For every history of calls on a disjoint, proxy or scalable pool (including failing ones) every free a pool issues to its provider names exactly one outstanding provider allocation with its exact address and size, and once the pool is destroyed nothing it took is still outstanding. If a provider allocation fails, the pool call returns null with an out-of-memory style last error, all earlier live blocks stay valid, and the pool keeps working when the provider recovers.",
  ["histories", "fault_sequences", "configurations"],
  "all call sequences up to a depth combined with every placement of up to two provider failures (allocation or free)",
  "Tests use a provider that fails always or never; partial failure in the middle of a history is not sampled.",
  ["src/pool/pool_disjoint.c", "src/pool/pool_proxy.c", "src/pool/pool_scalable.c", "src/memory_pool.c", "src/provider/provider_tracking.c"],
  [("slab creation error path", "src/pool/pool_disjoint.c: create_slab, bucket_create_slab"),
   ("tracking wrapper", "src/provider/provider_tracking.c: trackingAlloc, trackingFree"),
   ("pool destruction", "src/memory_pool.c: umfPoolDestroy")],
  observe=["upstream provider alloc/free callbacks", "umfPoolGetLastAllocationError"])

p("C05", "Owner lookup resolves every live pointer to its pool and allocation",
  "After every history of provider-level allocations and frees performed by pools (several pools over independent providers, and pools stacked on top of memory obtained from other pools), looking up any address inside a live allocation yields the innermost pool that owns it and the exact base and size of its allocation for inter-process sharing, while any address outside all live tracked allocations resolves to no pool. Freeing through the address-only free call releases the block from its owning pool.",
  ["histories", "configurations"],
  "all allocation/free sequences up to a depth on 1-3 pools incl. nested pools, querying first/interior/last/one-past-end address of every region after each step",
  "Tests look up a few pointers after simple allocations; wrong answers need specific adjacency, nesting and removal orders.",
  ["src/provider/provider_tracking.c", "src/critnib/critnib.c", "src/memory_pool.c"],
  [("tracker add/remove with nesting levels", "src/provider/provider_tracking.c: umfMemoryTrackerAdd, umfMemoryTrackerRemove"),
   ("lookup", "src/provider/provider_tracking.c: umfMemoryTrackerGetPool, umfMemoryTrackerGetAllocInfo")],
  observe=["umfPoolByPtr", "umfFree", "umfGetIPCHandle"])

p("C06", "Owner lookup is correct under concurrent allocation and free",
  "In every interleaving of threads that allocate, free and look up, a lookup of an address inside an allocation that is live for the whole lookup returns its owning pool (the innermost one when pools are stacked), no matter which other regions, adjacent or nested, are concurrently added or removed. No interleaving crashes, loses or resurrects an entry, or reads released bookkeeping memory, and afterwards lookups agree with the surviving allocations.",
  ["schedules"],
  "all interleavings of 2-3 threads with 1-3 operations each up to a preemption bound",
  "Lookups are lock-free; the windows are a few instructions wide and schedules are chosen by the OS in tests.",
  ["src/provider/provider_tracking.c", "src/critnib/critnib.c"],
  [("lock-free find", "src/critnib/critnib.c: critnib_find, critnib_find_le"), ("tracker", "src/provider/provider_tracking.c")],
  observe=["umfPoolByPtr"])

p("C07", "Splitting and merging tracked allocations keeps bookkeeping exact",
  "For every history of provider allocations, splits, merges and frees issued by a pool, a successful split leaves exactly two allocations and a successful merge exactly one, with lookups of every byte returning the right pool, base and size, and every later free, split or merge of those pieces is accepted exactly when it matches them. A split or merge with inconsistent arguments, of pieces from different pools, of memory in which another pool has live allocations, or one the provider refuses, fails and leaves the allocations as they were, both in the library's bookkeeping and at the provider.",
  ["histories", "fault_sequences", "inputs"],
  "all sequences up to a depth of alloc/split/merge/free with valid and invalid arguments, with every single provider refusal and metadata-allocation failure injected",
  "Split/merge is exercised by tests only along the happy path of one provider.",
  ["src/provider/provider_tracking.c", "src/memory_provider.c"],
  [("split", "src/provider/provider_tracking.c: trackingAllocationSplit"), ("merge", "src/provider/provider_tracking.c: trackingAllocationMerge"),
   ("argument checks", "src/memory_provider.c: umfMemoryProviderAllocationSplit/Merge")],
  observe=["umfMemoryProviderAllocationSplit/Merge/Free on the provider handle a pool receives", "umfPoolByPtr"])

p("C08", "Region allocator: blocks tile the region, and free space always coalesces",
  "For every history of alloc, free, split, merge and add-memory on the region allocator (and on the fixed-memory provider built on it), under each search strategy, live blocks are aligned as requested, disjoint and inside the region, every byte of the region is either in exactly one live block or free, and the reported used, total and block counts match. A valid request fails only if no free extent is as large as its size plus its alignment (at least a page); freed neighbours become usable as one extent, and zero-sized or otherwise invalid requests, wrong sizes, unknown addresses and refusals of the underlying provider fail without changing anything.",
  ["histories", "configurations", "fault_sequences"],
  "all operation sequences up to a depth over page-granular sizes and alignments, 3 strategies, region shapes, with up to one failure of a callback or of metadata allocation",
  "Tests sample specific sequences and a random loop; coalescing and alignment splitting depend on the whole history.",
  ["src/coarse/coarse.c", "src/ravl/ravl.c", "src/provider/provider_fixed_memory.c", "src/provider/provider_devdax_memory.c", "src/provider/provider_file_memory.c"],
  [("block split/align", "src/coarse/coarse.c: create_aligned_block, split_current_block, coarse_alloc"),
   ("coalescing", "src/coarse/coarse.c: free_block_merge_with_prev/next"), ("split/merge", "src/coarse/coarse.c: coarse_split, coarse_merge")],
  observe=["coarse_* interface", "umfMemoryProviderAlloc/Free on a fixed provider"])

p("C09", "Any internal or upstream failure is reported cleanly and leaks nothing",
  "If any single internal metadata allocation, operating-system mapping, lock initialisation or provider callback fails during creation, use or destruction of providers, pools, parameter objects, memory spaces or targets, the affected call returns an error code or null (never success with an unusable object) without crashing. Objects that existed before keep working, nothing acquired by the failed call remains held, and repeating the call without the failure succeeds (for what the library builds once per start-up, such as the predefined memory spaces: after a restart).",
  ["fault_sequences", "programs"],
  "for each scenario program, every position k of the k-th failing resource request (all single faults, and pairs at the thorough tier)",
  "Tests never fail internal allocations, so the error paths are not executed at all.",
  ["src/memory_pool.c", "src/memory_provider.c", "src/provider/provider_tracking.c", "src/provider/provider_os_memory.c", "src/provider/provider_file_memory.c", "src/provider/provider_fixed_memory.c", "src/pool/pool_disjoint.c", "src/pool/pool_scalable.c", "src/memspace.c", "src/memtarget.c", "src/base_alloc/base_alloc_global.c", "src/ipc.c", "src/ipc_cache.c"],
  [("error unwinding in create functions", "umfPoolCreateInternal, umfMemoryProviderCreate, *_initialize")],
  observe=["return codes", "balance of metadata allocations, mappings, descriptors and provider allocations"])

p("C10", "Shared memory handles: open yields the exporter's bytes until closed",
  "For every history of getting, putting, opening and closing inter-process handles, opening a handle gives a pointer at the same offset in a mapping of exactly the allocation it was taken from; the mapping stays usable until the last matching close, and is opened from and released to the provider that belongs to the handler used. A stale mapping is never returned for memory that was freed and allocated again, opening a further mapping while the configured maximum are cached first releases the least recently used idle one, if any, every cached or open mapping is released exactly once by the end, and any provider failure is reported without leaving a half-open entry.",
  ["histories", "configurations", "fault_sequences"],
  "all get/put/open/close/free/re-allocate sequences up to a depth over 2 pools and 2-3 allocations, cache limits 0..2 and unlimited, with up to one provider IPC failure",
  "IPC tests run one open/close per handle; cache eviction and identity confusion need longer mixed histories.",
  ["src/ipc.c", "src/ipc_cache.c", "src/provider/provider_tracking.c"],
  [("handle cache on get", "src/provider/provider_tracking.c: trackingGetIpcHandle, trackingFree"),
   ("opened-handle cache", "src/ipc_cache.c: umfIpcOpenedCacheGet, umfIpcHandleMappedCacheRelease"), ("offset", "src/ipc.c: umfOpenIPCHandle")],
  observe=["umf*IPCHandle API", "provider ipc callbacks"])

p("C11", "Shared memory handles stay consistent under concurrent use",
  "In every interleaving of threads that concurrently get, put, open and close handles (for the same or different allocations and under a small cache limit), each successful open returns a correctly offset pointer into a mapping that stays open until that opener closes it, concurrent opens of one allocation share one mapping, and every mapping is closed exactly once on the provider that opened it. No interleaving deadlocks, crashes, or leaves a mapping or a provider handle unreleased at the end.",
  ["schedules"],
  "all interleavings of 2-3 threads with 1-2 IPC calls each up to a preemption bound",
  "The concurrent IPC tests run barriers-and-hope loops on one cache configuration.",
  ["src/ipc.c", "src/ipc_cache.c", "src/provider/provider_tracking.c"],
  [("reference count and LRU", "src/ipc_cache.c"), ("mmap lock", "src/provider/provider_tracking.c: trackingOpenIpcHandle")],
  observe=["umf*IPCHandle API", "provider ipc callbacks"])

p("C12", "Internal metadata allocator hands out exclusive, aligned memory",
  "For every sequence of allocations and frees of any size and power-of-two alignment, the library's own metadata allocators (the size-class one, the fixed-size pool and the start-up linear one) return blocks that are aligned (at least 8 bytes, or as requested), disjoint, inside memory obtained from the operating system and with usable size at least the request, and freed memory becomes reusable. This also holds in every interleaving of concurrent callers; a refused operating-system mapping yields null and nothing else; destruction returns every mapping with its exact address and size.",
  ["histories", "schedules", "inputs", "fault_sequences"],
  "all alloc/free sequences up to a depth over sizes around every size-class boundary and alignments 1..page, pool growth boundaries, 2-3 thread interleavings, each failing mapping",
  "Tests allocate in bulk with random or fixed sizes and never fail the OS.",
  ["src/base_alloc/base_alloc.c", "src/base_alloc/base_alloc_global.c", "src/base_alloc/base_alloc_linear.c", "src/base_alloc/base_alloc_linux.c"],
  [("free list and chunk growth", "src/base_alloc/base_alloc.c"), ("size classes and metadata word", "src/base_alloc/base_alloc_global.c"), ("linear pools", "src/base_alloc/base_alloc_linear.c")],
  observe=["umf_ba_* entry points", "mmap/munmap"])

p("C13", "Address index behaves as an ordered map, atomically for all threads",
  "For every sequence of insert, update, remove, exact, less, less-or-equal, greater, greater-or-equal searches and range iterations over machine-word keys, the address index answers exactly like an ordered map, and a failed insertion (duplicate or out of memory) changes nothing. In every interleaving of concurrent callers each insert, update, remove and exact search takes effect atomically, while an ordered search returns an entry that was present at some moment of the call and is never farther from the probe than an entry present during the whole call.",
  ["histories", "schedules", "inputs"],
  "all operation sequences up to a depth over key sets chosen to collide at every level of the tree (low nibble, middle, top bit, 0 and max), and all interleavings of 2-3 threads up to a preemption bound checked for linearizability (exact operations) and the interval guarantee (ordered searches)",
  "Tests use random keys with an oracle, sequentially, and a timing-based threaded stress.",
  ["src/critnib/critnib.c"],
  [("descent and fallback", "src/critnib/critnib.c: find_le, find_ge, find_predecessor, find_successor"), ("reader validation against removals", "src/critnib/critnib.c: remove_count checks")],
  observe=["critnib_* interface"])

p("C14", "System-memory provider: mappings, alignment and sharing are exact",
  "For every history of alloc, free, split, merge and purge on a system-memory provider in private or shared mode, each success returns at least the requested bytes at the requested alignment, page aligned, readable and writable as configured, overlapping nothing else; freeing or splitting never touches pages outside the named block; and when the last block is freed no address space, descriptor or bookkeeping of the provider remains after destruction. In shared mode an exported block opened again shows exactly the bytes of that block. A satisfiable request fails only when a system call is refused, which yields a provider error with a retrievable message and no leaked mapping; the statistics report the live bytes and their peak.",
  ["histories", "configurations", "fault_sequences", "inputs"],
  "all alloc/free/split/merge/export sequences up to a depth over sizes (sub-page, page, multi-page) and alignments (0, 8, page, 2..16 pages), each visibility mode, each failing system call",
  "Tests allocate one block at a time with page alignment; shared-mode offset accounting and alignment trimming interact across a history.",
  ["src/provider/provider_os_memory.c", "src/utils/utils_linux_common.c", "src/utils/utils_posix_common.c"],
  [("aligned mapping and trimming", "src/provider/provider_os_memory.c: os_mmap_aligned"), ("fd offsets", "src/provider/provider_os_memory.c: os_alloc, os_get_ipc_handle, os_allocation_split"), ("error codes", "src/provider/provider_os_memory.c: os_get_last_native_error")],
  observe=["umfMemoryProvider* API", "mmap/munmap/ftruncate calls"])

p("C15", "File and DAX providers: blocks stay inside the file and map its own bytes",
  "For every history of allocations with any accepted size and alignment on a file-backed or DAX-backed provider, each returned block is aligned, disjoint from other live blocks and wholly backed by a mapping the provider holds over its file, and writes are visible at one file range used by no other live block. An exported block opened elsewhere shows the block's own bytes, sizes or alignments that cannot be satisfied fail cleanly (with an error only the failing thread is told), an unusable path or file fails creation with an error, and destruction unmaps and closes everything.",
  ["histories", "configurations", "inputs", "fault_sequences"],
  "all alloc/free sequences up to a depth over sizes and alignments around the page size and the provider's internal growth granularity, private and shared visibility, each failing system call",
  "Tests allocate a few uniform blocks; offset arithmetic goes wrong only for mixes of sizes and alignments.",
  ["src/provider/provider_file_memory.c", "src/provider/provider_devdax_memory.c", "src/coarse/coarse.c"],
  [("offset allocation", "src/provider/provider_file_memory.c: file_alloc_aligned, file_mmap_aligned"), ("ipc offset", "src/provider/provider_file_memory.c: file_get_ipc_handle")],
  observe=["umfMemoryProvider* API", "file contents"])

p("C16", "NUMA placement: every page gets the binding the configuration asks for",
  "For every accepted combination of NUMA mode, node list, partition weights and part size, and every history of allocations, the system-memory provider binds every page of each block exactly once, to nodes as configured: the given node set (bind, preferred, interleave), no node in particular (local: wherever the using thread runs), or a repeating or weighted division of the block over the listed nodes (interleave with part size, whose cycle goes on from block to block; split). Invalid combinations are rejected at creation, and a refused binding fails the allocation without leaking it.",
  ["configurations", "histories", "inputs"],
  "all combinations of mode, node list, weights, part size and block size/alignment over small domains on a modelled topology, for allocation sequences up to a depth",
  "Test machines have one or two nodes, and placement tests are skipped there; arithmetic over partitions is not enumerated.",
  ["src/provider/provider_os_memory.c"],
  [("partition bookkeeping", "src/provider/provider_os_memory.c: initializePartitions, getBindingPolicy, membind"), ("parameter translation", "src/provider/provider_os_memory.c: translate_params")],
  observe=["hwloc_set_area_membind calls"])

p("C17", "Memory spaces and targets select and order NUMA nodes as documented",
  "On every machine topology, the predefined memory spaces are as documented: every node; every node in descending order of capacity; and, for each initiator node, a node of highest bandwidth (lowest latency) among those next to the initiator's processors, and nothing else (no space where the machine does not report the values). User-made spaces reflect every history of create, clone, add, remove and filter calls, adding a present or removing an absent node is refused, and a failed call leaves the space unchanged. Capacity, id and type queries on a target report the machine's values for that physical node, and a provider made from a space binds its memory to exactly the nodes of that space (for the predefined highest-capacity space: the first) as the policy asks.",
  ["configurations", "histories", "fault_sequences"],
  "all topologies with up to 4 nodes (contiguous and non-contiguous numbering), all small capacity/bandwidth/latency matrices incl. missing attributes, all add/remove/filter sequences up to a depth",
  "Tests see only the build machine's topology (usually one node).",
  ["src/memspace.c", "src/memtarget.c", "src/memtargets/memtarget_numa.c", "src/memspaces/memspace_host_all.c", "src/memspaces/memspace_highest_capacity.c", "src/memspaces/memspace_highest_bandwidth.c", "src/memspaces/memspace_lowest_latency.c", "src/memspaces/memspace_numa.c"],
  [("filters", "src/memspace.c: umfMemspaceFilter, umfMemspaceSortDesc"), ("attribute queries", "src/memtargets/memtarget_numa.c: query_attribute_value, numa_compare")],
  observe=["umfMemspace*, umfMemtarget* API"])

p("C18", "Control queries reach exactly the named entry or fail without effect",
  "For every dotted query name (well formed or not, any length, any index) and every tree of registered entries, a read, write or run query invokes exactly the one matching handler that supports that kind of query, with the right context, argument, parsed indexes and query kind, and returns its result; any other name fails with an error and invokes nothing. Configuration text applies its assignments in order, converting well-formed boolean, integer and string arguments exactly, and stops with an error at the first malformed item or, when loaded for a given object, at the first one that fails; nothing crashes or leaks.",
  ["inputs", "histories"],
  "all names up to a length over an alphabet of path tokens (leaf, inner, indexed, unknown, empty, numeric, over-long) for trees covering each node kind, all config strings up to a length over a token alphabet",
  "Tests query a handful of well-formed names.",
  ["src/ctl/ctl.c", "src/libumf.c", "src/memory_pool.c", "src/memory_provider.c"],
  [("tree walk", "src/ctl/ctl.c: ctl_find_node, ctl_query"), ("config parser", "src/ctl/ctl.c: ctl_load_config, ctl_parse_query"), ("argument conversion", "src/ctl/ctl.c: ctl_arg_*")],
  observe=["umfCtlGet/Set/Exec", "ctl_query, ctl_load_config_from_string"])

p("C19", "Calls reach the right pool or provider; failures are attributed per thread",
  "Every public pool or provider call that returns a result validates its arguments (a refused call reaches no callback) and is forwarded, with arguments, results and error codes intact, to exactly one callback of the object addressed; provider callbacks that are optional and absent report not-supported, missing mandatory ones or inconsistent optional sets are rejected at creation of the provider. After a failing provider call the calling thread's last-failed provider is that provider, unaffected by other threads and by successful calls, and the native error or last allocation error it is told is that of its own latest failure; creation and destruction invoke initialise and finalise exactly once, and an owned provider is destroyed with its pool exactly when asked.",
  ["programs", "inputs", "configurations", "schedules"],
  "all operation tables with every subset of optional callbacks present, all public calls with valid and invalid arguments, every callback result code, creation flag combinations, two-thread schedules for failure attribution",
  "Tests check a few calls with a null or trace provider.",
  ["src/memory_provider.c", "src/memory_pool.c", "src/memory_provider_get_last_failed.c", "src/pool/pool_proxy.c"],
  [("default/validated ops", "src/memory_provider.c: assignOpsExtDefaults, validateOps"), ("error mapping", "src/memory_provider.c: checkErrorAndSetLastProvider"), ("pool creation flags", "src/memory_pool.c: umfPoolCreateInternal")],
  observe=["umfMemoryProvider*, umfPool* API", "callbacks of test ops"])

p("C20", "Proxy library: malloc family behaves per the C standard at every moment",
  "For every sequence of malloc, calloc, realloc, aligned_alloc, malloc_usable_size and free calls through the preloaded proxy library, from any number of threads, before, during and after its own start-up, after its destructor and from inside UMF itself, returned blocks are suitably aligned (16 bytes, or the alignment asked for), large enough, disjoint, zeroed for calloc and content-preserving for realloc (blocks handed out before start-up may report the usable size 0); a request that cannot be met, including one whose size overflows or for which the system refuses memory, returns null and changes nothing. Pointers obtained at any stage, or from the system allocator through the size threshold (which serves exactly the requests below it), can be resized, queried and freed at any later stage, each by the allocator it came from, and freed blocks are given back to it.",
  ["histories", "configurations", "inputs"],
  "all call sequences up to a depth over boundary sizes/alignments in each library stage and with/without size threshold",
  "Tests exercise a couple of calls after start-up only.",
  ["src/proxy_lib/proxy_lib.c", "src/base_alloc/base_alloc_linear.c", "src/pool/pool_scalable.c"],
  [("stage dispatch", "src/proxy_lib/proxy_lib.c: malloc, free, realloc, malloc_usable_size"), ("leak allocator", "src/proxy_lib/proxy_lib.c: ba_leak_*"), ("size threshold", "src/proxy_lib/proxy_lib.c: system_*")],
  observe=["malloc-family entry points"])

p("C21", "Balanced search tree keeps order, content and logarithmic shape",
  "For every sequence of insertions and removals, the ordered tree used for block bookkeeping contains exactly the inserted and not removed elements in order; exact, next-smaller and next-larger searches, successor/predecessor walks, first, last and iteration all agree with a sorted list. Duplicate insertion is refused and a failed insertion leaves the tree unchanged; every stored element is passed to the destructor callback exactly once on deletion.",
  ["histories", "fault_sequences"],
  "all insertion/removal sequences up to a depth over small key sets, all permutations of up to 7-8 keys, each allocation failure",
  "Tests insert a few fixed sequences.",
  ["src/ravl/ravl.c"],
  [("rotation and promotion", "src/ravl/ravl.c: ravl_balance, ravl_rotate"), ("removal", "src/ravl/ravl.c: ravl_remove")],
  observe=["ravl_* interface"])

p("C22", "Library start-up and shut-down are reference counted and thread safe",
  "For every sequence of library initialisation, use and teardown calls in which teardowns never outnumber initialisations, the library is usable exactly while initialisations outnumber teardowns, releases everything it holds when they balance, and can then be initialised again. Lookups made while it is down report no owner instead of crashing, and in every interleaving of threads the lazily built shared objects (topology, predefined memory spaces) are built exactly once and seen complete by all threads.",
  ["histories", "schedules"],
  "all init/teardown/use sequences up to a depth and all interleavings of 2-3 threads up to a preemption bound",
  "Tests run init and teardown once per process.",
  ["src/libumf.c", "src/topology.c", "src/memspaces/memspace_host_all.c", "src/utils/utils_posix_concurrency.c"],
  [("reference count", "src/libumf.c: umfInit, umfTearDown"), ("once initialisation", "src/topology.c, src/memspaces/*.c")],
  observe=["umfInit, umfTearDown, umfPoolByPtr"])

p("C23", "Scalable pool honours the allocation contract over its provider",
  "For every sequence of malloc, calloc, realloc, aligned malloc, usable-size and free calls on scalable pools, blocks are aligned, disjoint, large enough, inside memory obtained from that pool's own provider, zeroed for calloc and content-preserving for realloc; impossible requests including size overflow return null with an error. A provider failure yields null with an out-of-memory last error in the calling thread only, and destroying the pool returns all memory.",
  ["histories", "configurations", "fault_sequences", "inputs"],
  "all call sequences up to a depth over boundary sizes and alignments, two pools, granularity settings, each provider failure",
  "Tests run uniform batches with one parameter set.",
  ["src/pool/pool_scalable.c"],
  [("callback glue", "src/pool/pool_scalable.c: tbb_raw_alloc_wrapper, tbb_raw_free_wrapper"), ("error slot", "src/pool/pool_scalable.c: tbb_get_last_allocation_error")],
  observe=["umfPool* API", "upstream provider callbacks"])

p("C24", "Level Zero provider drives the GPU runtime correctly under any answer",
  "For every configuration and every history of allocation, free, query and sharing calls, the Level Zero provider issues to the GPU runtime exactly the calls that configuration requires (memory type, context, device, alignment, residency on every listed device, free policy), and pairs every successful allocation or opened handle with exactly one release. Whenever the runtime refuses any call, the provider returns an error identifying it (native code retrievable by that thread), leaks nothing it already obtained, and remains usable; invalid parameter combinations are rejected at creation.",
  ["configurations", "fault_sequences", "histories"],
  "all parameter combinations over small domains, all call sequences up to a depth, every single runtime refusal, against a modelled runtime",
  "GPU tests are skipped without a GPU, so none of this code is executed by the test run.",
  ["src/provider/provider_level_zero.c"],
  [("parameter validation", "src/provider/provider_level_zero.c: ze_memory_provider_initialize"), ("allocation and residency", "src/provider/provider_level_zero.c: ze_memory_provider_alloc"), ("error mapping", "src/provider/provider_level_zero.c: ze2umf_result")],
  observe=["ze* calls received by the modelled runtime"])

p("C25", "Diagnostics follow the documented logging setting",
  "For every text of the logging environment variable, every message at or above the chosen level and no other appears, exactly once, complete, in order and with the requested header, on the chosen output (the standard streams or the named file) and nowhere else; messages at or above the flush level are there immediately. Options may come in any order and unknown text affects nothing else; without the variable only fatal messages are printed. Over-long messages are cut with a mark and never corrupt memory; lines of concurrent threads never mix. Restarting the library applies the current setting from its defaults and leaks no open file.",
  ["inputs", "configurations", "histories", "schedules"],
  "all sequences of option texts up to a length, all histories of settings over restarts, message lengths around the buffer, all interleavings of logging threads up to a preemption bound",
  "Unit tests include the source with mocked output, set the variable once and use one order of options.",
  ["src/utils/utils_log.c", "src/utils/utils_common.c"],
  [("setting", "src/utils/utils_log.c: utils_log_init, src/utils/utils_common.c: utils_parse_var"), ("message", "src/utils/utils_log.c: utils_log_internal")],
  observe=["stdout, stderr and the log file of a process with UMF_LOG set"])

p("C26", "CUDA provider drives the driver correctly in the configured context",
  "For every configuration and every history of allocation, free, query and sharing calls, the CUDA provider issues each driver call that depends on it with the configured context current, and with the kind of memory, flags, size and device configured; the calling thread's own context is current again afterwards unless the driver refuses that. Every block or opened handle is released exactly once and by the matching call. Whenever the driver refuses a call, the provider returns the corresponding error (native code and message retrievable by that thread), leaks nothing and remains usable; a missing driver or entry point and invalid parameters are refused at creation without leaking, and the driver is looked for again after the library is restarted.",
  ["configurations", "fault_sequences", "histories", "schedules"],
  "all parameter combinations over small domains, all call sequences up to a depth incl. changes of the caller's context, every single driver refusal, all missing entry points over several life times, thread schedules up to a preemption bound, against a modelled driver",
  "GPU tests need a GPU and are not built here, so none of this code is executed by the test run.",
  ["src/provider/provider_cuda.c"],
  [("parameter validation", "src/provider/provider_cuda.c: cu_memory_provider_initialize"), ("context switch", "src/provider/provider_cuda.c: set_context"), ("allocation", "src/provider/provider_cuda.c: cu_memory_provider_alloc, cu_memory_provider_free"), ("driver loading", "src/provider/provider_cuda.c: init_cu_global_state")],
  observe=["cu* calls received by the modelled driver"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
