from mk import seed
import sys
W = sys.argv[1:]
def S(sid, *a, **k):
    if not W or sid in W: seed(sid, *a, **k)
PRE = '#include "demo.h"\n'
SH = open("demo.sh").read()
S("c14-split-offset", "C14", [("src/provider/provider_os_memory.c", '''    void *new_value = (void *)((uintptr_t)value + firstSize);''', '''    void *new_value = (void *)((uintptr_t)value + (totalSize - firstSize));''')],
 "a shared allocation is split into unequal parts and the second part is exported through IPC",
 "the second part of an unequal split maps to the wrong place of the backing file",
 PRE + '''
#include <umf/providers/provider_os_memory.h>
int main(void) { char name[64]; snprintf(name, sizeof name, "umf-demo-%d", (int)getpid());
  umf_os_memory_provider_params_handle_t p; CHECK(!umfOsMemoryProviderParamsCreate(&p)); CHECK(!umfOsMemoryProviderParamsSetVisibility(p, UMF_MEM_MAP_SHARED)); CHECK(!umfOsMemoryProviderParamsSetShmName(p, name));
  umf_memory_provider_handle_t h; CHECK(!umfMemoryProviderCreate(umfOsMemoryProviderOps(), p, &h)); umfOsMemoryProviderParamsDestroy(p);
  char *m; const size_t P = 4096; CHECK(!umfMemoryProviderAlloc(h, 4 * P, 0, (void **)&m)); for (int i = 0; i < 4; i++) memset(m + i * P, 'a' + i, P);
  CHECK(!umfMemoryProviderAllocationSplit(h, m, 4 * P, P)); size_t hs; CHECK(!umfMemoryProviderGetIPCHandleSize(h, &hs)); void *ih = calloc(1, hs); char *q;
  CHECK(!umfMemoryProviderGetIPCHandle(h, m + P, 3 * P, ih)); int r = umfMemoryProviderOpenIPCHandle(h, ih, (void **)&q); shm_unlink(name); CHECK(!r);
  int ok = 1; for (int i = 0; i < 3; i++) ok &= q[i * P] == 'b' + i; CHECK(ok);
  CHECK(!umfMemoryProviderCloseIPCHandle(h, q, 3 * P)); CHECK(!umfMemoryProviderPutIPCHandle(h, ih)); CHECK(!umfMemoryProviderAllocationMerge(h, m, m + P, 4 * P)); CHECK(!umfMemoryProviderFree(h, m, 4 * P)); umfMemoryProviderDestroy(h); free(ih); return 0; }
''')
S("c15-offset-pad", "C15", [("src/provider/provider_file_memory.c", '''    file_provider->offset_fd = new_offset_fd + size;''', '''    file_provider->offset_fd += size;''')],
 "an allocation with a large alignment leaves a gap in the mapping, a later allocation is then exported through IPC",
 "the file offset of a block falls behind its place in the mapping by the padding of an earlier block",
 PRE + '''
#include <umf/providers/provider_file_memory.h>
int main(void) { char *w = getenv("DEMO_DIR"), path[512]; CHECK(w); snprintf(path, sizeof path, "%s/f", w);
  umf_file_memory_provider_params_handle_t p; CHECK(!umfFileMemoryProviderParamsCreate(&p, path)); CHECK(!umfFileMemoryProviderParamsSetVisibility(p, UMF_MEM_MAP_SHARED));
  umf_memory_provider_handle_t h; CHECK(!umfMemoryProviderCreate(umfFileMemoryProviderOps(), p, &h)); umfFileMemoryProviderParamsDestroy(p);
  size_t hs; CHECK(!umfMemoryProviderGetIPCHandleSize(h, &hs)); size_t sz[] = {4096, 4096, 4096, 4096, 4096}, al[] = {1 << 20, 8192, 0, 0, 4096};
  CHECK(1); char *m[5]; void *ih[5]; for (int i = 0; i < 5; i++) { CHECK(!umfMemoryProviderAlloc(h, sz[i], al[i], (void **)&m[i])); memset(m[i], 'a' + i, sz[i]); CHECK((ih[i] = calloc(1, hs))); CHECK(!umfMemoryProviderGetIPCHandle(h, m[i], sz[i], ih[i])); }
  for (int i = 0; i < 5; i++) { char *q; CHECK(!umfMemoryProviderOpenIPCHandle(h, ih[i], (void **)&q)); CHECK(q[0] == 'a' + i && q[sz[i] - 1] == 'a' + i); CHECK(!umfMemoryProviderCloseIPCHandle(h, q, sz[i])); CHECK(!umfMemoryProviderPutIPCHandle(h, ih[i])); free(ih[i]); }
  umfMemoryProviderDestroy(h); return 0; }
''', sh=SH.replace('timeout 120 ./demo', 'DEMO_DIR=$out timeout 120 ./demo'))
S("c16-node-leftover", "C16", [("src/provider/provider_os_memory.c", '''    if (membind->rest == 0 && membind->leftover_bind == 0) {''', '''    if (membind->leftover_bind == 0) {''')],
 "memory is split over three or more nodes, with weights that do not divide the number of pages",
 "a node whose share ends inside a page is passed over and the rest of the memory stays without placement",
 PRE + '''
#include <hwloc.h>
#include <umf/providers/provider_os_memory.h>
static struct { char *a; size_t n; hwloc_bitmap_t s; } B[64]; static int nb;
int hwloc_set_area_membind(hwloc_topology_t t, const void *a, size_t n, hwloc_const_bitmap_t s, hwloc_membind_policy_t p, int f) { (void)t; (void)p; (void)f; CHECK(nb < 64); B[nb].a = (char *)a; B[nb].n = n; B[nb++].s = hwloc_bitmap_dup(s); return 0; }
int main(void) { unsigned nodes[] = {0, 1, 2}; unsigned wt[][3] = {{1, 1, 1}, {1, 2, 1}, {3, 1, 1}, {2, 3, 5}, {1, 5, 1}, {7, 1, 2}};
  for (int w = 0; w < 6; w++) for (int pages = 1; pages <= 16; pages++) {
    umf_os_memory_provider_params_handle_t p; CHECK(!umfOsMemoryProviderParamsCreate(&p)); CHECK(!umfOsMemoryProviderParamsSetNumaList(p, nodes, 3)); CHECK(!umfOsMemoryProviderParamsSetNumaMode(p, UMF_NUMA_MODE_SPLIT));
    umf_numa_split_partition_t part[3]; unsigned sum = 0; for (int i = 0; i < 3; i++) { part[i].weight = wt[w][i]; part[i].target = i; sum += wt[w][i]; } CHECK(!umfOsMemoryProviderParamsSetPartitions(p, part, 3));
    umf_memory_provider_handle_t h; CHECK(!umfMemoryProviderCreate(umfOsMemoryProviderOps(), p, &h)); umfOsMemoryProviderParamsDestroy(p);
    nb = 0; char *m; CHECK(!umfMemoryProviderAlloc(h, pages * 4096, 0, (void **)&m)); char *at = m; double share[3] = {0};
    for (int i = 0; i < nb; i++) { CHECK(B[i].a == at); at += B[i].n; int k = hwloc_bitmap_weight(B[i].s); CHECK(k > 0); for (int j = 0; j < 3; j++) if (hwloc_bitmap_isset(B[i].s, j)) share[j] += (double)B[i].n / 4096 / k; hwloc_bitmap_free(B[i].s); }
    CHECK(at == m + pages * 4096); for (int j = 0; j < 3; j++) { double want = (double)pages * wt[w][j] / sum; CHECK(share[j] <= want + 1 && share[j] >= want - 1); }
    CHECK(!umfMemoryProviderFree(h, m, pages * 4096)); umfMemoryProviderDestroy(h); }
  return 0; }
''', sh=SH.replace('timeout 120 ./demo', 'HWLOC_SYNTHETIC="numa:3 pu:1" timeout 120 ./demo'))
S("c17-property-narrow", "C17", [("src/memspace.c", '''    if (entryA->property < entryB->property) {
        return 1;
    } else if (entryA->property > entryB->property) {
        return -1;
    } else {
        return 0;
    }''', '''    // descending order
    return (int)(entryB->property - entryA->property);''')],
 "memory targets whose capacities differ by a multiple of 4 GiB or by more than 2 GiB",
 "targets are not ordered by the property when the difference does not fit in 32 bits",
 PRE + '''
#include "memspace_internal.h"
#include "memtarget_internal.h"
#include <umf/memspace.h>
static size_t cap[3]; static umf_result_t prop(umf_memtarget_handle_t t, size_t *v) { unsigned id; CHECK(!umfMemtargetGetId(t, &id)); *v = cap[id]; return 0; }
int main(void) { size_t G = (size_t)1 << 30, v[] = {1 * G, 2 * G, 3 * G, 4 * G, 6 * G, 8 * G, 64 * G, 7};
  for (int a = 0; a < 8; a++) for (int b = 0; b < 8; b++) for (int c = 0; c < 8; c++) { cap[0] = v[a]; cap[1] = v[b]; cap[2] = v[c]; unsigned ids[] = {0, 1, 2};
    umf_memspace_handle_t m; CHECK(!umfMemspaceCreateFromNumaArray(ids, 3, &m)); CHECK(!umfMemspaceSortDesc(m, (umfGetPropertyFn)prop)); size_t last = SIZE_MAX, x;
    for (int i = 0; i < 3; i++) { CHECK(!prop((umf_memtarget_handle_t)umfMemspaceMemtargetGet(m, i), &x)); CHECK(x <= last); last = x; } umfMemspaceDestroy(m); }
  return 0; }
''')
S("c22-once-not-reset", "C22", [("src/memspaces/memspace_highest_capacity.c", '''        UMF_MEMSPACE_HIGHEST_CAPACITY = NULL;
    }

    // portable version of "UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
    static''', '''        UMF_MEMSPACE_HIGHEST_CAPACITY = NULL;
        return;
    }

    // portable version of "UMF_MEMSPACE_HIGHEST_CAPACITY_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
    static''')],
 "the library is torn down after the memspace was used, and used again",
 "after a restart of the library the predefined memspace is no longer available",
 PRE + '''
#include <umf/memspace.h>
int main(void) { for (int i = 0; i < 3; i++) { umf_const_memspace_handle_t m = umfMemspaceHighestCapacityGet(), a = umfMemspaceHostAllGet(); CHECK(a); CHECK(m); CHECK(umfMemspaceMemtargetNum(m) > 0); umfTearDown(); CHECK(!umfInit()); } return 0; }
''', sh=SH.replace('timeout 120 ./demo', 'HWLOC_SYNTHETIC="numa:3 pu:1" timeout 120 ./demo'))
S("c12-align-room", "C12", [("src/base_alloc/base_alloc_global.c", '''        size += alignment;
    }''', '''        // the metadata already moves the data by ALLOC_METADATA_SIZE
        size += alignment - 2 * ALLOC_METADATA_SIZE;
    }''')],
 "an aligned internal allocation whose size fills its size class, at an address that needs the largest padding",
 "the last bytes of an aligned internal allocation belong to the neighbouring block",
 PRE + '''
#include "base_alloc_global.h"
typedef struct { unsigned char *p; size_t n; } blk; static blk b[4000];
int main(void) { for (size_t al = 32; al <= 256; al *= 2) { int n = 0; for (size_t s = 1; s <= 1500; s += s % 16 == 15 ? 2 : s % 16 == 1 ? 7 : 1) for (int k = 0; k < 6 && n < 4000; k++) { unsigned char *p = umf_ba_global_aligned_alloc(s, al); CHECK(p); CHECK((uintptr_t)p % al == 0); b[n].p = p; b[n].n = s; memset(p, n % 251 + 1, s); n++; }
    for (int i = 0; i < n; i++) for (size_t j = 0; j < b[i].n; j++) CHECK(b[i].p[j] == i % 251 + 1); for (int i = 0; i < n; i++) umf_ba_global_free(b[i].p); }
  return 0; }
''')
S("c19-purge-force-lost", "C19", [("src/memory_provider.c", '''        hProvider->ops.ext.purge_force(hProvider->provider_priv, ptr, size);
    checkErrorAndSetLastProvider(res, hProvider);''', '''        hProvider->ops.ext.purge_force(hProvider->provider_priv, ptr, size);
    if (res == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC) {
        checkErrorAndSetLastProvider(res, hProvider);
    }''')],
 "two providers fail one after the other, the second one in a forced purge with a common error code",
 "the thread is told that the first provider failed last",
 PRE + '''
static int rc; static umf_result_t pf(void *h, void *p, size_t s) { (void)h; (void)p; (void)s; return rc; }
int main(void) { umf_memory_provider_ops_t o = dp_ops(); o.ext.purge_force = pf; umf_memory_provider_handle_t a = dp_provider(), b; CHECK(!umfMemoryProviderCreate(&o, NULL, &b)); void *x, *y; CHECK(!umfMemoryProviderAlloc(b, 4096, 0, &y));
  for (rc = 0; rc < 9; rc++) { DP.fail = 1; CHECK(umfMemoryProviderAlloc(a, 64, 0, &x)); CHECK(umfGetLastFailedMemoryProvider() == a); CHECK(umfMemoryProviderPurgeForce(b, y, 4096) == rc); CHECK(umfGetLastFailedMemoryProvider() == (rc ? b : a)); }
  umfMemoryProviderFree(b, y, 4096); umfMemoryProviderDestroy(a); umfMemoryProviderDestroy(b); return 0; }
''')
PX = '''#!/bin/bash
# Builds a small program and runs it with the proxy library built in /repo/_build.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 2
trap 'rm -r "$out"' EXIT
gcc -g -O0 -w "$here/demo.c" -o "$out/demo" -lpthread >"$out/log" 2>&1 || { cat "$out/log"; exit 2; }
cd "$out" && LD_LIBRARY_PATH=/repo/_build/shared/lib LD_PRELOAD=/repo/_build/shared/lib/libumf_proxy.so timeout 120 ./demo
'''
S("c20-flag-after-failure", "C20", [("src/proxy_lib/proxy_lib.c", '''        void *ptr = umfPoolMalloc(Proxy_pool, size);
        was_called_from_umfPool = 0;
        return ptr;''', '''        void *ptr = umfPoolMalloc(Proxy_pool, size);
        if (ptr) {
            was_called_from_umfPool = 0;
        }
        return ptr;''')],
 "a malloc fails in a thread that goes on allocating",
 "after one refused malloc the thread gets its memory from the pool of leaks, which never serves freed memory again and does not know sizes",
 '''#include <malloc.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
int main(void) { volatile size_t huge = SIZE_MAX / 2; void *volatile p = malloc(huge); if (p) _exit(2);
  for (size_t n = 1; n <= 70000; n = n * 3 + 1) { char *volatile q = malloc(n); if (!q || malloc_usable_size(q) < n) { write(2, "FAILED\\n", 7); _exit(1); } free(q); }
  void *volatile first = malloc(100); free(first); for (int i = 0; i < 10; i++) { void *volatile q = malloc(100); if (q != first) { write(2, "not reused\\n", 11); _exit(1); } free(q); }
  return 0; }
''', sh=PX)
