from mk import seed
import sys
W = sys.argv[1:]
def S(sid, *a, **k):
    if not W or sid in W: seed(sid, *a, **k)
PRE = '#include "demo.h"\n'
SH = open("demo.sh").read()
S("c21-one-promotion", "C21", [("src/ravl/ravl.c", '''    /* walk up the tree, promoting nodes */
    while (n->parent && ravl_node_is(n->parent, 0, 1)) {''', '''    /* promote the parent */
    if (n->parent && ravl_node_is(n->parent, 0, 1)) {''')],
 "elements are inserted in an order that makes a promotion travel more than one level",
 "the tree is no longer balanced: searches in it take linear time",
 PRE + '''
#include "ravl/ravl.h"
static long n_cmp; typedef struct { uintptr_t k; void *v; } rec; static int cmp(const void *a, const void *b) { n_cmp++; uintptr_t x = ((const rec *)a)->k, y = ((const rec *)b)->k; return x < y ? -1 : x > y; }
int main(void) { for (int mode = 0; mode < 4; mode++) { struct ravl *t = ravl_new_sized(cmp, sizeof(rec)); CHECK(t); enum { N = 3000 };
    for (int i = 0; i < N; i++) { rec r = {mode == 0 ? i : mode == 1 ? N - i : mode == 2 ? (i % 2 ? N + i : N - i) : (uintptr_t)i * 7919 % N, NULL}; CHECK(!ravl_emplace_copy(t, &r)); }
    for (int i = 0; i < 2 * N; i++) { rec r = {i, NULL}; n_cmp = 0; ravl_find(t, &r, RAVL_PREDICATE_LESS_EQUAL); CHECK(n_cmp <= 40); } ravl_delete(t); }
  return 0; }
''')
S("c25-cached-ids", "C25", [("src/utils/utils_log.c", '''    int pid = utils_getpid();
    int tid = utils_gettid();
''', '''    // ask the system for the identifiers only once per thread
    static __TLS int pid = 0;
    static __TLS int tid = 0;
    if (tid == 0) {
        pid = utils_getpid();
        tid = utils_gettid();
    }
''')],
 "the process logs, forks, and the child logs with the pid option on",
 "the messages of the child carry the identifiers of the parent",
 PRE + '''
#include "utils_log.h"
#include <sys/wait.h>
int main(void) { char *w = getenv("DEMO_DIR"), path[512], line[1000]; CHECK(w); snprintf(path, sizeof path, "%s/log.txt", w);
  CHECK(!umfInit()); LOG_INFO("message A"); pid_t c = fork(); if (!c) { LOG_INFO("message B"); _exit(0); } waitpid(c, NULL, 0); LOG_INFO("message C"); umfTearDown();
  FILE *f = fopen(path, "r"); CHECK(f); int seen = 0; while (fgets(line, sizeof line, f)) { char *m = strstr(line, "message "), *p = strstr(line, "PID:"), *t = strstr(line, "TID:"); if (!m) continue; seen++; CHECK(p && t); long want = m[8] == 'B' ? c : getpid(); CHECK(atol(p + 4) == want); CHECK(atol(t + 4) == want); }
  CHECK(seen == 3); return 0; }
''', sh=SH.replace('timeout 120 ./demo', 'DEMO_DIR=$out UMF_LOG="output:file,$out/log.txt;level:debug;flush:debug;pid:yes" timeout 120 ./demo'))
ZSH = '''#!/bin/bash
# Builds the demonstration with a stand-in for the Level Zero loader, against the library built in /repo/_build, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 2
trap 'rm -r "$out"' EXIT
{ gcc -g -w -shared -fPIC "$here/fake.c" -o "$out/libze_loader.so" -Wl,-soname,libze_loader.so &&
gcc -g -O1 -w -I"$here" -I/repo/include -I/repo/src -I/repo/src/utils -I/repo/src/base_alloc "$here/demo.c" -o "$out/demo" \\
  /repo/_build/static/lib/libumf.a /repo/_build/static/lib/libcoarse.a -Wl,--no-as-needed "$out/libze_loader.so" -Wl,-rpath,"$out" \\
  -lstdc++ -lhwloc -lnuma -lrt -lpthread -ldl -lm; } >"$out/log" 2>&1 || { cat "$out/log"; exit 2; }
cd "$out" && timeout 120 ./demo
'''
FAKE = '''
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
int n_res; void *res[64]; int n_alloc, n_free;
int zeMemAllocHost(void *c, void *d, size_t s, size_t a, void **p) { n_alloc++; return posix_memalign(p, 4096, s); }
int zeMemAllocDevice(void *c, void *d, size_t s, size_t a, void *dev, void **p) { n_alloc++; return posix_memalign(p, 4096, s); }
int zeMemAllocShared(void *c, void *d, void *h, size_t s, size_t a, void *dev, void **p) { n_alloc++; return posix_memalign(p, 4096, s); }
int zeMemFree(void *c, void *p) { n_free++; free(p); return 0; }
int zeMemFreeExt(void *c, void *d, void *p) { n_free++; free(p); return 0; }
int zeMemGetIpcHandle(void *c, void *p, void *h) { return 1; }
int zeMemPutIpcHandle(void *c, void *h) { return 1; }
int zeMemOpenIpcHandle(void *c, void *d, void *h, int f, void **p) { return 1; }
int zeMemCloseIpcHandle(void *c, void *p) { return 1; }
int zeContextMakeMemoryResident(void *c, void *d, void *p, size_t s) { res[n_res++ % 64] = d; return 0; }
int zeDeviceGetProperties(void *d, char *p) { *(uint64_t *)(p + 40) = 1 << 30; return 0; }
int zeMemGetAllocProperties(void *c, void *p, char *o, void *d) { *(uint64_t *)(o + 32) = 4096; return 0; }
'''
S("c24-own-device-residency", "C24", [("src/provider/provider_level_zero.c", '''    for (uint32_t i = 0; i < ze_provider->resident_device_count; i++) {
        ze_result = g_ze_ops.zeContextMakeMemoryResident(''', '''    for (uint32_t i = 0; i < ze_provider->resident_device_count; i++) {
        if (ze_provider->memory_type == UMF_MEMORY_TYPE_SHARED &&
            ze_provider->resident_device_handles[i] == ze_provider->device) {
            continue; // the memory belongs to this device
        }
        ze_result = g_ze_ops.zeContextMakeMemoryResident(''')],
 "shared memory with the owning device in the list of resident devices",
 "the memory is not made resident on a device it was asked for",
 PRE + '''
#include <umf/providers/provider_level_zero.h>
extern int n_res, n_alloc, n_free; extern void *res[];
int main(void) { void *dev[3] = {(void *)0x100, (void *)0x200, (void *)0x300}; int types[] = {UMF_MEMORY_TYPE_SHARED, UMF_MEMORY_TYPE_DEVICE};
  for (int t = 0; t < 2; t++) for (int own = 0; own < 3; own++) for (int cnt = 0; cnt <= 3; cnt++) { umf_level_zero_memory_provider_params_handle_t p; CHECK(!umfLevelZeroMemoryProviderParamsCreate(&p));
    CHECK(!umfLevelZeroMemoryProviderParamsSetContext(p, (void *)0x10)); CHECK(!umfLevelZeroMemoryProviderParamsSetDevice(p, dev[own])); CHECK(!umfLevelZeroMemoryProviderParamsSetMemoryType(p, types[t])); CHECK(!umfLevelZeroMemoryProviderParamsSetResidentDevices(p, (void *)dev, cnt));
    umf_memory_provider_handle_t h; CHECK(!umfMemoryProviderCreate(umfLevelZeroMemoryProviderOps(), p, &h)); umfLevelZeroMemoryProviderParamsDestroy(p);
    n_res = 0; void *m; CHECK(!umfMemoryProviderAlloc(h, 8192, 0, &m)); CHECK(n_res == cnt); for (int i = 0; i < cnt; i++) CHECK(res[i] == dev[i]); CHECK(!umfMemoryProviderFree(h, m, 8192)); umfMemoryProviderDestroy(h); CHECK(n_alloc == n_free); }
  return 0; }
''', sh=ZSH, extra={"fake.c": FAKE})
S("c08-refused-split-fragments", "C08", [("src/coarse/coarse.c", '''    ravl_node_t *node = coarse_ravl_find_node(coarse->all_blocks, block->data);
    assert(node);

    // merge with prev and/or next block if they are unused and have continuous data
    node = free_block_merge_with_prev(coarse, node);
    node = free_block_merge_with_next(coarse, node);
''', '''    ravl_node_t *node = coarse_ravl_find_node(coarse->all_blocks, block->data);
    assert(node);

    // merge with the next block if it is unused and has continuous data
    node = free_block_merge_with_next(coarse, node);
''')],
 "an aligned allocation that needs padding, for which the upstream provider refuses the second split",
 "the padding and the rest stay two free blocks: a later request that fits the free extent fails",
 PRE + '''
#include "coarse/coarse.h"
static int n, refuse; static umf_result_t split(void *p, void *a, size_t t, size_t f) { return ++n == refuse ? UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC : 0; } static umf_result_t merge(void *p, void *a, void *b, size_t t) { return 0; }
int main(void) { char *base = (char *)((size_t)1 << 40) + 4096; const size_t P = 4096; for (int st = 0; st < 3; st++) for (refuse = 1; refuse <= 3; refuse++) {
    coarse_params_t cp; memset(&cp, 0, sizeof cp); cp.provider = (void *)1; cp.page_size = P; cp.cb.split = split; cp.cb.merge = merge; cp.allocation_strategy = st; coarse_t *c; CHECK(!coarse_new(&cp, &c)); CHECK(!coarse_add_memory_fixed(c, base, 64 * P));
    n = 0; void *m, *q; int r = coarse_alloc(c, 2 * P, 16 * P, &m); CHECK((r != 0) == (refuse <= 2)); if (!r) CHECK(!coarse_free(c, m, 2 * P)); n = 10; CHECK(!coarse_alloc(c, 63 * P, P, &q)); CHECK(!coarse_free(c, q, 63 * P)); CHECK(coarse_get_stats(c).num_free_blocks == 1); coarse_delete(c); }
  return 0; }
''', sh=SH.replace("libcoarse.a", "libcoarse.a /repo/_build/static/lib/libumf.a"))
S("c18-ll-saturates", "C18", [("src/ctl/ctl.c", '''    if (endptr == str || errno != 0) {
        return LLONG_MIN;
    }''', '''    if (endptr == str) {
        return LLONG_MIN;
    }''')],
 "a configuration assigns a number above the range of long long to an entry of that type",
 "the entry gets the largest long long instead of the assignment being refused",
 PRE + '''
#include <limits.h>
#include "ctl/ctl.h"
int main(void) { long long v = 5; CHECK(!ctl_arg_integer("9223372036854775807", &v, sizeof v) && v == LLONG_MAX); v = 5; CHECK(ctl_arg_integer("-9223372036854775809", &v, sizeof v)); CHECK(v == 5);
  CHECK(ctl_arg_integer("9223372036854775808", &v, sizeof v)); CHECK(v == 5); CHECK(ctl_arg_integer("99999999999999999999999", &v, sizeof v)); CHECK(v == 5); CHECK(!ctl_arg_integer("0x10", &v, sizeof v) && v == 16); return 0; }
''')
S("c11-count-after-unlock", "C11", [("src/ipc_cache.c", '''exit:
    if (ret == UMF_RESULT_SUCCESS) {
        utils_atomic_increment_u64(&entry->ref_count);
        *retEntry = &entry->value;
    }

    utils_mutex_unlock(&(cache->global->cache_lock));
''', '''exit:
    utils_mutex_unlock(&(cache->global->cache_lock));

    if (ret == UMF_RESULT_SUCCESS) {
        utils_atomic_increment_u64(&entry->ref_count);
        *retEntry = &entry->value;
    }
''')],
 "two threads open handles with a full cache, and one is interrupted between finding its mapping and counting itself as a user",
 "the mapping one thread is about to use is closed by the other one",
 PRE + '''
#include <dlfcn.h>
#include "ipc_cache.h"
static int armed, evicted; static ipc_opened_cache_handle_t cache; static ipc_opened_cache_key_t KA, KB; static ipc_opened_cache_value_t *va, *vb;
static void ev(const ipc_opened_cache_key_t *k, const ipc_opened_cache_value_t *v) { evicted++; }
static void *other(void *a) { CHECK(!umfIpcOpenedCacheGet(cache, &KB, 2, &vb)); return NULL; }
int pthread_mutex_unlock(pthread_mutex_t *m) { static int (*real)(pthread_mutex_t *); if (!real) real = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock"); int r = real(m);
  if (armed) { armed = 0; pthread_t t; CHECK(!pthread_create(&t, NULL, other, NULL)); pthread_join(t, NULL); } return r; }
int main(void) { CHECK(!umfInit()); cache = umfIpcOpenedCacheCreate(ev); CHECK(cache);
  KA.remote_base_ptr = (void *)0x1000; KB.remote_base_ptr = (void *)0x2000; CHECK(!umfIpcOpenedCacheGet(cache, &KA, 1, &va)); CHECK(!umfIpcHandleMappedCacheRelease(va)); CHECK(!evicted);
  armed = 1; CHECK(!umfIpcOpenedCacheGet(cache, &KA, 1, &va)); CHECK(!armed); CHECK(!evicted); CHECK(va != vb);
  CHECK(!umfIpcHandleMappedCacheRelease(va)); CHECK(!umfIpcHandleMappedCacheRelease(vb)); umfIpcOpenedCacheDestroy(cache); CHECK(evicted == 2); umfTearDown(); return 0; }
''', sh=SH.replace('timeout 120 ./demo', 'UMF_MAX_OPENED_IPC_HANDLES=1 timeout 120 ./demo'))
