from mk import seed
import sys
W = sys.argv[1:]
def S(sid, *a, **k):
    if not W or sid in W: seed(sid, *a, **k)
PRE = '#include "demo.h"\n'
DJ = '''#include "demo.h"
#include <umf/pools/pool_disjoint.h>
static umf_memory_pool_handle_t mkpool(umf_memory_provider_handle_t prov, size_t slab, size_t maxp, size_t cap, size_t minb, umf_disjoint_pool_shared_limits_handle_t l) {
  umf_disjoint_pool_params_handle_t p; CHECK(!umfDisjointPoolParamsCreate(&p));
  umfDisjointPoolParamsSetSlabMinSize(p, slab); umfDisjointPoolParamsSetMaxPoolableSize(p, maxp); umfDisjointPoolParamsSetCapacity(p, cap); umfDisjointPoolParamsSetMinBucketSize(p, minb);
  if (l) umfDisjointPoolParamsSetSharedLimits(p, l);
  umf_memory_pool_handle_t h; CHECK(!umfPoolCreate(umfDisjointPoolOps(), prov, p, 0, &h)); umfDisjointPoolParamsDestroy(p); return h; }
'''
S("c02-index-after-memory", "C02", [("src/pool/pool_disjoint.c", '''        LOG_ERR("deallocation of slab data failed!");
    }
''', '''        LOG_ERR("deallocation of slab data failed!");
    }

    // whoever destroys a slab, its index entry goes away with it
    pool_unregister_slab(slab->bucket->pool, slab);
'''), ("src/pool/pool_disjoint.c", '''            pool_unregister_slab(bucket->pool, slab_it->val);
            DL_DELETE''', '''            DL_DELETE'''), ("src/pool/pool_disjoint.c", '''static void destroy_slab(slab_t *slab) {''', '''static umf_result_t pool_unregister_slab(disjoint_pool_t *pool, slab_t *slab);

static void destroy_slab(slab_t *slab) {''')],
 "a second thread takes a slab of another size class at the moment a slab's memory goes back to the provider",
 "the slab stays in the address index while its memory already belongs to somebody else: the new slab at the same address cannot be registered",
 DJ + '''
static pthread_barrier_t go; static volatile int armed, done; static void *got; static umf_memory_pool_handle_t h;
static void on_free(void *p, size_t s) { (void)p; (void)s; if (!armed) return; armed = 0; pthread_barrier_wait(&go); for (int i = 0; i < 3000 && !done; i++) usleep(1000); }
static void *other(void *x) { (void)x; pthread_barrier_wait(&go); got = umfPoolMalloc(h, 256); done = 1; return NULL; }
int main(void) { umf_memory_provider_handle_t prov = dp_provider(); h = mkpool(prov, 65536, 1 << 20, 0, 8, NULL); pthread_barrier_init(&go, NULL, 2); DP.on_free = on_free;
  void *b[4], *p; for (int i = 0; i < 4; i++) CHECK((b[i] = umfPoolMalloc(h, 32768))); for (int i = 0; i < 3; i++) CHECK(!umfPoolFree(h, b[i])); p = b[3]; pthread_t t; pthread_create(&t, NULL, other, NULL); armed = 1; CHECK(!umfPoolFree(h, p)); pthread_join(t, NULL);
  CHECK(got); CHECK(!umfPoolFree(h, got)); void *q = umfPoolMalloc(h, 64); CHECK(q); CHECK(!umfPoolFree(h, q)); umfPoolDestroy(h); CHECK(DP.live == 0); umfMemoryProviderDestroy(prov); return 0; }
''')
S("c04-slab-free-size", "C04", [("src/pool/pool_disjoint.c", '''        umfMemoryProviderFree(provider, slab->mem_ptr, slab->slab_size);''', '''        umfMemoryProviderFree(provider, slab->mem_ptr,
                              slab->num_chunks_total * slab->bucket->size);''')],
 "a slab of a size class that does not divide the slab size is given back",
 "the slab is given back with the size of its chunks instead of the size it was taken with",
 DJ + '''
int main(void) { umf_memory_provider_handle_t prov = dp_provider(); umf_memory_pool_handle_t h = mkpool(prov, 65536, 1 << 20, 0, 8, NULL);
  size_t s[] = {64, 96, 1000, 24576, 49152, 65536, 98304}; for (int i = 0; i < 7; i++) { void *p = umfPoolMalloc(h, s[i]); CHECK(p); CHECK(!umfPoolFree(h, p)); }
  umfPoolDestroy(h); CHECK(DP.badfrees == 0); CHECK(DP.live == 0); umfMemoryProviderDestroy(prov); return 0; }
''')
NEST = '''#include "demo.h"
#include <umf/pools/pool_proxy.h>
#include <umf/pools/pool_disjoint.h>
// a provider that takes its memory from a pool, and gives out the part behind the first 4096 bytes
static umf_result_t n_init(void *params, void **out) { *out = params; return 0; }
static umf_result_t n_alloc(void *h, size_t s, size_t a, void **o) { (void)a; char *p = umfPoolMalloc((umf_memory_pool_handle_t)h, s + 4096); if (!p) return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY; *o = p + 4096; return 0; }
static umf_result_t n_free(void *h, void *p, size_t s) { (void)s; return umfPoolFree((umf_memory_pool_handle_t)h, (char *)p - 4096); }
static umf_memory_provider_handle_t nprov(umf_memory_pool_handle_t parent) { umf_memory_provider_ops_t o = dp_ops(); o.initialize = n_init; o.alloc = n_alloc; o.free = n_free; umf_memory_provider_handle_t h; CHECK(!umfMemoryProviderCreate(&o, parent, &h)); return h; }
'''
S("c05-depth-off-by-one", "C05", [("src/provider/provider_tracking.c", '''            if (rvalue->n_children == 0 ||
                level == MAX_LEVELS_OF_ALLOC_SEGMENT_MAP - 1) {''', '''            if (rvalue->n_children == 0 ||
                level >= MAX_LEVELS_OF_ALLOC_SEGMENT_MAP - 2) {''')],
 "pools stacked as deep as the tracker allows (eight levels)",
 "an address in the innermost of eight stacked pools resolves to the seventh",
 NEST + '''
int main(void) { umf_memory_provider_handle_t pr[8]; umf_memory_pool_handle_t po[8]; pr[0] = dp_provider();
  for (int i = 0; i < 8; i++) { if (i) pr[i] = nprov(po[i - 1]); CHECK(!umfPoolCreate(umfProxyPoolOps(), pr[i], NULL, 0, &po[i])); }
  for (int i = 0; i < 8; i++) { char *p = umfPoolMalloc(po[i], 64); CHECK(p); CHECK(umfPoolByPtr(p) == po[i]); CHECK(umfPoolByPtr(p + 63) == po[i]); CHECK(!umfFree(p)); CHECK(DP.live == 0); }
  for (int i = 7; i >= 0; i--) { umfPoolDestroy(po[i]); umfMemoryProviderDestroy(pr[i]); } return 0; }
''')
CAP = '''#include "demo.h"
// a pool that only hands out its provider
static umf_memory_provider_handle_t inner;
static umf_result_t c_init(umf_memory_provider_handle_t p, void *params, void **o) { (void)params; inner = p; *o = p; return 0; }
static void c_fini(void *p) { (void)p; }
static umf_memory_pool_handle_t cpool(umf_memory_provider_handle_t prov) { static umf_memory_pool_ops_t o; o.version = UMF_VERSION_CURRENT; o.initialize = c_init; o.finalize = c_fini; umf_memory_pool_handle_t h; CHECK(!umfPoolCreate(&o, prov, NULL, 0, &h)); return h; }
'''
S("c07-split-size-bound", "C07", [("src/provider/provider_tracking.c", '''    if (value->size != totalSize) {''', '''    if (value->size < totalSize) {''')],
 "a split that names a total smaller than the allocation, on a provider that does not check it either",
 "the split is accepted and the tail of the allocation belongs to nobody",
 CAP + '''
static umf_result_t y_split(void *h, void *p, size_t t, size_t f) { (void)h; (void)p; (void)t; (void)f; return 0; }
int main(void) { umf_memory_provider_ops_t o = dp_ops(); o.ext.allocation_split = y_split; umf_memory_provider_handle_t prov; CHECK(!umfMemoryProviderCreate(&o, NULL, &prov)); umf_memory_pool_handle_t h = cpool(prov);
  char *p; CHECK(!umfMemoryProviderAlloc(inner, 3 * 4096, 0, (void **)&p)); CHECK(umfMemoryProviderAllocationSplit(inner, p, 2 * 4096, 4096) != UMF_RESULT_SUCCESS);
  for (int i = 0; i < 3; i++) CHECK(umfPoolByPtr(p + i * 4096) == h); CHECK(!umfMemoryProviderFree(inner, p, 3 * 4096)); umfPoolDestroy(h); umfMemoryProviderDestroy(prov); return 0; }
''')
S("c09-register-leak", "C09", [("src/pool/pool_disjoint.c", '''        LOG_ERR("slab_reg failed!")
        destroy_slab(slab);''', '''        LOG_ERR("slab_reg failed!")
        umf_ba_global_free(slab);''')],
 "the internal allocation for the slab index fails after the slab's memory was obtained",
 "the provider memory of a slab that cannot be registered is never given back",
 DJ + '''
#include <sys/syscall.h>
static volatile int deny; long syscall(long, ...);
void *mmap(void *a, size_t l, int p, int f, int fd, off_t o) { if (deny) { errno = ENOMEM; return MAP_FAILED; } return (void *)syscall(SYS_mmap, a, l, p, f, fd, o); }
int main(void) { umf_memory_provider_handle_t prov = dp_provider(); enum { N = 200 }; static void *b[64][N]; static umf_memory_pool_handle_t hs[64];
  // the classes of the internal allocator are exhausted in every phase to each other
  for (int ph = 0; ph < 48; ph++) { umf_memory_pool_handle_t h = mkpool(prov, 4096, 4096, 0, 8, NULL); void *x[N]; int n = 0, pre = ph * 3; 
    for (; n < pre; n++) CHECK((x[n] = umfPoolMalloc(h, 4096)));
    deny = 1; for (; n < N && (x[n] = umfPoolMalloc(h, 4096)); n++) ; CHECK(n == N || x[n] == NULL); if (n < N) { size_t live = DP.live; for (int k = 0; k < 4; k++) if (!umfPoolMalloc(h, 4096)) CHECK(DP.live == live); } deny = 0;
    for (int i = 0; i < n; i++) umfPoolFree(h, x[i]); CHECK(DP.live == 0); umfPoolDestroy(h); CHECK(DP.live == 0); }
  umfMemoryProviderDestroy(prov); (void)b; (void)hs; return 0; }
''')
IPC = '''#include "demo.h"
#include <umf/ipc.h>
#include <umf/pools/pool_proxy.h>
typedef struct { void *p; size_t s; } hnd;
static struct { void *addr, *src; size_t s; } MP[64]; static int nmp, opens, closes; static void (*on_open)(void);
static umf_result_t i_size(void *h, size_t *s) { (void)h; *s = sizeof(hnd); return 0; }
static umf_result_t i_get(void *h, const void *p, size_t s, void *o) { (void)h; ((hnd *)o)->p = (void *)p; ((hnd *)o)->s = s; return 0; }
static umf_result_t i_put(void *h, void *o) { (void)h; (void)o; return 0; }
static umf_result_t i_open(void *h, void *o, void **p) { (void)h; if (on_open) on_open(); hnd *x = o; void *a = mmap(NULL, x->s, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); CHECK(a != MAP_FAILED); int i = __sync_fetch_and_add(&nmp, 1); CHECK(i < 64); MP[i].addr = a; MP[i].src = x->p; MP[i].s = x->s; __sync_fetch_and_add(&opens, 1); *p = a; return 0; }
static umf_result_t i_close(void *h, void *p, size_t s) { (void)h; for (int i = 0; i < nmp; i++) if (MP[i].addr == p) { MP[i].addr = NULL; __sync_fetch_and_add(&closes, 1); munmap(p, s); return 0; } CHECK(!"close of what is not open"); return 0; }
static void *mapped(void *src) { for (int i = 0; i < nmp; i++) if (MP[i].addr && MP[i].src == src) return MP[i].addr; return NULL; }
static umf_memory_provider_handle_t iprov(void) { umf_memory_provider_ops_t o = dp_ops(); o.ipc.get_ipc_handle_size = i_size; o.ipc.get_ipc_handle = i_get; o.ipc.put_ipc_handle = i_put; o.ipc.open_ipc_handle = i_open; o.ipc.close_ipc_handle = i_close; umf_memory_provider_handle_t h; CHECK(!umfMemoryProviderCreate(&o, NULL, &h)); return h; }
'''
SH = open("demo.sh").read()
S("c10-busy-hit-not-recent", "C10", [("src/ipc_cache.c", '''        // remove the entry from the current position
        DL_DELETE(cache->global->lru_list, entry);
        // add the entry to the head of the list
        DL_PREPEND(cache->global->lru_list, entry);
    } else''', '''        // (an entry that is open already cannot be evicted anyway)
        if (entry->ref_count == 0) {
            // remove the entry from the current position
            DL_DELETE(cache->global->lru_list, entry);
            // add the entry to the head of the list
            DL_PREPEND(cache->global->lru_list, entry);
        }
    } else''')],
 "a handle is opened again while it is still open, everything is closed, and the cache is full at the next open",
 "the mapping used most recently is released instead of the least recently used one",
 IPC + '''
int main(void) { umf_memory_provider_handle_t prov = iprov(); umf_memory_pool_handle_t h; CHECK(!umfPoolCreate(umfProxyPoolOps(), prov, NULL, 0, &h)); umf_ipc_handler_handle_t hd; CHECK(!umfPoolGetIPCHandler(h, &hd));
  void *p[3], *q[4]; umf_ipc_handle_t ih[3]; size_t s; for (int i = 0; i < 3; i++) { CHECK((p[i] = umfPoolMalloc(h, 4096))); CHECK(!umfGetIPCHandle(p[i], &ih[i], &s)); }
  CHECK(!umfOpenIPCHandle(hd, ih[0], &q[0])); CHECK(!umfOpenIPCHandle(hd, ih[1], &q[1])); CHECK(!umfOpenIPCHandle(hd, ih[0], &q[2])); for (int i = 0; i < 3; i++) CHECK(!umfCloseIPCHandle(q[i]));
  CHECK(!umfOpenIPCHandle(hd, ih[2], &q[3])); CHECK(closes == 1); CHECK(mapped(p[0])); CHECK(!mapped(p[1])); CHECK(!umfCloseIPCHandle(q[3]));
  for (int i = 0; i < 3; i++) { umfPutIPCHandle(ih[i]); CHECK(!umfPoolFree(h, p[i])); } umfPoolDestroy(h); CHECK(opens == closes); umfMemoryProviderDestroy(prov); return 0; }
''', sh=SH.replace("timeout 120 ./demo", "UMF_MAX_OPENED_IPC_HANDLES=2 timeout 120 ./demo"))
