// Small helper for demonstrations: a memory provider over one reserved range.
#include <assert.h>
#include <errno.h>
#include <pthread.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <umf.h>
#include <umf/memory_pool.h>
#include <umf/memory_provider.h>
#include <umf/memory_provider_ops.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); _exit(1); } } while (0)
enum { DP_MAX = 256 };
typedef struct dp { char *base; size_t cap, page, gap; char *p[DP_MAX]; size_t s[DP_MAX]; int n; size_t live; int allocs, frees, badfrees;
    void (*on_free)(void *, size_t); int fail; } dp;
static dp DP = {.page = 4096};
static umf_result_t dp_init(void *params, void **out) { (void)params; *out = &DP; if (!DP.base) { DP.cap = (size_t)1 << 32;
    DP.base = mmap(NULL, DP.cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); CHECK(DP.base != MAP_FAILED); } return UMF_RESULT_SUCCESS; }
static void dp_fini(void *p) { (void)p; }
// first fit
static umf_result_t dp_alloc(void *h, size_t size, size_t align, void **out) { (void)h; if (DP.fail > 0) { DP.fail--; *out = NULL; return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY; }
    if (align < DP.page) align = DP.page;
    size_t rs = (size + DP.page - 1) / DP.page * DP.page; uintptr_t a = (uintptr_t)DP.base;
again: a = (a + align - 1) / align * align; if (a + rs > (uintptr_t)DP.base + DP.cap) return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    for (int i = 0; i < DP.n; i++) { size_t r = (DP.s[i] + DP.page - 1) / DP.page * DP.page + DP.gap; if (a < (uintptr_t)DP.p[i] + r && (uintptr_t)DP.p[i] < a + rs + DP.gap) { a = (uintptr_t)DP.p[i] + r; goto again; } }
    CHECK(DP.n < DP_MAX); DP.p[DP.n] = (char *)a; DP.s[DP.n++] = size; DP.live += size; DP.allocs++; *out = (void *)a; return UMF_RESULT_SUCCESS; }
static umf_result_t dp_free(void *h, void *p, size_t s) { (void)h; for (int i = 0; i < DP.n; i++) if (DP.p[i] == p && DP.s[i] == s) { DP.n--; DP.p[i] = DP.p[DP.n]; DP.s[i] = DP.s[DP.n];
        DP.live -= s; DP.frees++; if (DP.on_free) DP.on_free(p, s); return UMF_RESULT_SUCCESS; } DP.badfrees++; return UMF_RESULT_ERROR_INVALID_ARGUMENT; }
static void dp_err(void *h, const char **m, int32_t *e) { (void)h; if (m) *m = ""; if (e) *e = 0; }
static umf_result_t dp_rps(void *h, size_t s, size_t *o) { (void)h; (void)s; *o = DP.page; return UMF_RESULT_SUCCESS; }
static umf_result_t dp_mps(void *h, void *p, size_t *o) { (void)h; (void)p; *o = DP.page; return UMF_RESULT_SUCCESS; }
static const char *dp_name(void *h) { (void)h; return "demo"; }
static umf_result_t dp_split(void *h, void *p, size_t total, size_t first) { (void)h; for (int i = 0; i < DP.n; i++) if (DP.p[i] == p && DP.s[i] == total) { DP.s[i] = first; DP.p[DP.n] = (char *)p + first; DP.s[DP.n++] = total - first; return UMF_RESULT_SUCCESS; } return UMF_RESULT_ERROR_INVALID_ARGUMENT; }
static umf_result_t dp_merge(void *h, void *lo, void *hi, size_t total) { (void)h; (void)total; for (int i = 0; i < DP.n; i++) if (DP.p[i] == lo) for (int j = 0; j < DP.n; j++) if (DP.p[j] == hi) { DP.s[i] += DP.s[j]; DP.n--; DP.p[j] = DP.p[DP.n]; DP.s[j] = DP.s[DP.n]; return UMF_RESULT_SUCCESS; } return UMF_RESULT_ERROR_INVALID_ARGUMENT; }
static umf_memory_provider_ops_t dp_ops(void) { umf_memory_provider_ops_t o; memset(&o, 0, sizeof o); o.version = UMF_VERSION_CURRENT; o.initialize = dp_init; o.finalize = dp_fini; o.alloc = dp_alloc;
    o.free = dp_free; o.get_last_native_error = dp_err; o.get_recommended_page_size = dp_rps; o.get_min_page_size = dp_mps; o.get_name = dp_name; o.ext.allocation_split = dp_split; o.ext.allocation_merge = dp_merge; return o; }
static umf_memory_provider_handle_t dp_provider(void) { static umf_memory_provider_ops_t o; o = dp_ops(); umf_memory_provider_handle_t h; CHECK(umfMemoryProviderCreate(&o, NULL, &h) == UMF_RESULT_SUCCESS); return h; }
