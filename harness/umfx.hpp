// Model memory provider used by the harnesses: every callback is checked
// against a reference record and can be made to fail.
#pragma once
#include "ba_wrap.hpp"
#include "mc.hpp"
#include "sched.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <umf.h>
#include <umf/memory_pool.h>
#include <umf/memory_pool_ops.h>
#include <umf/memory_provider.h>
#include <umf/memory_provider_ops.h>
#include <vector>

static const uintptr_t X_ARENA = 0x200000000000ull;
static const uintptr_t X_STEP = 1ull << 38;         // per provider
enum {
    FA_ALLOC = 1, FA_FREE = 2, FA_SPLIT = 4, FA_MERGE = 8, FA_INIT = 16,
    FA_PAGE = 32, FA_IPCGET = 64, FA_IPCPUT = 128, FA_IPCOPEN = 256,
    FA_IPCCLOSE = 512, FA_IPCSIZE = 1024, FA_PURGE = 2048,
};
struct XIpc { // provider data of an IPC handle
    long prov;
    uintptr_t base;
    size_t size;
    long gen;
};
struct XBlk {
    size_t size;
    long gen;
};
struct XMap {
    XIpc h;
    long id;
};
struct XProv {
    int id = 0;
    size_t page = 4096;    // minimum page size, granularity and default alignment
    size_t gap = 0;        // unused bytes between blocks
    bool reuse = true;     // lowest free address first
    int faults = 0;        // FA_* callbacks that may fail
    umf_result_t code = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    bool backed = true;
    // state
    std::map<uintptr_t, XBlk> live;
    uintptr_t top = 0;
    long gen = 0;
    int n_init = 0, n_fini = 0;
    long n_alloc = 0, n_free = 0, n_fail = 0; // successful allocs/frees, failures
    size_t last_size = 0, last_align = 0;
    std::map<uintptr_t, XMap> maps; // open IPC mappings
    uintptr_t map_top = 0;
    long n_open = 0, n_close = 0, n_get = 0, n_put = 0, n_map = 0;
    std::multiset<long> handles; // outstanding handles by generation
    size_t bytes() const {
        size_t s = 0;
        for (auto &b : live)
            s += b.second.size;
        return s;
    }
    uintptr_t lo() const { return X_ARENA + (uintptr_t)id * X_STEP; }
    // the live allocation holding [a, a+n)
    const std::pair<const uintptr_t, XBlk> *holder(uintptr_t a, size_t n) const {
        auto it = live.upper_bound(a);
        if (it == live.begin())
            return nullptr;
        --it;
        if (a + n > it->first + it->second.size || a + n < a)
            return nullptr;
        return &*it;
    }
};
extern "C" {
static umf_result_t xp_init(void *params, void **p) {
    XProv *x = (XProv *)params;
    if ((x->faults & FA_INIT) && mc_fault())
        return x->code;
    x->n_init++;
    *p = x;
    return UMF_RESULT_SUCCESS;
}
static void xp_fini(void *p) { ((XProv *)p)->n_fini++; }
static umf_result_t xp_alloc(void *p, size_t size, size_t align, void **ptr) {
    XProv *x = (XProv *)p;
    mt_mark();
    x->last_size = size;
    x->last_align = align;
    if ((x->faults & FA_ALLOC) && mc_fault()) {
        x->n_fail++;
        mc_op("  provider alloc %ld refused", (long)size);
        *ptr = NULL;
        return x->code;
    }
    if (align < x->page)
        align = x->page;
    MC_CHECK((align & (align - 1)) == 0, "prov:align", "alignment %zu asked from the provider", align);
    size_t need = (size + x->page - 1) / x->page * x->page;
    if (need < size || need == 0 || need > (X_STEP >> 1)) {
        x->n_fail++;
        *ptr = NULL;
        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    }
    uintptr_t a = x->lo() + x->page;
    a = (a + align - 1) / align * align;
    if (x->reuse) {
        for (auto &b : x->live) {
            if (a + need + x->gap <= b.first)
                break;
            uintptr_t e = b.first + (b.second.size + x->page - 1) / x->page * x->page + x->gap;
            if (e > a)
                a = (e + align - 1) / align * align;
        }
    } else {
        if (x->top > a)
            a = (x->top + align - 1) / align * align;
        x->top = a + need + x->gap;
    }
    if (a + need > x->lo() + X_STEP) {
        x->n_fail++;
        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    }
    x->live[a] = {size, ++x->gen};
    x->n_alloc++;
    *ptr = (void *)a;
    mc_op("  provider alloc size %ld -> +%lx", (long)size, (long)(a - x->lo()));
    return UMF_RESULT_SUCCESS;
}
static umf_result_t xp_free(void *p, void *ptr, size_t size) {
    XProv *x = (XProv *)p;
    mt_mark();
    auto it = x->live.find((uintptr_t)ptr);
    MC_CHECK(it != x->live.end(), "prov:free-unknown", "provider %d asked to free %p (size %zu), which is not outstanding", x->id, ptr, size);
    MC_CHECK(it->second.size == size, "prov:free-size", "provider %d asked to free %p with size %zu, allocated with %zu", x->id, ptr, size, it->second.size);
    if ((x->faults & FA_FREE) && mc_fault()) {
        x->n_fail++;
        mc_op("  provider free +%lx refused", (long)((uintptr_t)ptr - x->lo()));
        return x->code;
    }
    mc_op("  provider free +%lx size %ld", (long)((uintptr_t)ptr - x->lo()), (long)size);
    x->live.erase(it);
    x->n_free++;
    return UMF_RESULT_SUCCESS;
}
static void xp_err(void *, const char **m, int32_t *e) {
    if (m)
        *m = "model provider error";
    if (e)
        *e = 42;
}
static umf_result_t xp_rec(void *p, size_t, size_t *s) {
    *s = ((XProv *)p)->page;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t xp_min(void *p, void *, size_t *s) {
    XProv *x = (XProv *)p;
    if ((x->faults & FA_PAGE) && mc_fault())
        return x->code;
    *s = x->page;
    return UMF_RESULT_SUCCESS;
}
static const char *xp_name(void *) { return "model"; }
static umf_result_t xp_purge(void *p, void *ptr, size_t size) {
    XProv *x = (XProv *)p;
    if ((x->faults & FA_PURGE) && mc_fault())
        return x->code;
    MC_CHECK(x->holder((uintptr_t)ptr, size), "prov:purge", "purge outside a live block");
    return UMF_RESULT_SUCCESS;
}
static umf_result_t xp_split(void *p, void *ptr, size_t total, size_t first) {
    XProv *x = (XProv *)p;
    mt_mark();
    if ((x->faults & FA_SPLIT) && mc_fault()) {
        x->n_fail++;
        mc_op("  provider split refused");
        return x->code;
    }
    auto it = x->live.find((uintptr_t)ptr);
    MC_CHECK(it != x->live.end() && it->second.size == total && first > 0 && first < total, "prov:split", "provider asked to split %p total %zu first %zu, which is not an outstanding allocation of that size", ptr, total, first);
    mc_op("  provider split +%lx total %ld first %ld", (long)((uintptr_t)ptr - x->lo()), (long)total, (long)first);
    it->second.size = first;
    x->live[(uintptr_t)ptr + first] = {total - first, ++x->gen};
    return UMF_RESULT_SUCCESS;
}
static umf_result_t xp_merge(void *p, void *lo, void *hi, size_t total) {
    XProv *x = (XProv *)p;
    mt_mark();
    if ((x->faults & FA_MERGE) && mc_fault()) {
        x->n_fail++;
        mc_op("  provider merge refused");
        return x->code;
    }
    auto a = x->live.find((uintptr_t)lo), b = x->live.find((uintptr_t)hi);
    MC_CHECK(a != x->live.end() && b != x->live.end() && a->first + a->second.size == b->first && a->second.size + b->second.size == total, "prov:merge", "provider asked to merge %p and %p total %zu, which are not two such outstanding allocations", lo, hi, total);
    mc_op("  provider merge +%lx +%lx", (long)((uintptr_t)lo - x->lo()), (long)((uintptr_t)hi - x->lo()));
    a->second.size = total;
    x->live.erase(b);
    return UMF_RESULT_SUCCESS;
}
static umf_result_t xp_ipc_size(void *p, size_t *s) {
    XProv *x = (XProv *)p;
    if ((x->faults & FA_IPCSIZE) && mc_fault())
        return x->code;
    *s = sizeof(XIpc);
    return UMF_RESULT_SUCCESS;
}
static umf_result_t xp_ipc_get(void *p, const void *ptr, size_t size, void *data) {
    XProv *x = (XProv *)p;
    mt_mark();
    auto it = x->live.find((uintptr_t)ptr);
    MC_CHECK(it != x->live.end() && it->second.size == size, "prov:ipc-get", "handle requested for %p size %zu, not an outstanding allocation", ptr, size);
    if ((x->faults & FA_IPCGET) && mc_fault()) {
        x->n_fail++;
        mc_op("  provider get handle refused");
        return x->code;
    }
    XIpc h = {x->id, (uintptr_t)ptr, size, it->second.gen};
    memcpy(data, &h, sizeof h);
    x->n_get++;
    x->handles.insert(h.gen);
    mc_op("  provider get handle +%lx", (long)((uintptr_t)ptr - x->lo()));
    return UMF_RESULT_SUCCESS;
}
static umf_result_t xp_ipc_put(void *p, void *data) {
    XProv *x = (XProv *)p;
    mt_mark();
    XIpc h;
    memcpy(&h, data, sizeof h);
    auto it = x->handles.find(h.gen);
    MC_CHECK(h.prov == x->id && it != x->handles.end(), "prov:ipc-put", "provider %d asked to release a handle it has not given out (provider %ld gen %ld)", x->id, h.prov, h.gen);
    // the handle cannot be given back after a refusal: the model releases it
    x->handles.erase(it);
    x->n_put++;
    mc_op("  provider put handle +%lx", (long)(h.base - x->lo()));
    if ((x->faults & FA_IPCPUT) && mc_fault()) {
        x->n_fail++;
        return x->code;
    }
    return UMF_RESULT_SUCCESS;
}
static umf_result_t xp_ipc_open(void *p, void *data, void **ptr) {
    XProv *x = (XProv *)p;
    mt_mark();
    XIpc h;
    memcpy(&h, data, sizeof h);
    if ((x->faults & FA_IPCOPEN) && mc_fault()) {
        x->n_fail++;
        mc_op("  provider open handle refused");
        return x->code;
    }
    uintptr_t base = x->lo() + X_STEP / 2;
    if (!x->map_top)
        x->map_top = base;
    uintptr_t a = x->map_top;
    if (x->reuse) {
        a = base;
        for (auto &m : x->maps)
            if (m.first < a + h.size && a < m.first + m.second.h.size)
                a = m.first + (m.second.h.size + x->page - 1) / x->page * x->page;
    }
    uintptr_t e = a + (h.size + x->page - 1) / x->page * x->page;
    if (e > x->map_top)
        x->map_top = e;
    x->maps[a] = {h, ++x->n_map};
    x->n_open++;
    *ptr = (void *)a;
    mc_op("  provider %ld open handle of +%lx gen %ld -> map +%lx", x->id, (long)(h.base & (X_STEP - 1)), h.gen, (long)(a - base));
    return UMF_RESULT_SUCCESS;
}
static umf_result_t xp_ipc_close(void *p, void *ptr, size_t size) {
    XProv *x = (XProv *)p;
    mt_mark();
    auto it = x->maps.find((uintptr_t)ptr);
    MC_CHECK(it != x->maps.end(), "prov:ipc-close", "provider %d asked to close %p, which it has not open", x->id, ptr);
    MC_CHECK(it->second.h.size == size, "prov:ipc-close-size", "mapping %p closed with size %zu instead of %zu", ptr, size, it->second.h.size);
    mc_op("  provider %ld close mapping", x->id);
    x->maps.erase(it);
    x->n_close++;
    if ((x->faults & FA_IPCCLOSE) && mc_fault()) {
        x->n_fail++;
        return x->code;
    }
    return UMF_RESULT_SUCCESS;
}
}
static umf_memory_provider_ops_t xp_ops() {
    umf_memory_provider_ops_t o;
    memset(&o, 0, sizeof o);
    o.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
    o.initialize = xp_init;
    o.finalize = xp_fini;
    o.alloc = xp_alloc;
    o.free = xp_free;
    o.get_last_native_error = xp_err;
    o.get_recommended_page_size = xp_rec;
    o.get_min_page_size = xp_min;
    o.get_name = xp_name;
    o.ext.purge_lazy = xp_purge;
    o.ext.purge_force = xp_purge;
    o.ext.allocation_split = xp_split;
    o.ext.allocation_merge = xp_merge;
    o.ipc.get_ipc_handle_size = xp_ipc_size;
    o.ipc.get_ipc_handle = xp_ipc_get;
    o.ipc.put_ipc_handle = xp_ipc_put;
    o.ipc.open_ipc_handle = xp_ipc_open;
    o.ipc.close_ipc_handle = xp_ipc_close;
    return o;
}
static umf_memory_provider_ops_t XP_OPS = xp_ops();
static umf_memory_provider_handle_t x_provider(XProv *x) {
    umf_memory_provider_handle_t h = nullptr;
    umf_result_t r = umfMemoryProviderCreate(&XP_OPS, x, &h);
    MC_CHECK(r == UMF_RESULT_SUCCESS && h, "setup:provider", "umfMemoryProviderCreate = %d", r);
    return h;
}
// Every execution brings the library up and down again, so that whatever is
// still held afterwards was lost.
struct XLib {
    size_t live0, pools0;
    XLib() {
        mc_ba_rewind();
        live0 = mc_ba_live();
        pools0 = mc_ba_pools();
        if (umfInit() != 0)
            mc_fail("setup:init", "umfInit failed");
    }
    void done() {
        umfTearDown();
        if (mc_ba_live() != live0 || mc_ba_pools() != pools0) {
            mc_ba_dump();
            mc_fail("lib:leak", "%ld internal blocks and %ld internal pools outstanding after everything was destroyed", (long)(mc_ba_live() - live0), (long)(mc_ba_pools() - pools0));
        }
    }
};
// undo the constructor's initialisation; call once before the workers fork
static void x_down() { umfTearDown(); }
// memory behind the model providers; call once before the workers fork
static void x_arena(int n = 8) {
    for (int i = 0; i < n; i++) {
        void *p = mmap((void *)(X_ARENA + (uintptr_t)i * X_STEP), X_STEP, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p == MAP_FAILED) {
            perror("x_arena");
            exit(2);
        }
    }
}

// Pass-through pool: hands the (tracking) provider it is given to the harness.
struct PPool {
    umf_memory_provider_handle_t prov = nullptr;
    int n_init = 0, n_fini = 0;
};
extern "C" {
static umf_result_t pp_init(umf_memory_provider_handle_t h, void *params, void **pool) {
    PPool *p = (PPool *)params;
    p->prov = h;
    p->n_init++;
    *pool = p;
    return UMF_RESULT_SUCCESS;
}
static void pp_fini(void *p) { ((PPool *)p)->n_fini++; }
static void *pp_malloc(void *p, size_t n) {
    void *r = nullptr;
    return umfMemoryProviderAlloc(((PPool *)p)->prov, n, 0, &r) == UMF_RESULT_SUCCESS ? r : nullptr;
}
static void *pp_amalloc(void *p, size_t n, size_t a) {
    void *r = nullptr;
    return umfMemoryProviderAlloc(((PPool *)p)->prov, n, a, &r) == UMF_RESULT_SUCCESS ? r : nullptr;
}
static void *pp_calloc(void *, size_t, size_t) { return nullptr; }
static void *pp_realloc(void *, void *, size_t) { return nullptr; }
static size_t pp_usable(void *, void *) { return 0; }
static umf_result_t pp_free(void *p, void *ptr) { return ptr ? umfMemoryProviderFree(((PPool *)p)->prov, ptr, 0) : UMF_RESULT_SUCCESS; }
static umf_result_t pp_err(void *) { return UMF_RESULT_SUCCESS; }
}
static umf_memory_pool_ops_t pp_mk() {
    umf_memory_pool_ops_t o;
    memset(&o, 0, sizeof o);
    o.version = UMF_POOL_OPS_VERSION_CURRENT;
    o.initialize = pp_init;
    o.finalize = pp_fini;
    o.malloc = pp_malloc;
    o.calloc = pp_calloc;
    o.realloc = pp_realloc;
    o.aligned_malloc = pp_amalloc;
    o.malloc_usable_size = pp_usable;
    o.free = pp_free;
    o.get_last_allocation_error = pp_err;
    return o;
}
static umf_memory_pool_ops_t PP_OPS = pp_mk();
