// Pools that hand their requests straight to the (tracking) provider they get;
// the upstream provider answers with the address chosen by the harness.
#pragma once
#include "umfx.hpp"
#include <umf/ipc.h>
#include "ipc_internal.h"
#include "provider_tracking.h"

static const int NU = 24; // address space in units
static size_t U = 16;
static uintptr_t BASE = 0x200000000000ull;
static uintptr_t at(int u) { return BASE + (uintptr_t)u * U; }

struct ZProv {
    int id = 0;
    std::map<uintptr_t, size_t> live;
    int faults = 0;
    bool bad_split = false;
    long n_alloc = 0, n_free = 0;
    std::map<uintptr_t, size_t> handles; // outstanding IPC handles: base -> size
};
struct ZH {
    uintptr_t base;
    size_t size;
};
static uintptr_t g_next[8]; // address for the next allocation, per thread
static uintptr_t &nextaddr() { return g_next[mt_self() + 1]; }
extern "C" {
static umf_result_t z_init(void *params, void **p) { return *p = params, UMF_RESULT_SUCCESS; }
static void z_fini(void *) {}
static umf_result_t z_alloc(void *p, size_t size, size_t, void **ptr) {
    ZProv *z = (ZProv *)p;
    mt_mark();
    if ((z->faults & FA_ALLOC) && mc_fault()) {
        mc_op("  upstream alloc refused");
        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    }
    z->live[nextaddr()] = size;
    z->n_alloc++;
    *ptr = (void *)nextaddr();
    return UMF_RESULT_SUCCESS;
}
static umf_result_t z_free(void *p, void *ptr, size_t size) {
    ZProv *z = (ZProv *)p;
    mt_mark();
    auto it = z->live.find((uintptr_t)ptr);
    if (it == z->live.end() || it->second != size) {
        mc_op("  upstream refuses to free +%lx size %ld", (long)((uintptr_t)ptr - BASE), (long)size);
        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
    }
    if ((z->faults & FA_FREE) && mc_fault()) {
        mc_op("  upstream free refused");
        return UMF_RESULT_ERROR_UNKNOWN;
    }
    z->live.erase(it);
    z->n_free++;
    return UMF_RESULT_SUCCESS;
}
// upstream providers such as the OS provider accept any arguments here
static umf_result_t z_split(void *p, void *ptr, size_t total, size_t first) {
    ZProv *z = (ZProv *)p;
    mt_mark();
    if ((z->faults & FA_SPLIT) && mc_fault()) {
        mc_op("  upstream split refused");
        return UMF_RESULT_ERROR_NOT_SUPPORTED;
    }
    auto it = z->live.find((uintptr_t)ptr);
    if (it == z->live.end() || it->second != total || first == 0 || first >= total) {
        z->bad_split = true;
        mc_op("  upstream got an impossible split");
        return UMF_RESULT_SUCCESS;
    }
    it->second = first;
    z->live[(uintptr_t)ptr + first] = total - first;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t z_merge(void *p, void *lo, void *hi, size_t total) {
    ZProv *z = (ZProv *)p;
    mt_mark();
    if ((z->faults & FA_MERGE) && mc_fault()) {
        mc_op("  upstream merge refused");
        return UMF_RESULT_ERROR_NOT_SUPPORTED;
    }
    auto a = z->live.find((uintptr_t)lo), b = z->live.find((uintptr_t)hi);
    if (a == z->live.end() || b == z->live.end() || a->first + a->second != b->first || a->second + b->second != total) {
        z->bad_split = true;
        mc_op("  upstream got an impossible merge");
        return UMF_RESULT_SUCCESS;
    }
    a->second = total;
    z->live.erase(b);
    return UMF_RESULT_SUCCESS;
}
static void z_err(void *, const char **, int32_t *) {}
static umf_result_t z_pg(void *, size_t, size_t *s) { return *s = 16, UMF_RESULT_SUCCESS; }
static umf_result_t z_mpg(void *, void *, size_t *s) { return *s = 16, UMF_RESULT_SUCCESS; }
static const char *z_name(void *) { return "z"; }
static umf_result_t z_hsize(void *, size_t *s) { return *s = sizeof(ZH), UMF_RESULT_SUCCESS; }
static umf_result_t z_hget(void *p, const void *ptr, size_t size, void *d) {
    ZProv *z = (ZProv *)p;
    auto it = z->live.find((uintptr_t)ptr);
    MC_CHECK(it != z->live.end() && it->second == size, "trk:ipc-range", "handle of provider %d requested for +%lx size %zu, which is not one of its allocations", z->id, (uintptr_t)ptr - BASE, size);
    MC_CHECK(!z->handles.count((uintptr_t)ptr), "trk:ipc-twice", "second handle requested for +%lx", (uintptr_t)ptr - BASE);
    z->handles[(uintptr_t)ptr] = size;
    ZH h{(uintptr_t)ptr, size};
    memcpy(d, &h, sizeof h);
    return UMF_RESULT_SUCCESS;
}
static umf_result_t z_hput(void *p, void *d) {
    ZProv *z = (ZProv *)p;
    ZH h;
    memcpy(&h, d, sizeof h);
    auto it = z->handles.find(h.base);
    MC_CHECK(it != z->handles.end() && it->second == h.size, "trk:ipc-put", "handle of +%lx size %zu released, which is not outstanding", h.base - BASE, h.size);
    z->handles.erase(it);
    return UMF_RESULT_SUCCESS;
}
static umf_result_t z_hopen(void *, void *, void **) { return UMF_RESULT_ERROR_NOT_SUPPORTED; }
static umf_result_t z_hclose(void *, void *, size_t) { return UMF_RESULT_ERROR_NOT_SUPPORTED; }
}
static umf_memory_provider_ops_t z_ops() {
    umf_memory_provider_ops_t o;
    memset(&o, 0, sizeof o);
    o.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
    o.initialize = z_init, o.finalize = z_fini, o.alloc = z_alloc, o.free = z_free;
    o.get_last_native_error = z_err, o.get_recommended_page_size = z_pg, o.get_min_page_size = z_mpg, o.get_name = z_name;
    o.ext.allocation_split = z_split, o.ext.allocation_merge = z_merge;
    o.ipc.get_ipc_handle_size = z_hsize, o.ipc.get_ipc_handle = z_hget, o.ipc.put_ipc_handle = z_hput;
    o.ipc.open_ipc_handle = z_hopen, o.ipc.close_ipc_handle = z_hclose;
    return o;
}
struct ZPool;
static umf_result_t zp_free(void *p, void *ptr);
static umf_memory_pool_ops_t zp_mk() {
    umf_memory_pool_ops_t o = PP_OPS;
    o.free = zp_free;
    return o;
}
static umf_memory_pool_ops_t ZP_OPS = zp_mk();
static umf_memory_provider_ops_t Z_OPS = z_ops();
struct ZPool : PPool { // PPool first: pp_init fills it
    ZProv z;
    umf_memory_provider_handle_t up = nullptr;
    umf_memory_pool_handle_t h = nullptr;
    long frees = 0;
    void create(int id) {
        z.id = id;
        MC_CHECK(umfMemoryProviderCreate(&Z_OPS, &z, &up) == UMF_RESULT_SUCCESS, "setup:provider", "provider");
        MC_CHECK(umfPoolCreate(&ZP_OPS, up, static_cast<PPool *>(this), 0, &h) == UMF_RESULT_SUCCESS, "setup:pool", "pool");
    }
    void destroy() {
        umfPoolDestroy(h);
        umfMemoryProviderDestroy(up);
        MC_CHECK(z.handles.empty(), "trk:ipc-leak", "%zu provider handles never released", z.handles.size());
    }
};
static umf_result_t zp_free(void *p, void *ptr) {
    ZPool *z = static_cast<ZPool *>((PPool *)p);
    z->frees++;
    auto it = z->z.live.find((uintptr_t)ptr);
    return umfMemoryProviderFree(z->prov, ptr, it == z->z.live.end() ? 0 : it->second);
}
struct Blk {
    int pool, lvl, lo, hi;
};
struct Info {
    umf_memory_pool_handle_t pool = nullptr;
    uintptr_t base = 0;
    size_t size = 0;
};
static Info look(uintptr_t a) {
    Info r;
    umf_alloc_info_t i = {nullptr, 0, nullptr};
    if (umfMemoryTrackerGetAllocInfo((void *)a, &i) == UMF_RESULT_SUCCESS)
        r = {i.pool, (uintptr_t)i.base, i.baseSize};
    return r;
}
static const Blk *inner(const std::vector<Blk> &v, uintptr_t a) {
    const Blk *b = nullptr;
    for (auto &x : v)
        if (a >= at(x.lo) && a < at(x.hi) && (!b || x.lvl > b->lvl))
            b = &x;
    return b;
}
static uint64_t vhash(std::vector<Blk> v) {
    uint64_t s = 0;
    for (auto &b : v)
        s += mc_mix(mc_mix(b.pool, b.lo), b.hi);
    return s;
}
static void verify(const std::vector<Blk> &v, ZPool *P, int np, int lo, int hi, bool ipc) {
    for (int u = lo; u <= hi; u++)
        for (int d = -1; d <= 1; d++) {
            uintptr_t a = at(u) + (uintptr_t)(long)d;
            const Blk *b = inner(v, a);
            Info i = look(a);
            umf_memory_pool_handle_t o = umfPoolByPtr((void *)a);
            if (!b) {
                MC_CHECK(!i.pool && !o, "trk:ghost", "address +%lx outside all live allocations resolves to a pool (base +%lx size %zu)", a - BASE, i.base - BASE, i.size);
                continue;
            }
            MC_CHECK(o == P[b->pool].h, "trk:owner", "address +%lx inside a live allocation of pool %d (units %d-%d) resolves to %s", a - BASE, b->pool, b->lo, b->hi, o ? "another pool" : "no pool");
            MC_CHECK(i.pool == o && i.base == at(b->lo) && i.size == (size_t)(b->hi - b->lo) * U, "trk:range", "address +%lx: reported base +%lx size %zu, allocation is units %d-%d", a - BASE, i.base - BASE, i.size, b->lo, b->hi);
            if (ipc) {
                umf_ipc_handle_t h = nullptr;
                size_t s = 0;
                umf_result_t r = umfGetIPCHandle((void *)a, &h, &s);
                MC_CHECK(r == UMF_RESULT_SUCCESS, "trk:ipc", "umfGetIPCHandle of a live block = %d", r);
                ZH zh;
                memcpy(&zh, h->providerIpcData, sizeof zh);
                MC_CHECK(h->base == (void *)i.base && h->baseSize == i.size && h->offset == a - i.base && zh.base == i.base && zh.size == i.size, "trk:ipc", "handle of +%lx describes base +%lx size %zu", a - BASE, zh.base - BASE, zh.size);
                umfPutIPCHandle(h);
            }
        }
    for (int k = 0; k < np; k++) {
        size_t n = 0;
        for (auto &b : v)
            if (b.pool == k) {
                n++;
                auto it = P[k].z.live.find(at(b.lo));
                MC_CHECK(it != P[k].z.live.end() && it->second == (size_t)(b.hi - b.lo) * U, "trk:upstream", "block units %d-%d of pool %d is not one upstream allocation", b.lo, b.hi, k);
            }
        MC_CHECK(n == P[k].z.live.size(), "trk:upstream", "pool %d has %zu upstream allocations, %zu live", k, P[k].z.live.size(), n);
    }
}
