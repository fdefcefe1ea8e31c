// C09: every place at which something below the library can fail, over programs that use every kind of object.
#include "numa.hpp"
#include "tbbmodel.hpp"
#include <umf/ipc.h>
#include <umf/mempolicy.h>
#include <umf/memspace.h>
#include <umf/memtarget.h>
#include <umf/pools/pool_disjoint.h>
#include <umf/pools/pool_proxy.h>
#include <umf/pools/pool_scalable.h>
#include <umf/providers/provider_devdax_memory.h>
#include <umf/providers/provider_file_memory.h>
#include <umf/providers/provider_fixed_memory.h>
#include <umf/providers/provider_os_memory.h>
static const size_t MB2 = (size_t)2 << 20;
typedef umf_result_t R;
static const R OK = UMF_RESULT_SUCCESS;
// what is held below the library and inside it
struct Held {
    size_t ba, pools, mapped, fds;
    long bitmaps, blocks, bytes, maps, handles, tbb, lib;
};
static int NX;
static XProv X[4];
static Held held() {
    Held h{mc_ba_live(), mc_ba_pools(), OS.mapped(), OS.fds.size(), HW.bitmaps, 0, 0, 0, 0, TB.pools, TB.opened};
    for (int i = 0; i < NX; i++) {
        h.blocks += (long)X[i].live.size();
        h.bytes += (long)X[i].bytes();
        h.maps += (long)X[i].maps.size();
        h.handles += (long)X[i].handles.size();
    }
    return h;
}
// a pool and a block that exist while everything else happens
struct Base {
    XProv x;
    umf_memory_provider_handle_t prov = nullptr;
    umf_memory_pool_handle_t pool = nullptr;
    char *blk = nullptr;
    void make() {
        x.id = 7;
        prov = x_provider(&x);
        MC_CHECK(umfPoolCreate(umfProxyPoolOps(), prov, nullptr, 0, &pool) == OK, "setup:base", "cannot create the first pool");
        blk = (char *)umfPoolMalloc(pool, 1000);
        MC_CHECK(blk, "setup:base", "cannot allocate");
        memset(blk, 0x77, 1000);
        // whatever is prepared on the first uses
        for (int i = 0; i < 40; i++)
            check();
    }
    void check() {
        MC_CHECK(umfPoolByPtr(blk + 999) == pool, "flt:other", "an older pool lost its block");
        for (int i = 0; i < 1000; i += 111)
            MC_CHECK(blk[i] == 0x77, "flt:other", "an older block changed");
        void *q = umfPoolMalloc(pool, 5000);
        MC_CHECK(q && umfPoolByPtr(q) == pool && umfPoolFree(pool, q) == OK, "flt:other", "an older pool stopped working");
    }
    void down() {
        MC_CHECK(umfFree(blk) == OK, "flt:other", "an older block cannot be freed");
        umfPoolDestroy(pool);
        umfMemoryProviderDestroy(prov);
        MC_CHECK(x.live.empty() && x.n_init == 1 && x.n_fini == 1, "flt:other", "the older provider was not released");
    }
};
static Base *B;
// the same program without failures, step by step
static std::vector<Held> REF;
static bool rec;
static size_t stepno;
static long slack; // cached index nodes
static int xfaults;
static bool missing, grown; // after a failure: built once, memory kept for later
static void on() {
    mc_ba_faults(1), mc_mutex_faults(1);
    OS.faults = 4095 & ~OSF_MUNMAP;
    for (int i = 0; i < NX; i++)
        X[i].faults = xfaults;
}
static void off() {
    mc_ba_faults(0), mc_mutex_faults(0);
    OS.faults = 0;
    for (int i = 0; i < NX; i++)
        X[i].faults = 0;
}
enum {
    ANY = 1,   // a failure may leave reusable index nodes
    GROW = 2,  // and provider memory a pool keeps for later
    ONCE = 4,  // built once, not tried again before a restart
    NAMED = 8, // see known_findings.txt: the first open removes the name
};
static void same(const Held &a, const Held &b, const char *name, const char *when, bool grow, long ba) {
    long d = (long)b.ba - (long)a.ba;
    MC_CHECK(b.fds <= a.fds, "flt:fd", "%s: %ld descriptors %s", name, (long)(b.fds - a.fds), when);
    MC_CHECK(b.bitmaps <= a.bitmaps, "flt:bitmap", "%s: %ld node sets %s", name, b.bitmaps - a.bitmaps, when);
    MC_CHECK(b.handles <= a.handles && b.maps <= a.maps, "flt:ipc", "%s: %ld handles and %ld mappings %s", name, b.handles - a.handles, b.maps - a.maps, when);
    MC_CHECK(b.tbb <= a.tbb, "flt:tbb", "%s: %ld TBB pools %s", name, b.tbb - a.tbb, when);
    if (grow)
        return;
    MC_CHECK(b.mapped <= a.mapped, "flt:map", "%s: %ld bytes of address space %s", name, (long)(b.mapped - a.mapped), when);
    MC_CHECK(b.blocks <= a.blocks && b.bytes <= a.bytes, "flt:prov", "%s: %ld provider allocations (%ld bytes) %s", name, b.blocks - a.blocks, b.bytes - a.bytes, when);
    MC_CHECK(b.pools <= a.pools, "flt:pool", "%s: %ld internal pools %s", name, (long)(b.pools - a.pools), when);
    if (d > ba)
        mc_ba_dump();
    MC_CHECK(d <= ba, "flt:meta", "%s: %ld internal blocks %s", name, d, when);
}
// One call that must succeed unless something below it is refused, until it succeeds.
static void step(const char *name, int how, const std::function<R()> &f, const std::function<void()> &use = nullptr) {
    for (;;) {
        Held h0 = held();
        int f0 = mc_faults_used();
        if (!rec)
            on();
        R r = f();
        off();
        bool flt = mc_faults_used() > f0;
        // a refused free whose undoing is refused too: nobody can know what the provider still holds
        if (mc_faults_used() > f0 + 1 && strstr(name, "free"))
            mc_prune();
        if (!rec)
            mc_note("%s = %d%s", name, (int)r, flt ? " (something was refused)" : "");
        if (r != OK && !flt && (how & NAMED))
            mc_fail("flt:named-second-open", "%s: cannot be tried again after a failure, the shared memory name is gone", name);
        MC_CHECK(r == OK || flt, "flt:refused", "%s = %d although nothing was refused", name, (int)r);
        Held h1 = held();
        B->check();
        if (flt && (how & GROW))
            grown = true;
        if (r == OK)
            break;
        same(h0, h1, name, "held after a failure", how & GROW, how & ANY ? 4 : 0);
        mc_state(mc_mix(stepno * 64 + (uint64_t)r, (uint64_t)(mc_faults_used() - f0)));
        if (how & ONCE) {
            missing = true;
            return;
        }
    }
    if (use)
        use();
    if (rec)
        REF.push_back(held());
    else {
        // what was tried and failed before leaves no difference
        same(REF[stepno], held(), name, "more than without the failure", (how & GROW) || grown, slack);
    }
    stepno++;
}
static void *blk(const char *name, int how, umf_memory_pool_handle_t pool, size_t n, const std::function<void *()> &f) {
    void *p = nullptr;
    step(name, how, [&] {
        p = f();
        return p ? OK : UMF_RESULT_ERROR_UNKNOWN;
    }, [&] {
        memset(p, 0x31, n > 64 ? 64 : n);
        ((char *)p)[n - 1] = 0x31;
        if (pool)
            MC_CHECK(umfPoolByPtr((char *)p + n - 1) == pool, "flt:unusable", "%s: the block is not found", name);
    });
    return p;
}
// a call without a result
static void gone(const char *name, int how, const std::function<void()> &f) {
    step(name, how, [&] {
        f();
        return OK;
    });
}
#define S(name, expr) step(name, 0, [&]() -> R { return (expr); })
#define SG(name, how, expr) step(name, how, [&]() -> R { return (expr); })
#define V(name, expr) gone(name, 0, [&] { expr; })
typedef umf_memory_provider_handle_t Prov;
typedef umf_memory_pool_handle_t Pool;
// ---- providers ------------------------------------------------------------------
static void use_provider(Prov h, size_t unit, bool split, int how) {
    how |= ANY;
    void *a = nullptr, *b = nullptr;
    SG("provider alloc", how, umfMemoryProviderAlloc(h, unit * 4, 0, &a));
    memset(a, 1, unit * 4);
    SG("provider aligned alloc", how, umfMemoryProviderAlloc(h, unit * 2, unit * 2, &b));
    MC_CHECK((uintptr_t)b % (unit * 2) == 0 && ((char *)b + unit * 2 <= (char *)a || (char *)a + unit * 4 <= (char *)b), "flt:unusable", "bad block");
    memset(b, 2, unit * 2);
    if (split) {
        SG("allocation split", how, umfMemoryProviderAllocationSplit(h, a, unit * 4, unit));
        SG("allocation merge", how, umfMemoryProviderAllocationMerge(h, a, (char *)a + unit, unit * 4));
        SG("allocation split again", how, umfMemoryProviderAllocationSplit(h, a, unit * 4, unit * 2));
        SG("free upper part", how, umfMemoryProviderFree(h, (char *)a + unit * 2, unit * 2));
        SG("free lower part", how, umfMemoryProviderFree(h, a, unit * 2));
    } else
        SG("provider free", how, umfMemoryProviderFree(h, a, unit * 4));
    for (size_t i = 0; i < unit * 2; i += 97)
        MC_CHECK(((char *)b)[i] == 2, "flt:unusable", "the contents of a block changed");
    SG("provider free", how, umfMemoryProviderFree(h, b, unit * 2));
}
// a pool over a provider with sharing
static void use_pool(Pool p, size_t n, int ipc, int how) {
    how |= ANY;
    char *a = (char *)blk("pool malloc", how, p, n, [&] { return umfPoolMalloc(p, n); });
    char *b = (char *)blk("pool aligned malloc", how, p, n, [&] { return umfPoolAlignedMalloc(p, n, 256); });
    if (ipc) {
        umf_ipc_handle_t ih = nullptr, ih2 = nullptr;
        umf_ipc_handler_handle_t hd = nullptr;
        size_t sz = 0;
        void *o = nullptr, *o2 = nullptr;
        strcpy(a, "shared");
        SG("handle size", how, umfPoolGetIPCHandleSize(p, &sz));
        SG("get handle", how, umfGetIPCHandle(a, &ih, &sz));
        SG("get handle again", how, umfGetIPCHandle(a + n - 1, &ih2, &sz));
        S("get handler", umfPoolGetIPCHandler(p, &hd));
        SG("open handle", how | (ipc & 2 ? NAMED : 0), umfOpenIPCHandle(hd, ih, &o));
        if (OS.on && OS.at((uintptr_t)o))
            MC_CHECK(!strcmp((char *)o, "shared"), "flt:unusable", "other memory was opened");
        SG("open handle again", how, umfOpenIPCHandle(hd, ih2, &o2));
        MC_CHECK((char *)o2 == (char *)o + n - 1, "flt:unusable", "the same allocation was opened elsewhere");
        SG("close handle", how, umfCloseIPCHandle(o));
        SG("close last handle", how, umfCloseIPCHandle(o2));
        SG("put handle", how, umfPutIPCHandle(ih));
        SG("put last handle", how, umfPutIPCHandle(ih2));
    }
    MC_CHECK(a[n - 1] == 0x31 && b[n - 1] == 0x31, "flt:unusable", "the contents of a block changed");
    SG("pool free", how, umfPoolFree(p, a));
    SG("free by address", how, umfFree(b));
}
static void t_os() {
    Prov h = nullptr;
    umf_os_memory_provider_params_handle_t q = nullptr;
    unsigned nodes[2] = {0, 2}, more[3] = {5, 2, 0};
    umf_numa_split_partition_t part[3] = {{1, 5}, {2, 2}, {1, 0}};
    S("os params create", umfOsMemoryProviderParamsCreate(&q));
    S("set numa list", umfOsMemoryProviderParamsSetNumaList(q, nodes, 2));
    S("replace numa list", umfOsMemoryProviderParamsSetNumaList(q, more, 3));
    S("set partitions", umfOsMemoryProviderParamsSetPartitions(q, part, 2));
    S("replace partitions", umfOsMemoryProviderParamsSetPartitions(q, part, 3));
    S("set mode", umfOsMemoryProviderParamsSetNumaMode(q, UMF_NUMA_MODE_SPLIT));
    S("os provider create", umfMemoryProviderCreate(umfOsMemoryProviderOps(), q, &h));
    S("os params destroy", umfOsMemoryProviderParamsDestroy(q));
    use_provider(h, OS_PG, true, 0);
    void *a = nullptr;
    S("provider alloc", umfMemoryProviderAlloc(h, 8 * OS_PG, 0, &a));
    S("purge lazy", umfMemoryProviderPurgeLazy(h, a, 8 * OS_PG));
    S("purge force", umfMemoryProviderPurgeForce(h, a, 8 * OS_PG));
    S("provider free", umfMemoryProviderFree(h, a, 8 * OS_PG));
    V("os provider destroy", umfMemoryProviderDestroy(h));
}
static void t_os_shared() {
    Prov h = nullptr;
    Pool p = nullptr;
    umf_os_memory_provider_params_handle_t q = nullptr;
    S("os params create", umfOsMemoryProviderParamsCreate(&q));
    S("set visibility", umfOsMemoryProviderParamsSetVisibility(q, UMF_MEM_MAP_SHARED));
    if (mc_param("shm", 0))
        S("set name", umfOsMemoryProviderParamsSetShmName(q, "shm"));
    S("os provider create", umfMemoryProviderCreate(umfOsMemoryProviderOps(), q, &h));
    S("os params destroy", umfOsMemoryProviderParamsDestroy(q));
    use_provider(h, OS_PG, true, 0);
    S("pool create", umfPoolCreate(umfProxyPoolOps(), h, nullptr, UMF_POOL_CREATE_FLAG_OWN_PROVIDER, &p));
    use_pool(p, 2 * OS_PG, mc_param("shm", 0) ? 3 : 1, 0);
    V("pool destroy", umfPoolDestroy(p));
}
static void t_file() {
    Prov h = nullptr;
    Pool p = nullptr;
    umf_file_memory_provider_params_handle_t q = nullptr;
    S("file params create", umfFileMemoryProviderParamsCreate(&q, "/model/other"));
    S("set path", umfFileMemoryProviderParamsSetPath(q, "/model/f"));
    S("set visibility", umfFileMemoryProviderParamsSetVisibility(q, UMF_MEM_MAP_SHARED));
    S("file provider create", umfMemoryProviderCreate(umfFileMemoryProviderOps(), q, &h));
    S("file params destroy", umfFileMemoryProviderParamsDestroy(q));
    use_provider(h, OS_PG, true, GROW);
    S("pool create", umfPoolCreate(umfProxyPoolOps(), h, nullptr, UMF_POOL_CREATE_FLAG_OWN_PROVIDER, &p));
    use_pool(p, 2 * OS_PG, true, GROW);
    V("pool destroy", umfPoolDestroy(p));
}
static void t_devdax() {
    Prov h = nullptr;
    Pool p = nullptr;
    umf_devdax_memory_provider_params_handle_t q = nullptr;
    S("devdax params create", umfDevDaxMemoryProviderParamsCreate(&q, "/dev/dax0.1", MB2));
    S("set device", umfDevDaxMemoryProviderParamsSetDeviceDax(q, "/dev/dax0.0", 16 * MB2));
    S("devdax provider create", umfMemoryProviderCreate(umfDevDaxMemoryProviderOps(), q, &h));
    S("devdax params destroy", umfDevDaxMemoryProviderParamsDestroy(q));
    use_provider(h, OS_PG, true, GROW);
    S("pool create", umfPoolCreate(umfProxyPoolOps(), h, nullptr, UMF_POOL_CREATE_FLAG_OWN_PROVIDER, &p));
    use_pool(p, 2 * OS_PG, true, GROW);
    V("pool destroy", umfPoolDestroy(p));
}
static void t_fixed() {
    Prov h = nullptr;
    Pool p = nullptr, d = nullptr;
    umf_fixed_memory_provider_params_handle_t q = nullptr;
    umf_disjoint_pool_params_handle_t dp = nullptr;
    char *mem = (char *)blk("pool malloc", 0, B->pool, 1 << 20, [&] { return umfPoolMalloc(B->pool, 1 << 20); });
    S("fixed params create", umfFixedMemoryProviderParamsCreate(&q, mem, OS_PG));
    S("set memory", umfFixedMemoryProviderParamsSetMemory(q, mem, 1 << 20));
    S("fixed provider create", umfMemoryProviderCreate(umfFixedMemoryProviderOps(), q, &h));
    S("fixed params destroy", umfFixedMemoryProviderParamsDestroy(q));
    use_provider(h, OS_PG, true, GROW);
    S("pool create", umfPoolCreate(umfProxyPoolOps(), h, nullptr, 0, &p));
    use_pool(p, 2 * OS_PG, false, GROW);
    S("disjoint params create", umfDisjointPoolParamsCreate(&dp));
    S("set slab", umfDisjointPoolParamsSetSlabMinSize(dp, 65536));
    S("set poolable", umfDisjointPoolParamsSetMaxPoolableSize(dp, 4096));
    S("disjoint pool create", umfPoolCreate(umfDisjointPoolOps(), h, dp, 0, &d));
    S("disjoint params destroy", umfDisjointPoolParamsDestroy(dp));
    use_pool(d, 200, false, GROW);
    V("pool destroy", umfPoolDestroy(d));
    V("pool destroy", umfPoolDestroy(p));
    V("fixed provider destroy", umfMemoryProviderDestroy(h));
    S("pool free", umfPoolFree(B->pool, mem));
}
// ---- pools over a provider whose callbacks fail -----------------------------------
static void t_disjoint() {
    Prov h = nullptr;
    Pool p = nullptr, p2 = nullptr;
    umf_disjoint_pool_params_handle_t q = nullptr;
    umf_disjoint_pool_shared_limits_handle_t l = nullptr;
    S("provider create", umfMemoryProviderCreate(&XP_OPS, &X[0], &h));
    S("limits create", (l = umfDisjointPoolSharedLimitsCreate(1 << 20)) ? OK : UMF_RESULT_ERROR_UNKNOWN);
    S("disjoint params create", umfDisjointPoolParamsCreate(&q));
    S("set slab", umfDisjointPoolParamsSetSlabMinSize(q, 8192));
    S("set poolable", umfDisjointPoolParamsSetMaxPoolableSize(q, 4096));
    S("set capacity", umfDisjointPoolParamsSetCapacity(q, 2));
    S("set bucket", umfDisjointPoolParamsSetMinBucketSize(q, 64));
    S("set limits", umfDisjointPoolParamsSetSharedLimits(q, l));
    S("set name", umfDisjointPoolParamsSetName(q, "a"));
    S("set other name", umfDisjointPoolParamsSetName(q, "a longer name of this pool"));
    S("disjoint pool create", umfPoolCreate(umfDisjointPoolOps(), h, q, 0, &p));
    S("second pool create", umfPoolCreate(umfDisjointPoolOps(), h, q, 0, &p2));
    S("disjoint params destroy", umfDisjointPoolParamsDestroy(q));
    use_pool(p, 100, 1, GROW);
    use_pool(p2, 100, false, GROW);
    std::vector<void *> v;
    for (int i = 0; i < 3; i++) // three slabs
        v.push_back(blk("large chunk", GROW, p, 4096, [&] { return umfPoolMalloc(p, 4096); }));
    for (void *b : v)
        SG("free chunk", GROW, umfPoolFree(p, b));
    use_pool(p, 20000, false, GROW);
    V("pool destroy", umfPoolDestroy(p));
    V("second pool destroy", umfPoolDestroy(p2));
    V("limits destroy", umfDisjointPoolSharedLimitsDestroy(l));
    V("provider destroy", umfMemoryProviderDestroy(h));
}
static void t_proxy() {
    Prov h = nullptr;
    Pool p = nullptr;
    S("provider create", umfMemoryProviderCreate(&XP_OPS, &X[0], &h));
    S("pool create", umfPoolCreate(umfProxyPoolOps(), h, nullptr, 0, &p));
    use_pool(p, 5000, true, 0);
    use_pool(p, 3, false, 0);
    V("pool destroy", umfPoolDestroy(p));
    S("untracked pool create", umfPoolCreate(umfProxyPoolOps(), h, nullptr, UMF_POOL_CREATE_FLAG_DISABLE_TRACKING, &p));
    V("pool destroy", umfPoolDestroy(p));
    S("owning pool create", umfPoolCreate(umfProxyPoolOps(), h, nullptr, UMF_POOL_CREATE_FLAG_OWN_PROVIDER, &p));
    use_pool(p, 64, false, 0);
    V("pool destroy", umfPoolDestroy(p));
}
static void t_scalable() {
    TB.model = (int)mc_param("model", 1);
    Prov h = nullptr;
    Pool p = nullptr, p2 = nullptr;
    umf_scalable_pool_params_handle_t q = nullptr;
    S("provider create", umfMemoryProviderCreate(&XP_OPS, &X[0], &h));
    S("scalable params create", umfScalablePoolParamsCreate(&q));
    S("set granularity", umfScalablePoolParamsSetGranularity(q, 65536));
    S("scalable pool create", umfPoolCreate(umfScalablePoolOps(), h, q, 0, &p));
    S("set keep", umfScalablePoolParamsSetKeepAllMemory(q, true));
    S("second pool create", umfPoolCreate(umfScalablePoolOps(), h, q, 0, &p2));
    S("scalable params destroy", umfScalablePoolParamsDestroy(q));
    int how = GROW;
    use_pool(p, 100, 1, how);
    char *a = (char *)blk("calloc", how, p, 900, [&] { return umfPoolCalloc(p, 3, 300); });
    MC_CHECK(a[100] == 0, "flt:unusable", "calloc");
    char *b = nullptr;
    SG("realloc", how, (b = (char *)umfPoolRealloc(p, a, 100000)) ? OK : UMF_RESULT_ERROR_UNKNOWN);
    MC_CHECK(b[0] == 0x31 && b[899] == 0x31, "flt:unusable", "realloc");
    SG("pool free", how, umfPoolFree(p, b));
    use_pool(p2, 300000, false, how);
    V("pool destroy", umfPoolDestroy(p));
    V("second pool destroy", umfPoolDestroy(p2));
    V("provider destroy", umfMemoryProviderDestroy(h));
}
// a pool of the user's, calling its (tracked) provider
static void t_custom() {
    Prov h = nullptr;
    Pool p = nullptr, in = nullptr;
    Prov ih = nullptr;
    PPool pp, ip;
    S("provider create", umfMemoryProviderCreate(&XP_OPS, &X[0], &h));
    S("pool create", umfPoolCreate(&PP_OPS, h, &pp, UMF_POOL_CREATE_FLAG_OWN_PROVIDER, &p));
    char *a = nullptr;
    S("alloc", umfMemoryProviderAlloc(pp.prov, 65536, 0, (void **)&a));
    S("split", umfMemoryProviderAllocationSplit(pp.prov, a, 65536, 16384));
    MC_CHECK(umfPoolByPtr(a + 16383) == p && umfPoolByPtr(a + 16384) == p, "flt:unusable", "split parts are not found");
    S("merge", umfMemoryProviderAllocationMerge(pp.prov, a, a + 16384, 65536));
    S("split", umfMemoryProviderAllocationSplit(pp.prov, a, 65536, 32768));
    // another pool inside
    umf_fixed_memory_provider_params_handle_t q = nullptr;
    S("fixed params create", umfFixedMemoryProviderParamsCreate(&q, a, 32768));
    S("fixed provider create", umfMemoryProviderCreate(umfFixedMemoryProviderOps(), q, &ih));
    S("fixed params destroy", umfFixedMemoryProviderParamsDestroy(q));
    S("inner pool create", umfPoolCreate(&PP_OPS, ih, &ip, UMF_POOL_CREATE_FLAG_OWN_PROVIDER, &in));
    char *b = (char *)blk("inner malloc", GROW, in, 8192, [&] { return umfPoolMalloc(in, 8192); });
    MC_CHECK(umfPoolByPtr(a + 32768) == p, "flt:unusable", "outer block");
    S("pool tag", umfPoolSetTag(in, &ip, nullptr));
    S("purge lazy", umfMemoryProviderPurgeLazy(pp.prov, a + 32768, 32768));
    SG("split inner", GROW, umfMemoryProviderAllocationSplit(ip.prov, b, 8192, 4096));
    SG("free inner", GROW, umfMemoryProviderFree(ip.prov, b + 4096, 4096));
    SG("free inner", GROW, umfMemoryProviderFree(ip.prov, b, 4096));
    MC_CHECK(umfPoolByPtr(b) == p, "flt:unusable", "the outer pool is not found after the inner free");
    V("inner pool destroy", umfPoolDestroy(in));
    S("free upper", umfMemoryProviderFree(pp.prov, a + 32768, 32768));
    S("free lower", umfMemoryProviderFree(pp.prov, a, 32768));
    V("pool destroy", umfPoolDestroy(p));
}
// ---- memory spaces ------------------------------------------------------------------
static void t_memspace() {
    umf_memspace_handle_t m = nullptr, m2 = nullptr, m3 = nullptr;
    unsigned ids[3] = {2, 0, 9};
    umf_const_memspace_handle_t all = nullptr, cap = nullptr;
    SG("host all", ONCE, (all = umfMemspaceHostAllGet()) ? OK : UMF_RESULT_ERROR_UNKNOWN);
    if (missing)
        return;
    // predefined spaces
    SG("lowest latency", ONCE, umfMemspaceLowestLatencyGet() ? OK : UMF_RESULT_ERROR_UNKNOWN);
    SG("highest bandwidth", ONCE, umfMemspaceHighestBandwidthGet() ? OK : UMF_RESULT_ERROR_UNKNOWN);
    SG("highest capacity", ONCE, (cap = umfMemspaceHighestCapacityGet()) ? OK : UMF_RESULT_ERROR_UNKNOWN);
    if (missing)
        return;
    MC_CHECK(umfMemspaceMemtargetNum(all) == 4 && umfMemspaceMemtargetNum(cap) == 4, "flt:unusable", "a predefined space is incomplete");
    S("create from nodes", umfMemspaceCreateFromNumaArray(ids, 3, &m));
    S("clone", umfMemspaceClone(m, &m2));
    S("new", umfMemspaceNew(&m3));
    for (unsigned i = 0; i < 3; i++)
        S("add target", umfMemspaceMemtargetAdd(m3, umfMemspaceMemtargetGet(m, i)));
    S("remove target", umfMemspaceMemtargetRemove(m3, umfMemspaceMemtargetGet(m, 1)));
    MC_CHECK(umfMemspaceMemtargetNum(m3) == 2 && umfMemspaceMemtargetNum(m2) == 3, "flt:unusable", "wrong number of targets");
    size_t c = 0;
    for (unsigned i = 0; i < 2; i++) {
        S("capacity", umfMemtargetGetCapacity(umfMemspaceMemtargetGet(m3, i), &c));
        MC_CHECK(c > 0, "flt:unusable", "no capacity");
    }
    unsigned two[2] = {0, 9};
    S("filter by id", umfMemspaceFilterById(m2, two, 2));
    MC_CHECK(umfMemspaceMemtargetNum(m2) == 2, "flt:unusable", "wrong number of targets after a filter");
    S("filter by capacity", umfMemspaceFilterByCapacity(m2, 1));
    S("user filter", umfMemspaceUserFilter(m2, [](umf_const_memspace_handle_t, umf_const_memtarget_handle_t, void *) { return 1; }, nullptr));
    umf_mempolicy_handle_t pol = nullptr;
    umf_mempolicy_split_partition_t part[2] = {{1, 0}, {3, 9}};
    S("policy create", umfMempolicyCreate(UMF_MEMPOLICY_SPLIT, &pol));
    S("policy partitions", umfMempolicySetCustomSplitPartitions(pol, part, 2));
    S("policy partitions again", umfMempolicySetCustomSplitPartitions(pol, part, 2));
    Prov h = nullptr, h2 = nullptr;
    S("provider from space", umfMemoryProviderCreateFromMemspace(m2, pol, &h));
    S("policy destroy", umfMempolicyDestroy(pol));
    use_provider(h, OS_PG, false, 0);
    V("provider destroy", umfMemoryProviderDestroy(h));
    V("space destroy", umfMemspaceDestroy(m));
    V("space destroy", umfMemspaceDestroy(m2));
    V("space destroy", umfMemspaceDestroy(m3));
    S("provider from predefined", umfMemoryProviderCreateFromMemspace(cap, nullptr, &h2));
    use_provider(h2, OS_PG, false, 0);
    V("provider destroy", umfMemoryProviderDestroy(h2));
}
static const struct {
    const char *name;
    void (*f)();
    int x; // refusals of the model provider
} PROG[] = {
    {"system memory", t_os, 0},
    {"shared system memory", t_os_shared, 0},
    {"file", t_file, 0},
    {"device", t_devdax, 0},
    {"fixed memory", t_fixed, FA_ALLOC},
    {"disjoint pool", t_disjoint, 0xfff & ~FA_FREE},
    {"proxy pool", t_proxy, 0xfff},
    {"scalable pool", t_scalable, FA_ALLOC | FA_INIT | FA_PAGE | FA_IPCGET | FA_IPCOPEN},
    {"custom pool", t_custom, 0xfff},
    {"memory spaces", t_memspace, 0},
};
static void topo_values() {
    size_t k = 0;
    for (hwloc_obj_t o = nullptr; (o = hwloc_get_next_obj_by_type(HW.real, HWLOC_OBJ_NUMANODE, o)); k++) {
        o->attr->numanode.local_memory = (1 + k) << 20;
        hwloc_location in;
        in.type = HWLOC_LOCATION_TYPE_CPUSET;
        in.location.cpuset = o->cpuset;
        if (hwloc_memattr_set_value(HW.real, HWLOC_MEMATTR_ID_BANDWIDTH, o, &in, 0, 5) || hwloc_memattr_set_value(HW.real, HWLOC_MEMATTR_ID_LATENCY, o, &in, 0, 5))
            mc_fail("setup:memattr", "cannot set");
    }
}
static void run(int k) {
    os_begin(), hw_begin();
    OS.whole_only = true;
    TB = Tbb();
    TB.model = 1;
    NX = 1;
    for (int i = 0; i < 4; i++) {
        X[i] = XProv();
        X[i].id = i;
    }
    xfaults = PROG[k].x & (int)mc_param("xmask", 0xfff);
    os_make_file("/dev/dax0.0", 16 * MB2, true, true);
    size_t live0 = mc_ba_live(), pools0 = mc_ba_pools();
    XLib lib;
    Base b;
    B = &b;
    b.make();
    stepno = 0;
    PROG[k].f();
    b.check();
    b.down();
    lib.done();
    for (int i = 0; i < NX; i++)
        MC_CHECK(X[i].live.empty() && X[i].maps.empty() && X[i].handles.empty() && X[i].n_init == X[i].n_fini, "flt:left", "%zu provider allocations, %zu mappings, %zu handles left, %d initialised, %d finalised", X[i].live.size(), X[i].maps.size(), X[i].handles.size(), X[i].n_init, X[i].n_fini);
    hw_end();
    OS.files.size();
    os_end();
    (void)live0, (void)pools0;
}
static void body_prog() {
    int only = (int)mc_param("prog", -1);
    int k = only >= 0 ? only : mc_choose((int)(sizeof PROG / sizeof *PROG));
    mc_note("program: %s", PROG[k].name);
    slack = mc_param("slack", 6);
    REF.clear();
    rec = true;
    run(k);
    rec = false, missing = false, grown = false;
    run(k);
    if (missing) { // after a restart everything is available
        missing = false;
        REF.clear();
        rec = true;
        run(k);
    }
    mc_outcome((uint64_t)k * 1000 + stepno + 1);
}
static void setup() {
    x_down();
    x_arena();
    os_setup();
    hw_setup("numa:4(indexes=0,2,5,9) core:1 pu:1");
    topo_values();
}
int main(int argc, char **argv) {
    return mc_main(argc, argv, {{"prog", body_prog, false, setup}});
}
