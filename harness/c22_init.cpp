// C22: library start-up and shut-down.
#include "numa.hpp"
#include <umf/ipc.h>
#include <umf/memspace.h>
#include <umf/pools/pool_disjoint.h>
#include <umf/pools/pool_proxy.h>
#include <umf/pools/pool_scalable.h>
#include <umf/providers/provider_os_memory.h>
static const int NBLK = 2;
#ifdef REAL_BA // the library's own metadata allocator runs, over the model system calls
size_t mc_ba_live(void) { return OS.maps.size(); }
size_t mc_ba_pools(void) { return 0; }
void mc_ba_rewind(void) {}
void mc_ba_dump(void) {}
void mc_ba_faults(int on) { OS.faults = on ? OSF_MMAP : 0; }
void mc_mutex_faults(int) {}
#endif
typedef umf_const_memspace_handle_t Ms;
static Ms ms_get(int k) {
    return k == 0 ? umfMemspaceHostAllGet() : k == 1 ? umfMemspaceHighestCapacityGet() : k == 2 ? umfMemspaceHighestBandwidthGet() : umfMemspaceLowestLatencyGet();
}
static void topo_load() {
    if (HW.real)
        __real_hwloc_topology_destroy(HW.real);
    HW.real = nullptr;
    hw_setup("numa:2(indexes=0,1) core:1 pu:1");
    size_t k = 0;
    for (hwloc_obj_t o = nullptr; (o = hwloc_get_next_obj_by_type(HW.real, HWLOC_OBJ_NUMANODE, o)); k++) {
        o->attr->numanode.local_memory = (1 + k) << 20;
        hwloc_location in;
        in.type = HWLOC_LOCATION_TYPE_CPUSET;
        in.location.cpuset = o->cpuset;
        if (hwloc_memattr_set_value(HW.real, HWLOC_MEMATTR_ID_BANDWIDTH, o, &in, 0, 5) || hwloc_memattr_set_value(HW.real, HWLOC_MEMATTR_ID_LATENCY, o, &in, 0, 5))
            mc_fail("setup:memattr", "cannot set");
    }
}
static void check_down(const void *p) {
    umf_ipc_handle_t h = nullptr;
    size_t n = 0;
    MC_CHECK(!umfPoolByPtr(p), "init:down", "an owner is reported while the library is down");
    MC_CHECK(umfFree((void *)p) == UMF_RESULT_SUCCESS, "init:down", "umfFree failed while the library is down");
    MC_CHECK(umfGetIPCHandle(p, &h, &n) != UMF_RESULT_SUCCESS && !h, "init:down", "IPC handle made while the library is down");
}
struct Obj {
    XProv xp;
    umf_memory_provider_handle_t prov = nullptr;
    umf_memory_pool_handle_t pool = nullptr;
    std::vector<void *> blk;
    bool up() const { return pool; }
    umf_result_t create(int id, int kind) {
        umf_result_t r;
        xp.id = id;
        if (kind == 2) {
            umf_os_memory_provider_params_handle_t q = nullptr;
            r = umfOsMemoryProviderParamsCreate(&q);
            if (r != UMF_RESULT_SUCCESS)
                return r;
            r = umfMemoryProviderCreate(umfOsMemoryProviderOps(), q, &prov);
            umfOsMemoryProviderParamsDestroy(q);
        } else
            r = umfMemoryProviderCreate(&XP_OPS, &xp, &prov);
        if (r != UMF_RESULT_SUCCESS)
            return r;
        if (kind == 1) {
            umf_disjoint_pool_params_handle_t q = nullptr;
            r = umfDisjointPoolParamsCreate(&q);
            if (r == UMF_RESULT_SUCCESS) {
                umfDisjointPoolParamsSetSlabMinSize(q, 8192);
                umfDisjointPoolParamsSetMaxPoolableSize(q, 4096);
                umfDisjointPoolParamsSetMinBucketSize(q, 64);
                r = umfPoolCreate(umfDisjointPoolOps(), prov, q, 0, &pool);
                umfDisjointPoolParamsDestroy(q);
            }
        } else if (kind == 3)
            r = umfPoolCreate(umfScalablePoolOps(), prov, nullptr, 0, &pool);
        else
            r = umfPoolCreate(umfProxyPoolOps(), prov, nullptr, 0, &pool);
        if (r != UMF_RESULT_SUCCESS) {
            umfMemoryProviderDestroy(prov);
            prov = nullptr, pool = nullptr;
        }
        return r;
    }
    void *alloc(size_t n) {
        void *p = umfPoolMalloc(pool, n);
        if (p)
            blk.push_back(p);
        return p;
    }
    void check() const {
        for (void *p : blk)
            MC_CHECK(umfPoolByPtr(p) == pool, "init:lookup", "%p belongs to %p, reported %p", p, (void *)pool, (void *)umfPoolByPtr(p));
        if (pool) {
            umf_memory_provider_handle_t q = nullptr;
            MC_CHECK(umfPoolGetMemoryProvider(pool, &q) == UMF_RESULT_SUCCESS && q == prov, "init:usable", "pool unusable");
        }
    }
    void free_all() {
        while (!blk.empty()) {
            void *p = blk.back();
            blk.pop_back();
            MC_CHECK(umfFree(p) == UMF_RESULT_SUCCESS, "init:usable", "umfFree failed");
        }
    }
    void destroy() {
        free_all();
        umfPoolDestroy(pool);
        umfMemoryProviderDestroy(prov);
        pool = nullptr, prov = nullptr;
    }
};
// ---- histories ---------------------------------------------------------------------
static void body_seq() {
    mc_ba_rewind();
    os_begin(), hw_begin();
    size_t live0 = mc_ba_live(), pools0 = mc_ba_pools();
    int depth = (int)mc_param("depth", 6), mf = (int)mc_param("mflt", 0), pk = (int)mc_param("kind", 0);
    long n = 0;
    std::vector<Obj> ob(1);
    Obj &o = ob[0];
    Ms ms[4] = {};
    void *last = (void *)(X_ARENA + 4096);
    bool topo = false;
    uint64_t h = 0;
    for (int i = 0; i < depth; i++) {
        int k = mc_choose(8);
        // every history that differs only by calls made while down is explored once
        if (n == 0 && k > 1)
            mc_prune();
        switch (k) {
        case 0: {
            mc_ba_faults(mf & 1);
            mc_mutex_faults(mf & 1);
            int f0 = mc_faults_used();
            int r = umfInit();
            mc_ba_faults(0), mc_mutex_faults(0);
            bool f = mc_faults_used() > f0;
            mc_op("umfInit = %ld", r);
            MC_CHECK(r == 0 || r == -1, "init:result", "umfInit returned %d", r);
            MC_CHECK(r == 0 || f, "init:refused", "umfInit failed");
            if (r == 0)
                n++;
            else
                MC_CHECK(n == 0, "init:refused", "umfInit failed while the library is up");
            if (r)
                MC_CHECK(mc_ba_live() == live0 && mc_ba_pools() == pools0, "init:leak", "failed umfInit left %ld blocks and %ld pools", (long)(mc_ba_live() - live0), (long)(mc_ba_pools() - pools0));
            break;
        }
        case 1:
            if (n == 0 || (n == 1 && o.up()))
                mc_prune();
            umfTearDown();
            n--;
            mc_op("umfTearDown");
            if (n == 0) {
                MC_CHECK(mc_ba_live() == live0 && mc_ba_pools() == pools0, "init:leak", "%ld blocks and %ld pools left after the last teardown", (long)(mc_ba_live() - live0), (long)(mc_ba_pools() - pools0));
                MC_CHECK(HW.topos == 0 && HW.bitmaps == 0, "init:leak-hw", "%d topologies and %ld bitmaps left after the last teardown", HW.topos, HW.bitmaps);
                for (auto &m : ms)
                    m = nullptr;
                topo = false;
            }
            break;
        case 2:
            if (o.up())
                mc_prune();
            MC_CHECK(o.create(0, pk) == UMF_RESULT_SUCCESS, "init:usable", "create failed while the library is up");
            mc_op("create");
            break;
        case 3: {
            if (!o.up() || o.blk.size() >= NBLK)
                mc_prune();
            void *p = o.alloc(pk == 3 ? 100 : 4096);
            mc_op("alloc");
            MC_CHECK(p, "init:usable", "allocation failed while the library is up");
            memset(p, 0x5a, 64);
            last = p;
            break;
        }
        case 4:
            if (o.blk.empty())
                mc_prune();
            {
                void *p = o.blk.front();
                o.blk.erase(o.blk.begin());
                MC_CHECK(umfFree(p) == UMF_RESULT_SUCCESS, "init:usable", "umfFree failed");
                mc_op("free");
            }
            break;
        case 5:
            if (!o.up())
                mc_prune();
            o.destroy();
            mc_op("destroy");
            break;
        case 6: {
            int w = mc_choose((int)mc_param("spaces", 4));
            Ms m = ms_get(w);
            mc_op("memory space %ld", w);
            MC_CHECK(m, "init:space", "predefined space %d missing while the library is up", w);
            MC_CHECK(!ms[w] || ms[w] == m, "init:space", "predefined space %d rebuilt", w);
            ms[w] = m;
            size_t nt = umfMemspaceMemtargetNum(m);
            MC_CHECK(nt == 2, "init:space", "space %d has %zu targets", w, nt);
            topo = true;
            break;
        }
        case 7: {
            // settings that apply to everything are kept in the library
            size_t v = 0;
            umf_result_t r = o.up() ? umfCtlGet("umf.provider.by_handle.stats.allocated_memory", o.prov, &v) : umfCtlGet("umf.nonsense", nullptr, &v);
            mc_op("query = %ld", r);
            MC_CHECK(r != UMF_RESULT_SUCCESS || pk == 2, "init:ctl", "unknown name accepted");
            MC_CHECK(pk != 2 || !o.up() || r == UMF_RESULT_SUCCESS, "init:ctl", "query failed with %d", r);
            break;
        }
        }
        if (n > 0) {
            o.check();
            MC_CHECK(HW.topos == (topo ? 1 : 0) || pk == 2, "init:topology", "%d topologies built", HW.topos);
            if (!o.up())
                MC_CHECK(!umfPoolByPtr(last), "init:lookup", "an owner is reported for a block that was given back");
        } else
            check_down(last);
        h = mc_mix(mc_mix((uint64_t)n * 8 + (uint64_t)o.up() * 4 + o.blk.size(), (uint64_t)(!!ms[0] + 2 * !!ms[1] + 4 * !!ms[2] + 8 * !!ms[3])), (uint64_t)k);
        mc_state(h);
    }
    if (n > 0) {
        if (o.up())
            o.destroy();
        while (n-- > 0)
            umfTearDown();
        check_down(last);
    }
    MC_CHECK(mc_ba_live() == live0 && mc_ba_pools() == pools0, "init:leak", "%ld blocks and %ld pools left after the last teardown", (long)(mc_ba_live() - live0), (long)(mc_ba_pools() - pools0));
    MC_CHECK(o.xp.live.empty() && o.xp.n_init == o.xp.n_fini, "init:leak", "provider memory left");
    os_end();
    hw_end();
}
// ---- threads -----------------------------------------------------------------------
static void body_mt() {
    mc_ba_rewind();
    os_begin(), hw_begin();
    size_t live0 = mc_ba_live(), pools0 = mc_ba_pools();
    int nt = (int)mc_param("threads", 2), use = (int)mc_param("use", 0), pre = (int)mc_param("pre", 0), mf = (int)mc_param("mflt", 0);
    std::vector<int> kind;
    for (int i = 0; i < nt; i++)
        kind.push_back(mc_choose(use ? 3 : 2));
    for (int i = 1; i < nt; i++)
        if (kind[(size_t)i] < kind[(size_t)i - 1])
            mc_prune();
    if (pre && umfInit() != 0)
        mc_fail("setup:init", "umfInit failed");
    std::vector<Obj> ob((size_t)nt);
    std::vector<Ms> seen((size_t)nt, nullptr);
    std::vector<std::function<void()>> th;
    mc_ba_faults(mf);
    for (int i = 0; i < nt; i++)
        th.push_back([&, i] {
            Obj &o = ob[(size_t)i];
            int f0 = mc_faults_used();
            int r = umfInit();
            mc_op("thread %ld: umfInit = %ld", i, r);
            if (mf && mc_faults_used() == f0 && r)
                mc_op("  (refused by a failure in another thread)");
            MC_CHECK(r == 0 || mc_faults_used() > 0, "init:refused", "umfInit failed");
            if (r)
                return;
            if (kind[(size_t)i] == 1) {
                umf_result_t c = o.create(i, 0);
                mc_op("thread %ld: create = %ld", i, c);
                MC_CHECK(c == UMF_RESULT_SUCCESS || mc_faults_used() > 0, "init:usable", "create failed after umfInit returned");
                if (c == UMF_RESULT_SUCCESS) {
                    void *p = o.alloc(4096);
                    MC_CHECK(p || mc_faults_used() > 0, "init:usable", "allocation failed after umfInit returned");
                    o.check();
                    mt_mark();
                    o.destroy();
                    MC_CHECK(!p || !umfPoolByPtr(p), "init:lookup", "owner reported after the pool was destroyed");
                    mc_op("thread %ld: used and destroyed", i);
                }
            } else if (kind[(size_t)i] == 2) {
                Ms m = ms_get((int)mc_param("space", 0));
                mc_op("thread %ld: memory space", i);
                MC_CHECK(m || mc_faults_used() > 0, "init:space", "predefined space missing");
                if (m)
                    MC_CHECK(umfMemspaceMemtargetNum(m) == 2, "init:space", "incomplete space");
                seen[(size_t)i] = m;
            }
            umfTearDown();
            mc_op("thread %ld: umfTearDown", i);
        });
    mt_run(th, (int)mc_param("pb", 2));
    mc_ba_faults(0);
    if (pre) {
        for (int i = 0; i < nt; i++)
            MC_CHECK(!seen[(size_t)i] || seen[(size_t)i] == umfMemspaceHostAllGet() || mc_param("space", 0), "init:space", "space rebuilt while the library stayed up");
        umfTearDown();
    }
    MC_CHECK(HW.topos == 0 && HW.bitmaps == 0, "init:leak-hw", "%d topologies and %ld bitmaps left after the last teardown", HW.topos, HW.bitmaps);
    MC_CHECK(mc_ba_live() == live0 && mc_ba_pools() == pools0, "init:leak", "%ld blocks and %ld pools left after the last teardown", (long)(mc_ba_live() - live0), (long)(mc_ba_pools() - pools0));
    check_down((void *)(X_ARENA + 4096));
    // and it can be started again
    XLib lib;
    Obj o;
    MC_CHECK(o.create(0, 0) == UMF_RESULT_SUCCESS && o.alloc(4096), "init:again", "not usable after a restart");
    o.check();
    o.destroy();
    lib.done();
    uint64_t h = 1;
    for (int k : kind)
        h = h * 4 + (uint64_t)k;
    mc_outcome(h);
    mc_state(h);
    os_end();
    hw_end();
}
static void setup() {
    x_down();
    x_arena();
    os_setup();
    topo_load();
}
int main(int argc, char **argv) {
    return mc_main(argc, argv, {{"seq", body_seq, false, setup}, {"mt", body_mt, false, setup}});
}
