// C02 (and the concurrent part of C03): one disjoint pool used by several
// threads under every schedule up to the preemption bound.
#include "umfx.hpp"
#include <umf/pools/pool_disjoint.h>

struct B {
    uintptr_t p;
    size_t n;
};
static XProv *g_x;
static umf_memory_pool_handle_t g_pool;
static std::map<uintptr_t, size_t> g_live; // blocks owned by the program
static const size_t SLAB = 128, MAXP = 128, PAGE = 64;

static B take(size_t n, size_t al) {
    mt_mark();
    uintptr_t p = (uintptr_t)(al ? umfPoolAlignedMalloc(g_pool, n, al) : umfPoolMalloc(g_pool, n));
    mc_op(" thread %ld: malloc %ld -> +%lx", mt_self(), (long)n, (long)(p - g_x->lo()));
    MC_CHECK(p, "mt:refused", "malloc(%zu) refused", n);
    MC_CHECK(!al || p % al == 0, "mt:align", "%lx not aligned to %zu", p, al);
    MC_CHECK(g_x->holder(p, n), "mt:outside", "block %lx size %zu outside memory held from the provider", p, n);
    auto it = g_live.upper_bound(p + n - 1);
    if (it != g_live.begin()) {
        --it;
        MC_CHECK(it->first + it->second <= p, "mt:overlap", "block %lx size %zu overlaps live block %lx size %zu", p, n, it->first, it->second);
    }
    g_live[p] = n;
    memset((void *)p, (int)(n + 1), 8);
    return {p, n};
}
static void give(B b) {
    mt_mark();
    auto it = g_live.find(b.p);
    MC_CHECK(it != g_live.end(), "setup:give", "harness error");
    MC_CHECK(*(unsigned char *)b.p == (unsigned char)(b.n + 1), "mt:contents", "contents of live block %lx changed", b.p);
    g_live.erase(it);
    mc_op(" thread %ld: free +%lx", mt_self(), (long)(b.p - g_x->lo()));
    umf_result_t r = (b.n & 8) ? umfFree((void *)b.p) : umfPoolFree(g_pool, (void *)b.p);
    MC_CHECK(r == UMF_RESULT_SUCCESS, "mt:free", "free of live block %lx = %d", b.p, r);
}
static void usable(B b) {
    mt_mark();
    size_t u = umfPoolMallocUsableSize(g_pool, (void *)b.p);
    MC_CHECK(u >= b.n, "mt:usable", "usable size of live block %lx is %zu, requested %zu", b.p, u, b.n);
    MC_CHECK(g_x->holder(b.p, u), "mt:usable", "usable size %zu of block %lx reaches outside its memory", u, b.p);
    auto it = g_live.upper_bound(b.p);
    MC_CHECK(it == g_live.end() || b.p + u <= it->first, "mt:usable", "usable size %zu of block %lx reaches into block %lx", u, b.p, it->first);
}
static const int NPROG = 10;
static void program(int k, B chunk, B direct) {
    switch (k) {
    case 0: give(chunk); give(direct); break;
    case 1: give(direct); { B b = take(MAXP + 72, 0); give(b); } give(chunk); break;
    case 2: { B b = take(40, 0); give(chunk); give(b); } give(direct); break;
    case 3: give(chunk); { B b = take(SLAB, 0); give(direct); give(b); } break;
    case 4: usable(direct); usable(chunk); give(chunk); give(direct); break;
    case 5: { B a = take(40, 0), b = take(56, 0); give(a); give(b); } give(chunk); give(direct); break;
    case 6: { B b = take(32, 2 * PAGE); give(b); } give(direct); give(chunk); break;
    case 7: { B b = take(SLAB, 0), c = take(SLAB - 16, 0); give(b); give(chunk); give(c); } give(direct); break;
    case 8: give(chunk); give(take(40, 0)); give(direct); break;
    default: give(direct); give(chunk); break;
    }
}
static void body_mt() {
    XLib lib;
    XProv x;
    g_x = &x;
    g_live.clear();
    x.page = PAGE;
    int nt = (int)mc_param("threads", 2);
    size_t lim_max = mc_choose(2) ? 3 * SLAB : 0;
    auto *lim = umfDisjointPoolSharedLimitsCreate(lim_max);
    umf_memory_provider_handle_t prov = x_provider(&x);
    umf_disjoint_pool_params_handle_t pr = nullptr;
    umfDisjointPoolParamsCreate(&pr);
    umfDisjointPoolParamsSetSlabMinSize(pr, SLAB);
    umfDisjointPoolParamsSetMaxPoolableSize(pr, MAXP);
    umfDisjointPoolParamsSetCapacity(pr, 1);
    umfDisjointPoolParamsSetMinBucketSize(pr, 64);
    umfDisjointPoolParamsSetSharedLimits(pr, lim);
    umf_result_t r = umfPoolCreate(umfDisjointPoolOps(), prov, pr, 0, &g_pool);
    umfDisjointPoolParamsDestroy(pr);
    MC_CHECK(r == UMF_RESULT_SUCCESS, "setup:pool", "umfPoolCreate = %d", r);
    // blocks handed to the threads, allocated here (freed by another thread)
    std::vector<B> chunk(nt), direct(nt);
    for (int i = 0; i < nt; i++) {
        chunk[i] = take(40 + 8 * (size_t)i, 0);
        direct[i] = take(MAXP + 64 + 8 * (size_t)i, 0);
    }
    std::vector<int> prog(nt);
    int lo = 0;
    for (int i = 0; i < nt; i++) {
        // the programs are symmetric in the thread that runs them
        prog[i] = lo + mc_choose(NPROG - lo);
        lo = prog[i];
        mc_op("thread %ld runs program %ld, shared limit %ld", i, prog[i], (long)lim_max);
    }
    std::vector<std::function<void()>> bodies;
    for (int i = 0; i < nt; i++)
        bodies.push_back([&, i] { program(prog[i], chunk[i], direct[(i + 1) % nt]); });
    mt_run(bodies, (int)mc_param("pb", 2));
    MC_CHECK(g_live.empty(), "setup:live", "harness error");
    size_t idle = 0, h = 1;
    for (auto &b : x.live)
        idle += b.second.size, h = mc_mix(h, b.first * 4096 + b.second.size);
    MC_CHECK(idle <= lim_max, "mt:limit", "%zu idle bytes pooled, maximum %zu", idle, lim_max);
    mc_state(mc_mix(h, (uint64_t)x.n_alloc * 100 + (uint64_t)x.n_free));
    mc_outcome(mc_mix(h, (uint64_t)x.n_alloc));
    // everything still works, and the shared budget is intact
    if (lim_max) {
        long a0 = x.n_free;
        B b = take(SLAB, 0);
        give(b);
        MC_CHECK(x.n_free == a0, "mt:budget", "an idle slab was not pooled although the shared budget allows it");
    }
    umfPoolDestroy(g_pool);
    MC_CHECK(x.live.empty(), "mt:leak", "%zu provider allocations outstanding after destruction", x.live.size());
    umfMemoryProviderDestroy(prov);
    umfDisjointPoolSharedLimitsDestroy(lim);
    lib.done();
}
// two pools under one shared limit, used by one thread each
static void body_shared() {
    XLib lib;
    XProv x[2];
    static const size_t MAXS[] = {SLAB, 2 * SLAB - 1, 2 * SLAB};
    size_t lim_max = MAXS[mc_choose(3)];
    auto *lim = umfDisjointPoolSharedLimitsCreate(lim_max);
    umf_memory_provider_handle_t prov[2];
    umf_memory_pool_handle_t pool[2];
    for (int i = 0; i < 2; i++) {
        x[i].id = i;
        x[i].page = PAGE;
        prov[i] = x_provider(&x[i]);
        umf_disjoint_pool_params_handle_t pr = nullptr;
        umfDisjointPoolParamsCreate(&pr);
        umfDisjointPoolParamsSetSlabMinSize(pr, SLAB);
        umfDisjointPoolParamsSetMaxPoolableSize(pr, MAXP);
        umfDisjointPoolParamsSetCapacity(pr, 2);
        umfDisjointPoolParamsSetMinBucketSize(pr, 64);
        umfDisjointPoolParamsSetSharedLimits(pr, lim);
        umfPoolCreate(umfDisjointPoolOps(), prov[i], pr, 0, &pool[i]);
        umfDisjointPoolParamsDestroy(pr);
    }
    int prog = mc_choose(3);
    auto idle = [&](size_t live) {
        size_t s = 0;
        for (auto &q : x)
            s += q.bytes();
        return s - live;
    };
    size_t used = 0;
    auto th = [&](int i) {
        void *a = umfPoolMalloc(pool[i], SLAB);
        void *b = prog ? umfPoolMalloc(pool[i], SLAB) : nullptr;
        MC_CHECK(a && (b || !prog), "mt:refused", "malloc refused");
        mt_mark();
        umfPoolFree(pool[i], a);
        if (b)
            umfPoolFree(pool[i], b);
        if (prog == 2) {
            a = umfPoolMalloc(pool[i], SLAB);
            umfPoolFree(pool[i], a);
        }
    };
    (void)used;
    mt_run({[&] { th(0); }, [&] { th(1); }}, (int)mc_param("pb", 2));
    size_t n = idle(0);
    mc_op("%ld bytes idle, limit %ld", (long)n, (long)lim_max);
    MC_CHECK(n <= lim_max, "mt:limit", "%zu idle bytes pooled, maximum %zu", n, lim_max);
    mc_state(n * 8 + (size_t)prog), mc_outcome(n);
    // the budget counts exactly what is pooled: fill it from pool 0
    for (int i = 0; i < 2; i++)
        umfPoolDestroy(pool[i]);
    MC_CHECK(x[0].live.empty() && x[1].live.empty(), "mt:leak", "provider memory outstanding");
    umf_disjoint_pool_params_handle_t pr = nullptr;
    umfDisjointPoolParamsCreate(&pr);
    umfDisjointPoolParamsSetSlabMinSize(pr, SLAB);
    umfDisjointPoolParamsSetMaxPoolableSize(pr, MAXP);
    umfDisjointPoolParamsSetCapacity(pr, 9);
    umfDisjointPoolParamsSetMinBucketSize(pr, 64);
    umfDisjointPoolParamsSetSharedLimits(pr, lim);
    umfPoolCreate(umfDisjointPoolOps(), prov[0], pr, 0, &pool[0]);
    umfDisjointPoolParamsDestroy(pr);
    void *v[4];
    for (auto &p : v)
        p = umfPoolMalloc(pool[0], SLAB);
    for (auto &p : v)
        umfPoolFree(pool[0], p);
    MC_CHECK(x[0].bytes() == lim_max / SLAB * SLAB, "mt:budget", "after both pools were destroyed %zu bytes can be pooled, limit %zu", x[0].bytes(), lim_max);
    umfPoolDestroy(pool[0]);
    for (auto &p : prov)
        umfMemoryProviderDestroy(p);
    umfDisjointPoolSharedLimitsDestroy(lim);
    lib.done();
}
static void setup() {
    x_down();
    x_arena(2);
}
int main(int argc, char **argv) {
    return mc_main(argc, argv, {{"mt", body_mt, false, setup}, {"shared", body_shared, false, setup}});
}
