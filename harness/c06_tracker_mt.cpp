// C06: owner lookup while other threads add, remove, nest, split and merge.
#include "zpool.hpp"

static ZPool *g_P;
struct Iv { // life of one block, in event times
    Blk b;
    uint64_t add0, add1, rem0, rem1; // [call, return] of creation and removal
};
static std::vector<Iv> g_iv;
static const uint64_t INF = ~0ull;
static int born(int pool, int lvl, int lo, int hi, uint64_t t0) {
    g_iv.push_back({{pool, lvl, lo, hi}, t0, mt_clock(), INF, INF});
    return (int)g_iv.size() - 1;
}
static int xalloc(int pool, int lvl, int lo, int hi) {
    mt_mark();
    nextaddr() = at(lo);
    uint64_t t0 = mt_clock();
    mc_op(" thread %ld: pool %ld allocates units %ld-%ld", mt_self(), pool, lo, hi);
    // it may be found from the moment the call starts
    g_iv.push_back({{pool, lvl, lo, hi}, t0, INF, INF, INF});
    int k = (int)g_iv.size() - 1;
    void *r = umfPoolMalloc(g_P[pool].h, (size_t)(hi - lo) * U);
    MC_CHECK(r == (void *)at(lo), "trk:refused", "allocation of units %d-%d failed", lo, hi);
    g_iv[(size_t)k].add1 = mt_clock();
    return k;
}
static void xfree(int k) {
    mt_mark();
    Blk b = g_iv[(size_t)k].b;
    mc_op(" thread %ld: free units %ld-%ld of pool %ld", mt_self(), b.lo, b.hi, b.pool);
    g_iv[(size_t)k].rem0 = mt_clock();
    long f0 = g_P[b.pool].frees;
    umf_result_t r = umfFree((void *)at(b.lo));
    MC_CHECK(r == UMF_RESULT_SUCCESS && g_P[b.pool].frees > f0, "trk:free", "umfFree of live units %d-%d = %d", b.lo, b.hi, r);
    g_iv[(size_t)k].rem1 = mt_clock();
}
static void xsplit(int k, int first, int out[2]) {
    mt_mark();
    Blk b = g_iv[(size_t)k].b;
    uint64_t t0 = mt_clock();
    mc_op(" thread %ld: split units %ld-%ld at %ld", mt_self(), b.lo, b.hi, first);
    g_iv[(size_t)k].rem0 = t0;
    g_iv.push_back({{b.pool, b.lvl, b.lo, first}, t0, INF, INF, INF});
    g_iv.push_back({{b.pool, b.lvl, first, b.hi}, t0, INF, INF, INF});
    out[0] = (int)g_iv.size() - 2, out[1] = (int)g_iv.size() - 1;
    umf_result_t r = umfMemoryProviderAllocationSplit(g_P[b.pool].prov, (void *)at(b.lo), (size_t)(b.hi - b.lo) * U, (size_t)(first - b.lo) * U);
    MC_CHECK(r == UMF_RESULT_SUCCESS, "trk:split", "valid split = %d", r);
    uint64_t t1 = mt_clock();
    g_iv[(size_t)k].rem1 = t1;
    g_iv[(size_t)out[0]].add1 = g_iv[(size_t)out[1]].add1 = t1;
}
static int xmerge(int i, int j) {
    mt_mark();
    Blk a = g_iv[(size_t)i].b, b = g_iv[(size_t)j].b;
    uint64_t t0 = mt_clock();
    mc_op(" thread %ld: merge units %ld-%ld-%ld", mt_self(), a.lo, a.hi, b.hi);
    g_iv[(size_t)i].rem0 = g_iv[(size_t)j].rem0 = t0;
    g_iv.push_back({{a.pool, a.lvl, a.lo, b.hi}, t0, INF, INF, INF});
    int k = (int)g_iv.size() - 1;
    umf_result_t r = umfMemoryProviderAllocationMerge(g_P[a.pool].prov, (void *)at(a.lo), (void *)at(b.lo), (size_t)(b.hi - a.lo) * U);
    MC_CHECK(r == UMF_RESULT_SUCCESS, "trk:merge", "valid merge = %d", r);
    uint64_t t1 = mt_clock();
    g_iv[(size_t)i].rem1 = g_iv[(size_t)j].rem1 = t1;
    g_iv[(size_t)k].add1 = t1;
    return k;
}
static uint64_t g_seen;
// One lookup, judged against the blocks certainly / possibly live meanwhile.
static void probe(uintptr_t a) {
    mt_mark();
    uint64_t t0 = mt_clock();
    Info i = look(a);
    uint64_t t1 = mt_clock();
    // level that is certainly covered at every moment of the call: either by
    // one block all the time, or by a split/merge chain of the same pool
    int sure = -1;
    umf_memory_pool_handle_t sure_pool = nullptr;
    for (int pass = 0; pass < 2; pass++)
        for (auto &v : g_iv) {
            if (a < at(v.b.lo) || a >= at(v.b.hi) || v.b.lvl <= sure)
                continue;
            if (v.add1 < t0 && v.rem0 > t1)
                sure = v.b.lvl, sure_pool = g_P[v.b.pool].h;
            else if (v.add1 < t0 && v.rem0 != INF)
                for (auto &w : g_iv) // replaced by a split or merge, not released
                    if (&w != &v && w.b.pool == v.b.pool && w.add0 == v.rem0 && w.rem0 > t1 && a >= at(w.b.lo) && a < at(w.b.hi))
                        sure = v.b.lvl, sure_pool = g_P[v.b.pool].h;
        }
    mc_op(" thread %ld: lookup +%lx", mt_self(), (long)(a - BASE));
    if (!i.pool) {
        MC_CHECK(sure < 0, "trk:lost", "lookup of +%lx inside memory live all the time found no pool", a - BASE);
        return;
    }
    bool ok = false, deeper = false;
    for (auto &v : g_iv) {
        if (a < at(v.b.lo) || a >= at(v.b.hi) || v.add0 > t1 || v.rem1 < t0)
            continue;
        if (g_P[v.b.pool].h == i.pool && i.base == at(v.b.lo) && i.size == (size_t)(v.b.hi - v.b.lo) * U) {
            ok = true;
            deeper |= v.b.lvl >= sure;
        }
    }
    MC_CHECK(ok, "trk:wrong", "lookup of +%lx returned base +%lx size %zu, never an allocation during the call", a - BASE, i.base - BASE, i.size);
    MC_CHECK(deeper, "trk:outer", "lookup of +%lx returned an outer owner although an inner allocation was live all the time", a - BASE);
    g_seen = mc_mix(g_seen, (i.base - BASE) * 64 + i.size);
}
// Initial layout (units):
//  pool 0 (A, level 0): 0-16          pool 1 (B, level 0): 20-24
//  pool 2 (N, inside A): 4-8          pool 3 (M, inside N): 4-6
struct Init {
    int A, B, N, M;
};
static const int NW = 12;
static void writer(int k, int me, Init &z) {
    int o = me * 2; // threads use disjoint places
    int s[2];
    switch (k) {
    case 0: { int b = xalloc(2, 1, 8 + o, 10 + o); xfree(b); break; }             // sibling in A
    case 1: { int b = xalloc(2, 1, o, o + 1); int c = xalloc(2, 1, o + 1, o + 2); xfree(b); xfree(c); break; }
    case 2: { int b = xalloc(0, 0, 16 + o, 18 + o); xfree(b); break; }            // directly after A
    case 3: { int b = xalloc(1, 0, 24 + o, 26 + o); xfree(b); break; }            // after B
    case 4: { int b = xalloc(3, 2, 6 + me, 7 + me); xfree(b); break; }            // second child of N
    case 5: { int b = xalloc(2, 1, 8 + o, 10 + o); int c = xalloc(3, 2, 8 + o, 9 + o); xfree(c); xfree(b); break; }
    case 6: { int b = xalloc(0, 0, 16 + o, 18 + o); int c = xalloc(2, 1, 16 + o, 18 + o); xfree(c); xfree(b); break; }
    case 7: { int b = xalloc(0, 0, 16 + o, 18 + o); xsplit(b, 17 + o, s); xfree(s[0]); xfree(s[1]); break; }
    case 8: { int b = xalloc(2, 1, 8 + o, 9 + o), c = xalloc(2, 1, 9 + o, 10 + o); int m = xmerge(b, c); xfree(m); break; }
    case 9: { int b = xalloc(2, 1, 8 + o, 10 + o); xsplit(b, 9 + o, s); int m = xmerge(s[0], s[1]); xfree(m); break; }
    case 10: if (me == 0) { xfree(z.M); z.M = -1; xfree(z.N); z.N = -1; } else { int b = xalloc(1, 0, 26, 28); xfree(b); } break;
    default: if (me == 0) { xfree(z.M); z.M = xalloc(3, 2, 4, 8); } else { xfree(z.B); z.B = -1; } break;
    }
}
static const int NR = 4;
static void reader(int k) {
    switch (k) {
    case 0: probe(at(5)); probe(at(3)); break;
    case 1: probe(at(15)); probe(at(8)); break;
    case 2: probe(at(22)); probe(at(16)); probe(at(20) - 1); break;
    default: probe(at(7)); probe(at(9)); break;
    }
}
static void body() {
    XLib lib;
    BASE = 0x200000000000ull, U = 16;
    ZPool P[4];
    g_P = P;
    for (int i = 0; i < 4; i++)
        P[i].create(i);
    g_iv.clear();
    g_iv.reserve(64);
    g_seen = 1;
    Init z{xalloc(0, 0, 0, 16), xalloc(1, 0, 20, 24), xalloc(2, 1, 4, 8), xalloc(3, 2, 4, 6)};
    int nw = (int)mc_param("writers", 1), nr = (int)mc_param("readers", 1);
    int w[2], r[2];
    for (int i = 0; i < nw; i++)
        w[i] = mc_choose(NW);
    if (nw == 2 && w[0] >= 10 && w[1] == 4)
        mc_prune(); // N released while the other thread uses it
    for (int i = 0; i < nr; i++)
        r[i] = i == 0 ? mc_choose(NR) : r[i - 1] + mc_choose(NR - r[i - 1]);
    for (int i = 0; i < nw; i++)
        mc_op("thread %ld runs writer %ld", i, w[i]);
    std::vector<std::function<void()>> bodies;
    for (int i = 0; i < nw; i++)
        bodies.push_back([&, i] { writer(w[i], i, z); });
    for (int i = 0; i < nr; i++)
        bodies.push_back([&, i] { reader(r[i]); });
    mt_run(bodies, (int)mc_param("pb", 2));
    // afterwards lookups agree exactly with the survivors
    std::vector<Blk> live;
    for (auto &v : g_iv)
        if (v.rem0 == INF)
            live.push_back(v.b);
    verify(live, P, 4, 0, 30, true);
    mc_state(mc_mix(vhash(live), g_seen)), mc_outcome(mc_mix(vhash(live), g_seen));
    for (int l = 2; l >= 0; l--)
        for (auto &b : live)
            if (b.lvl == l)
                MC_CHECK(umfFree((void *)at(b.lo)) == UMF_RESULT_SUCCESS, "trk:free", "final free failed");
    live.clear();
    verify(live, P, 4, 0, 30, false);
    for (auto &p : P)
        p.destroy();
    lib.done();
}
int main(int argc, char **argv) { return mc_main(argc, argv, {{"mt", body, false, x_down}}); }
