// C05/C07: owner lookup, and splitting/merging of tracked allocations.
#include "zpool.hpp"

static void pick_base() {
    static const uintptr_t B[] = {0x200000000000ull, 0xffffff80ull, 0x7fffffff0000ull - 0x7f};
    int k = mc_choose(3);
    BASE = B[k];
    U = k == 2 ? 5 : 16;
}
// ---- C05: histories of allocation and free in four pools ------------------
static const int NP = 4;
static const int LVL[NP] = {0, 0, 1, 2};
static const std::vector<std::pair<int, int>> PLACE[NP] = {
    {{0, 8}, {8, 16}, {0, 16}},
    {{16, 20}, {8, 16}, {20, 24}},
    {{0, 4}, {4, 8}, {0, 8}, {2, 6}, {8, 12}, {6, 10}, {8, 16}},
    {{0, 2}, {2, 4}, {0, 4}, {4, 6}, {0, 8}},
};
static void body_owners() {
    XLib lib;
    pick_base();
    ZPool P[NP];
    for (int i = 0; i < NP; i++)
        P[i].create(i);
    std::vector<Blk> live;
    int depth = (int)mc_param("depth", 5);
    int faults = (int)mc_param("faults", 0);
    verify(live, P, NP, 0, NU, false);
    for (int s = 0; s < depth; s++) {
        std::vector<Blk> can;
        for (int p = 0; p < NP; p++)
            for (auto &q : PLACE[p]) {
                Blk b{p, LVL[p], q.first, q.second};
                bool ok = LVL[p] == 0;
                for (auto &l : live) {
                    if (l.lvl == b.lvl && l.lo < b.hi && b.lo < l.hi)
                        goto next;
                    if (l.lvl == b.lvl - 1 && l.pool == (p == 2 ? 0 : 2) && b.lo >= l.lo && b.lo < l.hi)
                        ok = true; // may exceed it: has to be refused
                }
                if (ok)
                    can.push_back(b);
            next:;
            }
        std::vector<size_t> fr;
        for (size_t i = 0; i < live.size(); i++) {
            bool child = false;
            for (auto &l : live)
                child |= l.lvl > live[i].lvl && l.lo >= live[i].lo && l.lo < live[i].hi;
            if (!child)
                fr.push_back(i);
        }
        int k = mc_choose((int)(can.size() + fr.size()));
        int f0 = mc_faults_used();
        mc_ba_faults(faults);
        if (k < (int)can.size()) {
            Blk b = can[(size_t)k];
            bool fits = b.lvl == 0;
            for (auto &l : live)
                fits |= l.lvl == b.lvl - 1 && b.lo >= l.lo && b.hi <= l.hi;
            nextaddr() = at(b.lo);
            P[b.pool].z.faults = faults ? FA_ALLOC : 0;
            mc_op("pool %ld allocates units %ld-%ld", b.pool, b.lo, b.hi);
            void *r = umfPoolMalloc(P[b.pool].h, (size_t)(b.hi - b.lo) * U);
            if (!fits)
                MC_CHECK(!r, "trk:exceeds", "allocation reaching over the end of its parent accepted");
            else if (mc_faults_used() == f0)
                MC_CHECK(r == (void *)at(b.lo), "trk:refused", "allocation of units %d-%d failed", b.lo, b.hi);
            if (r)
                live.push_back(b);
        } else {
            size_t i = fr[(size_t)k - can.size()];
            Blk b = live[i];
            mc_op("free units %ld-%ld of pool %ld", b.lo, b.hi, b.pool);
            P[b.pool].z.faults = faults ? FA_FREE : 0;
            long fn[NP];
            for (int p = 0; p < NP; p++)
                fn[p] = P[p].frees;
            umf_result_t r = umfFree((void *)at(b.lo));
            for (int p = 0; p < NP; p++)
                MC_CHECK(P[p].frees - fn[p] == (p == b.pool), "trk:free-pool", "umfFree of a block of pool %d reached pool %d %ld times", b.pool, p, P[p].frees - fn[p]);
            if (mc_faults_used() == f0)
                MC_CHECK(r == UMF_RESULT_SUCCESS, "trk:free", "free of units %d-%d = %d", b.lo, b.hi, r);
            if (r == UMF_RESULT_SUCCESS)
                live.erase(live.begin() + (long)i);
            else
                MC_CHECK(P[b.pool].z.live.count(at(b.lo)), "trk:free", "failed free released the block");
        }
        mc_ba_faults(0);
        verify(live, P, NP, 0, NU, false);
        mc_state(mc_mix(vhash(live), BASE));
    }
    verify(live, P, NP, 0, NU, true);
    MC_CHECK(umfFree((void *)(at(NU) + 100)) == UMF_RESULT_SUCCESS, "trk:free", "umfFree of an unowned address");
    for (auto &p : P)
        p.z.faults = 0;
    mc_outcome(vhash(live));
    for (int l = 2; l >= 0; l--)
        for (auto &b : live)
            if (b.lvl == l)
                umfFree((void *)at(b.lo));
    live.clear();
    verify(live, P, NP, 0, NU, false);
    for (auto &p : P)
        p.destroy();
    lib.done();
}
// ---- C05: deep stacks ------------------------------------------------------
static void body_deep() {
    XLib lib;
    pick_base();
    const int D = 10;
    ZPool P[D];
    std::vector<Blk> live;
    int shape = mc_choose(3); // same range, same base shrinking, shifted base
    for (int i = 0; i < D; i++) {
        P[i].create(i);
        Blk b{i, i, shape == 2 ? i : 0, shape == 0 ? NU : NU - i};
        nextaddr() = at(b.lo);
        mc_op("pool %ld allocates units %ld-%ld", i, b.lo, b.hi);
        void *r = umfPoolMalloc(P[i].h, (size_t)(b.hi - b.lo) * U);
        if (r)
            live.push_back(b);
        MC_CHECK(r || i >= 4, "trk:refused", "only %d levels of nesting possible", i);
        MC_CHECK(r || P[i].z.live.empty(), "trk:upstream", "failed allocation not returned upstream");
        verify(live, P, i + 1, 0, NU, true);
        mc_state(mc_mix(shape, i));
        if (!r) {
            P[i].destroy();
            break;
        }
    }
    while (!live.empty()) {
        mc_op("free in pool %ld", live.back().pool);
        int k = live.back().pool;
        MC_CHECK(umfFree((void *)at(live.back().lo)) == UMF_RESULT_SUCCESS, "trk:free", "free failed");
        live.pop_back();
        verify(live, P, k, 0, NU, false);
        P[k].destroy();
    }
    lib.done();
}
// ---- C07: split and merge --------------------------------------------------
static void body_split() {
    XLib lib;
    pick_base();
    ZPool P[4]; // A, B: level 0; N: inside A; C: may own the memory A and B are in
    for (int i = 0; i < 4; i++)
        P[i].create(i);
    std::vector<Blk> live;
    int depth = (int)mc_param("depth", 4), alpha = (int)mc_param("alpha", 0);
    int faults = (int)mc_param("faults", 0), ipc = (int)mc_param("ipc", 0);
    // initial allocations
    auto put = [&](int p, int lvl, int lo, int hi) {
        nextaddr() = at(lo);
        MC_CHECK(umfPoolMalloc(P[p].h, (size_t)(hi - lo) * U), "trk:refused", "allocation failed");
        live.push_back({p, lvl, lo, hi});
        mc_op("pool %ld allocates units %ld-%ld", p, lo, hi);
    };
    const int W = 8;
    int init = mc_choose(4);
    const int nest = (int)mc_param("nest", 0); // level of A and B
    if (nest)
        put(3, 0, 0, W + 5);
    put(0, nest, 0, init == 1 ? 4 : W);
    if (init == 1)
        put(0, nest, 4, W);
    if (init == 2)
        put(1, nest, W, W + 2);
    if (init == 3)
        put(0, nest, W, W + 4);
    static const std::pair<int, int> KID[] = {{0, 2}, {4, 6}, {2, 4}, {0, 8}};
    for (auto &p : P)
        p.z.faults = faults ? FA_SPLIT | FA_MERGE : 0;
    for (int s = 0; s < depth; s++) {
        struct Op {
            int k, p, a, b, t;
        }; // 0 split(a,total t,first b) 1 merge(a,b,t) 2 free(a,t) 3 alloc child 4 alloc
        std::vector<Op> ops;
        auto add = [&](Op o) { ops.push_back(o); };
        for (auto &b : live) {
            if (b.pool >= 2)
                continue;
            int n = b.hi - b.lo;
            for (int f = 1; f < n; f++)
                if (!alpha || f == n / 2 || f == 1)
                    add({0, 0, b.lo, f, n});
            if (!alpha || s == depth - 1) {
                add({0, 0, b.lo, 1, n + 1}), add({0, 0, b.lo, n, n + 2});
                if (n > 2)
                    add({0, 0, b.lo, 1, n - 1}), add({0, 0, b.lo + 1, 1, n - 1});
                add({0, 1, b.lo, 1, n}); // by pool B
                add({0, 0, b.lo, n, n}), add({0, 0, b.lo, n + 1, n});
                add({2, 0, b.lo, 0, n + 1});
                if (n > 1)
                    add({2, 0, b.lo, 0, n - 1});
                if (n > 2)
                    add({2, 0, b.lo + 1, 0, n - 1});
            }
            bool kids = false;
            for (auto &c : live)
                kids |= c.pool == 2 && c.lo >= b.lo && c.lo < b.hi;
            if (!kids)
                add({2, b.pool, b.lo, 0, n});
            for (auto &c : live)
                if (c.pool < 2 && c.lo > b.lo) {
                    int t = n + c.hi - c.lo;
                    add({1, 0, b.lo, c.lo, t});
                    if (!alpha || s == depth - 1) {
                        add({1, 0, b.lo, c.lo, t + 1});
                        if (t > 2)
                            add({1, 0, b.lo, c.lo, t - 1});
                        add({1, 1, b.lo, c.lo, t});
                        add({1, 0, c.lo, b.lo, t});
                        if (n > 1)
                            add({1, 0, b.lo + 1, c.lo, t - 1});
                    }
                }
        }
        for (auto &k : KID) {
            bool in = false, hit = false;
            for (auto &b : live) {
                in |= b.pool == 0 && k.first >= b.lo && k.second <= b.hi;
                hit |= b.pool == 2 && k.first < b.hi && b.lo < k.second;
            }
            if (in && !hit)
                add({3, 2, k.first, k.second, 0});
        }
        for (auto &c : live)
            if (c.pool == 2)
                add({2, 2, c.lo, 0, c.hi - c.lo});
        if (ops.empty())
            break;
        Op o = ops[(size_t)mc_choose((int)ops.size())];
        int f0 = mc_faults_used();
        auto bad0 = [&] { return P[0].z.bad_split || P[1].z.bad_split || P[2].z.bad_split || P[3].z.bad_split; };
        mc_ba_faults(faults);
        umf_result_t r;
        auto top = [&](int lo) -> Blk * {
            for (auto &b : live)
                if (b.lo == lo && b.pool < 2)
                    return &b;
            return nullptr;
        };
        switch (o.k) {
        case 0: {
            mc_op("pool %ld: split unit %ld total %ld first %ld", o.p, o.a, o.t, o.b);
            Blk *b = top(o.a);
            bool ok = b && b->pool == o.p && b->hi - b->lo == o.t && o.b < o.t;
            for (auto &c : live)
                ok &= !(c.pool == 2 && b && c.lo >= b->lo && c.lo < b->hi);
            r = umfMemoryProviderAllocationSplit(P[o.p].prov, (void *)at(o.a), (size_t)o.t * U, (size_t)o.b * U);
            if (ok && mc_faults_used() == f0)
                MC_CHECK(r == UMF_RESULT_SUCCESS, "trk:split", "valid split = %d", r);
            if (!ok)
                MC_CHECK(r != UMF_RESULT_SUCCESS, "trk:split-bad", "inconsistent split accepted");
            if (r == UMF_RESULT_SUCCESS) {
                Blk n{o.p, nest, o.a + o.b, b->hi};
                b->hi = o.a + o.b;
                live.push_back(n);
            }
            break;
        }
        case 1: {
            mc_op("pool %ld: merge units %ld and %ld total %ld", o.p, o.a, o.b, o.t);
            Blk *a = top(o.a), *b = top(o.b);
            bool ok = a && b && a->pool == o.p && b->pool == o.p && a->hi == b->lo && b->hi - a->lo == o.t;
            // the entry found is the innermost one: a child starting at the
            // same address makes the arguments inconsistent
            bool kids = false;
            for (auto &c : live)
                kids |= c.pool == 2 && (c.lo == o.a || c.lo == o.b);
            r = umfMemoryProviderAllocationMerge(P[o.p].prov, (void *)at(o.a), (void *)at(o.b), (size_t)o.t * U);
            if (ok && !kids && mc_faults_used() == f0)
                MC_CHECK(r == UMF_RESULT_SUCCESS, "trk:merge", "valid merge = %d", r);
            if (!ok)
                MC_CHECK(r != UMF_RESULT_SUCCESS, "trk:merge-bad", "inconsistent merge accepted");
            if (r == UMF_RESULT_SUCCESS) {
                a->hi = b->hi;
                live.erase(live.begin() + (b - live.data()));
            }
            break;
        }
        case 2: {
            mc_op("pool %ld: free unit %ld size %ld", o.p, o.a, o.t);
            Blk *b = nullptr;
            for (auto &q : live)
                if (q.pool == o.p && q.lo == o.a)
                    b = &q;
            bool ok = b && b->hi - b->lo == o.t, kids = false;
            // freeing memory in which another pool has allocations is a
            // program error, whatever the size
            for (auto &c : live)
                kids |= c.pool == 2 && o.p != 2 && c.lo >= o.a && c.lo < o.a + o.t;
            if (kids)
                mc_prune();
            if (!ok)
                mc_ba_faults(0); // a refused free takes the entry out and puts it back
            r = umfMemoryProviderFree(P[o.p].prov, (void *)at(o.a), (size_t)o.t * U);
            if (mc_faults_used() == f0)
                MC_CHECK((r == UMF_RESULT_SUCCESS) == ok, "trk:free", "free of unit %d size %d = %d", o.a, o.t, r);
            if (r == UMF_RESULT_SUCCESS)
                live.erase(live.begin() + (b - live.data()));
            break;
        }
        default:
            mc_op("pool %ld allocates units %ld-%ld", o.p, o.a, o.b);
            nextaddr() = at(o.a);
            void *q = umfPoolMalloc(P[o.p].h, (size_t)(o.b - o.a) * U);
            if (mc_faults_used() == f0)
                MC_CHECK(q, "trk:refused", "allocation failed");
            if (q)
                live.push_back({o.p, nest + 1, o.a, o.b});
        }
        mc_ba_faults(0);
        MC_CHECK(!bad0(), "trk:bad-upstream", "inconsistent request passed to the provider");
        verify(live, P, 4, 0, W + 6, ipc);
        mc_state(mc_mix(vhash(live), init));
    }
    for (auto &p : P)
        p.z.faults = 0;
    verify(live, P, 4, 0, W + 6, true);
    mc_outcome(vhash(live));
    for (int k : {2, 1, 0, 3})
        for (auto &b : live)
            if (b.pool == k) {
                umf_result_t r = umfMemoryProviderFree(P[k].prov, (void *)at(b.lo), (size_t)(b.hi - b.lo) * U);
                MC_CHECK(r == UMF_RESULT_SUCCESS, "trk:free", "free of units %d-%d = %d", b.lo, b.hi, r);
            }
    live.clear();
    verify(live, P, 4, 0, W + 6, false);
    for (auto &p : P)
        p.destroy();
    lib.done();
}
// repeating balanced operations must not make the metadata grow
static void body_steady() {
    XLib lib;
    pick_base();
    ZPool P[3];
    for (int i = 0; i < 3; i++)
        P[i].create(i);
    std::vector<Blk> live;
    auto put = [&](int p, int lvl, int lo, int hi) {
        nextaddr() = at(lo);
        MC_CHECK(umfPoolMalloc(P[p].h, (size_t)(hi - lo) * U), "trk:refused", "allocation failed");
        live.push_back({p, lvl, lo, hi});
    };
    auto drop = [&](int p, int lo) {
        for (size_t i = 0; i < live.size(); i++)
            if (live[i].pool == p && live[i].lo == lo) {
                MC_CHECK(umfMemoryProviderFree(P[p].prov, (void *)at(lo), (size_t)(live[i].hi - lo) * U) == UMF_RESULT_SUCCESS, "trk:free", "free failed");
                live.erase(live.begin() + (long)i);
                return;
            }
        mc_fail("setup:drop", "no such block");
    };
    auto split = [&](int lo, int total, int first) {
        return umfMemoryProviderAllocationSplit(P[0].prov, (void *)at(lo), (size_t)total * U, (size_t)first * U) == UMF_RESULT_SUCCESS;
    };
    auto merge = [&](int lo, int hi, int total) {
        return umfMemoryProviderAllocationMerge(P[0].prov, (void *)at(lo), (void *)at(hi), (size_t)total * U) == UMF_RESULT_SUCCESS;
    };
    put(0, 0, 0, 8);
    auto once = [&](int k) {
        switch (k) {
        case 0:
            MC_CHECK(split(0, 8, 4) && merge(0, 4, 8), "trk:split", "split and merge failed");
            break;
        case 1:
            drop(0, 0), put(0, 0, 0, 8);
            break;
        case 2:
            put(2, 1, 2, 4), drop(2, 2);
            break;
        case 3:
            put(1, 0, 8, 10), drop(1, 8);
            break;
        case 4:
            MC_CHECK(split(0, 8, 2) && split(2, 6, 3) && merge(2, 5, 6) && merge(0, 2, 8), "trk:split", "split and merge failed");
            break;
        case 5: {
            umf_ipc_handle_t h;
            size_t n;
            MC_CHECK(umfGetIPCHandle((void *)at(1), &h, &n) == UMF_RESULT_SUCCESS && umfPutIPCHandle(h) == UMF_RESULT_SUCCESS, "trk:ipc", "IPC handle refused");
            break;
        }
        case 6:
            MC_CHECK(!split(0, 9, 4) && !split(1, 7, 4) && umfMemoryProviderFree(P[0].prov, (void *)at(0), 7 * U) != UMF_RESULT_SUCCESS, "trk:split-bad", "inconsistent request accepted");
            break;
        case 7: // a nested block at the end of a part that is merged again
            MC_CHECK(split(0, 8, 4), "trk:split", "split failed");
            put(2, 1, 6, 8);
            MC_CHECK(merge(0, 4, 8), "trk:merge", "merge failed");
            drop(2, 6);
            break;
        case 8: // the parts are released on their own
            MC_CHECK(split(0, 8, 4), "trk:split", "split failed");
            live.clear();
            live.push_back({0, 0, 0, 4}), live.push_back({0, 0, 4, 8});
            drop(0, 4), drop(0, 0), put(0, 0, 0, 8);
            break;
        default: // a nested block reaching over the end is refused
            nextaddr() = at(6);
            MC_CHECK(!umfPoolMalloc(P[2].h, 3 * U), "trk:exceeds", "allocation reaching over the end of its parent accepted");
        }
        mc_state((uint64_t)k);
    };
    int n = 1 + mc_choose((int)mc_param("depth", 3));
    std::vector<int> seq;
    for (int i = 0; i < n; i++) {
        seq.push_back(mc_choose(10));
        mc_op("repeated: balanced operation %ld", seq.back());
    }
    size_t seen[3];
    int rounds = (int)mc_param("rounds", 24); // more than the removed nodes a tree keeps for a while
    for (int ph = 0; ph < 3; ph++) {
        for (int r = 0; r < rounds; r++)
            for (int k : seq)
                once(k);
        seen[ph] = mc_ba_live();
    }
    MC_CHECK(seen[2] <= seen[1], "trk:leak", "metadata grows from %zu to %zu blocks over %d rounds", seen[1], seen[2], rounds);
    verify(live, P, 3, 0, 14, true);
    mc_outcome(mc_mix(seen[2] - seen[0] + 7, seq[0]));
    drop(0, 0);
    for (auto &p : P)
        p.destroy();
    lib.done();
}
int main(int argc, char **argv) {
    return mc_main(argc, argv, {{"owners", body_owners, false, x_down}, {"deep", body_deep, false, x_down}, {"split", body_split, false, x_down}, {"steady", body_steady, false, x_down}});
}
