// C01/C03/C04: disjoint pool histories against a reference model.
// Oracles: 1 = C01 block guarantees, 2 = C03 pooling limits and reuse,
// 4 = C04 provider balance and failure behaviour.
#include "umfx.hpp"
#include <algorithm>
#include <umf/pools/pool_disjoint.h>

struct Cfg {
    size_t slab_min, max_poolable, capacity, min_bucket, page, gap;
    bool reuse;
};
static const std::vector<Cfg> CFG = {
    {256, 2048, 2, 8, 64, 0, true},       // chunked and single-block classes
    {4096, 8192, 1, 64, 4096, 0, true},   // capacity one
    {64, 1024, 4, 8, 4096, 4096, true},   // slabs smaller than a page, gaps
    {1000, 3000, 1, 8, 8, 0, true},       // slab size not a multiple of anything
    {0, 512, 0, 32, 64, 0, false},        // nothing pooled for big classes
    {65536, 2097152, 4, 8, 65536, 0, true},
    {1024, 0, 4, 8, 4096, 0, true},       // everything goes to the provider
    {128, (size_t)-1, 1, 8, 4096, 0, true},  // no upper limit
    {1024, 16384, 1, 4096, 64, 0, true},  // classes larger than slab_min
    {96, 400, 3, 16, 16, 0, false},       // 1.5 * power of two
};
static const size_t CUT = (size_t)1 << 31;
static size_t class_of(const Cfg &c, size_t n) { // documented size classes
    size_t m = std::max<size_t>(std::min(c.min_bucket, CUT), 8);
    for (;; m *= 2) {
        if (n <= m || m >= CUT)
            return m;
        if (n <= m + m / 2)
            return m + m / 2;
    }
}
struct Blk {
    uintptr_t p;
    size_t n, al;
    size_t cls; // 0: straight from the provider
    uintptr_t slab;
    size_t usable;
};
struct Slab {
    size_t cls, size, chunks, used;
    int pool;
};
struct Pool {
    umf_memory_pool_handle_t h = nullptr;
    umf_memory_provider_handle_t prov = nullptr;
    XProv x;
    Cfg c;
    std::vector<Blk> live;
    std::map<uintptr_t, Slab> slabs;
    bool limits = false; // attached to the shared limits
};
static int g_orc;
struct World {
    std::vector<Pool *> pools;
    umf_disjoint_pool_shared_limits_handle_t lim = nullptr;
    size_t lim_max = 0;
};
static unsigned char tagof(const Blk &b) { return (unsigned char)((b.p >> 4) * 31 + b.n * 7 + 1); }
static void paint(const Blk &b) {
    unsigned char t = tagof(b);
    size_t k = std::min<size_t>(b.n, 16);
    memset((void *)b.p, t, k);
    memset((void *)(b.p + b.n - k), t, k);
}
static void check_paint(const Blk &b) {
    unsigned char t = tagof(b);
    size_t k = std::min<size_t>(b.n, 16);
    for (size_t i = 0; i < k; i++)
        MC_CHECK(((unsigned char *)b.p)[i] == t && ((unsigned char *)b.p)[b.n - 1 - i] == t, "pool:contents",
                 "contents of live block %lx (size %zu) changed", b.p, b.n);
}
static void mk(Pool &P, World &w) {
    P.prov = x_provider(&P.x);
    umf_disjoint_pool_params_handle_t pr = nullptr;
    MC_CHECK(umfDisjointPoolParamsCreate(&pr) == UMF_RESULT_SUCCESS, "setup:params", "params");
    umfDisjointPoolParamsSetSlabMinSize(pr, P.c.slab_min);
    umfDisjointPoolParamsSetMaxPoolableSize(pr, P.c.max_poolable);
    umfDisjointPoolParamsSetCapacity(pr, P.c.capacity);
    umfDisjointPoolParamsSetMinBucketSize(pr, P.c.min_bucket);
    umfDisjointPoolParamsSetTrace(pr, (int)mc_param("trace", 0));
    if (P.limits)
        umfDisjointPoolParamsSetSharedLimits(pr, w.lim);
    umf_result_t r = umfPoolCreate(umfDisjointPoolOps(), P.prov, pr, 0, &P.h);
    umfDisjointPoolParamsDestroy(pr);
    MC_CHECK(r == UMF_RESULT_SUCCESS, "pool:create", "umfPoolCreate = %d", r);
}
static size_t used_budget(World &w) {
    size_t s = 0;
    for (auto *P : w.pools)
        if (P->limits)
            for (auto &q : P->slabs)
                if (q.second.used == 0)
                    s += q.second.size;
    return s;
}
static size_t idle_of(Pool &P, size_t cls) {
    size_t n = 0;
    for (auto &q : P.slabs)
        n += q.second.cls == cls && q.second.used == 0;
    return n;
}
static void check_c01(Pool &P) {
    for (size_t i = 0; i < P.live.size(); i++) {
        Blk &b = P.live[i];
        b.usable = umfPoolMallocUsableSize(P.h, (void *)b.p);
        MC_CHECK(b.usable >= b.n, "pool:usable-small", "usable size of %lx is %zu, requested %zu", b.p, b.usable, b.n);
        MC_CHECK(umfPoolByPtr((void *)b.p) == P.h && umfPoolByPtr((void *)(b.p + b.n - 1)) == P.h, "pool:byptr", "live block %lx is not attributed to its pool", b.p);
        MC_CHECK(P.x.holder(b.p, b.usable), "pool:outside", "block %lx usable %zu is not inside memory held from the provider", b.p, b.usable);
    }
    std::vector<const Blk *> v;
    for (auto &b : P.live)
        v.push_back(&b);
    std::sort(v.begin(), v.end(), [](const Blk *a, const Blk *b) { return a->p < b->p; });
    for (size_t i = 1; i < v.size(); i++)
        MC_CHECK(v[i - 1]->p + v[i - 1]->usable <= v[i]->p, "pool:overlap", "block %lx (requested %zu, usable %zu) reaches into live block %lx", v[i - 1]->p, v[i - 1]->n, v[i - 1]->usable, v[i]->p);
    for (auto &b : P.live)
        check_paint(b);
}
// al == 0: plain malloc
static void do_alloc(World &w, Pool &P, size_t n, size_t al) {
    Cfg &c = P.c;
    long a0 = P.x.n_alloc, f0 = P.x.n_fail;
    int flt0 = mc_faults_used();
    std::map<uintptr_t, XBlk> before = P.x.live;
    umfPoolCalloc(P.h, 1, 1); // leaves "not supported" as last error
    mc_op(al ? "aligned_malloc size %ld alignment %ld" : "malloc size %ld", (long)n, (long)al);
    uintptr_t p = (uintptr_t)(al ? umfPoolAlignedMalloc(P.h, n, al) : umfPoolMalloc(P.h, n));
    bool faulted = mc_faults_used() > flt0 || P.x.n_fail > f0;
    umf_result_t le = umfPoolGetLastAllocationError(P.h);
    // reference: which class serves it
    size_t need = n;
    bool ovf = false;
    if (al > 1) {
        if (al <= c.page)
            need = (n + al - 1) & ~(al - 1), ovf = need < n;
        else
            need = n + al - 1, ovf = need < n;
    }
    bool direct = ovf || need > c.max_poolable || need > CUT;
    size_t cls = direct ? 0 : class_of(c, need);
    if (!p) {
        MC_CHECK(faulted || ovf || need > (X_STEP >> 2), "pool:refused", "request of %zu bytes refused although the provider has memory", n);
        if (g_orc & 5)
            MC_CHECK(le != UMF_RESULT_SUCCESS && le != UMF_RESULT_ERROR_NOT_SUPPORTED && (ovf || le == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY), "pool:last-error", "failed request left last error %d", le);
        if (g_orc & 4)
            MC_CHECK(P.x.live.size() == before.size(), "pool:fail-leak", "failed request left provider memory held");
        return;
    }
    MC_CHECK(!ovf, "pool:impossible", "impossible request %zu (alignment %zu) returned %lx", n, al, p);
    if (al)
        MC_CHECK(p % al == 0, "pool:align", "%lx is not aligned to %zu", p, al);
    auto *hold = P.x.holder(p, n);
    MC_CHECK(hold, "pool:outside", "block %lx size %zu is not inside memory held from the provider", p, n);
    Blk b{p, n, al, cls, hold->first, 0};
    long asked = P.x.n_alloc - a0;
    if (direct) {
        if (g_orc & 2) {
            MC_CHECK(asked == 1, "pool:direct", "request of %zu above the poolable maximum made %ld provider allocations", n, asked);
            MC_CHECK(!before.count(hold->first) && hold->second.size >= n, "pool:direct", "request above the poolable maximum not served by its own provider allocation");
        }
    } else {
        bool can = false;
        for (auto &s : P.slabs)
            can |= s.second.cls == cls && s.second.used < s.second.chunks;
        if (g_orc & 2) {
            if (can)
                MC_CHECK(asked == 0, "pool:reuse", "request of %zu (class %zu) took new provider memory although the class has free room", n, cls);
            else
                MC_CHECK(asked == 1, "pool:slab", "request of %zu (class %zu): %ld provider allocations, expected 1", n, cls, asked);
        }
        auto it = P.slabs.find(hold->first);
        if (it == P.slabs.end()) {
            it = P.slabs.emplace(hold->first, Slab{cls, hold->second.size, std::max<size_t>(c.slab_min / cls, 1), 0, 0}).first;
        }
        if (g_orc & 2)
            MC_CHECK(it->second.cls == cls && it->second.used < it->second.chunks, "pool:slab-mix", "block %lx placed in memory of another class or a full slab", p);
        it->second.used++;
    }
    b.usable = n;
    for (auto &o : P.live)
        MC_CHECK(p + n <= o.p || o.p + o.n <= p, "pool:overlap", "new block %lx size %zu overlaps live block %lx size %zu", p, n, o.p, o.n);
    paint(b);
    P.live.push_back(b);
}
static void do_free(World &w, Pool &P, size_t i) {
    Blk b = P.live[i];
    check_paint(b);
    P.live.erase(P.live.begin() + (long)i);
    long f0 = P.x.n_free;
    mc_op("free block of size %ld alignment %ld", (long)b.n, (long)b.al);
    size_t used = used_budget(w), idle = b.cls ? idle_of(P, b.cls) : 0;
    size_t fr0 = P.x.live.size();
    umf_result_t r = (b.n & 1) ? umfFree((void *)b.p) : umfPoolFree(P.h, (void *)b.p);
    MC_CHECK(r == UMF_RESULT_SUCCESS, "pool:free", "free of live block %lx = %d", b.p, r);
    long given = P.x.n_free - f0;
    if (!b.cls) {
        if (g_orc & 2)
            MC_CHECK(given == 1 && !P.x.live.count(b.slab), "pool:direct-free", "block above the poolable maximum was not handed back on free");
        return;
    }
    Slab &s = P.slabs[b.slab];
    s.used--;
    if (s.used == 0) {
        size_t cap = s.cls <= P.c.slab_min / 2 ? 1 : P.c.capacity;
        bool keep = idle + 1 <= cap && (!P.limits || used + s.size <= w.lim_max);
        bool kept = given == 0;
        if (g_orc & 2) {
            if (!keep)
                MC_CHECK(!kept && !P.x.live.count(b.slab), "pool:limit", "idle slab (class %zu, %zu bytes) kept: %zu idle before, capacity %zu, shared %zu of %zu", s.cls, s.size, idle, cap, used, w.lim_max);
            else
                MC_CHECK(kept, "pool:not-pooled", "idle slab (class %zu, %zu bytes) given back although %zu idle of capacity %zu, shared budget %zu of %zu used", s.cls, s.size, idle, cap, used, P.limits ? w.lim_max : 0);
        }
        if (!kept)
            P.slabs.erase(b.slab);
    } else if (g_orc & 2)
        MC_CHECK(given == 0, "pool:early-free", "provider memory with live blocks was given back");
    (void)fr0;
}
static void limits_check(World &w) {
    if (!(g_orc & 2))
        return;
    // independent of the model: provider memory holding no live block
    size_t idle = 0;
    for (auto *P : w.pools) {
        if (!P->limits)
            continue;
        std::set<uintptr_t> busy;
        for (auto &b : P->live)
            busy.insert(b.slab);
        for (auto &a : P->x.live)
            if (!busy.count(a.first))
                idle += a.second.size;
    }
    if (w.lim)
        MC_CHECK(idle <= w.lim_max, "pool:shared-limit", "%zu idle bytes pooled, shared maximum is %zu", idle, w.lim_max);
}
static uint64_t hash(World &w) {
    uint64_t h = 7;
    for (auto *P : w.pools) {
        for (auto &a : P->x.live)
            h = mc_mix(mc_mix(h, a.first - P->x.lo()), a.second.size);
        std::set<std::pair<uintptr_t, size_t>> o;
        for (auto &b : P->live)
            o.insert({b.p - P->x.lo(), b.n});
        for (auto &b : o)
            h = mc_mix(mc_mix(h, b.first), b.second);
    }
    return h;
}
static void teardown(World &w, Pool *P) {
    if (!P->h)
        return;
    umfPoolDestroy(P->h);
    P->h = nullptr;
    P->slabs.clear();
    if (g_orc & 5)
        MC_CHECK(P->x.live.empty(), "pool:leak", "%zu provider allocations outstanding after pool destruction", P->x.live.size());
    umfMemoryProviderDestroy(P->prov);
}
struct Req {
    size_t n, al;
};
static std::vector<Req> alphabet(const Cfg &c, int which) {
    size_t mb = std::max<size_t>(std::min(c.min_bucket, CUT), 8), sm = c.slab_min, mp = c.max_poolable, pg = c.page;
    std::vector<Req> v;
    auto add = [&](size_t n, size_t al) {
        if (n == 0 || n > (X_STEP >> 4))
            return;
        for (auto &r : v)
            if (r.n == n && r.al == al)
                return;
        v.push_back({n, al});
    };
    if (which == 0) { // everything around the boundaries
        add(1, 0), add(mb, 0), add(mb + 1, 0), add(mb + mb / 2 + 1, 0);
        add(sm / 2, 0), add(sm / 2 + 1, 0), add(sm, 0), add(sm + 1, 0);
        add(mp, 0), add(mp + 1, 0);
        if (mp == (size_t)-1)
            add(CUT, 0), add(CUT + 1, 0), add(CUT - pg, pg * 2);
        add(1, pg), add(1, 2 * pg), add(mb + 1, 16), add(sm / 2 + 1, 2 * pg), add(mp, pg), add(mp, 2 * pg), add(sm + 3, 4 * pg), add(3, 1);
    } else { // a few, deep
        add(sm / 2, 0), add(sm / 2 - mb, 0), add(sm, 0), add(sm + 1, 0), add(1, 2 * pg);
    }
    return v;
}
static void run(World &w, Pool *P, int depth, const std::vector<Req> &al) {
    for (int i = 0; i < depth; i++) {
        int k = mc_choose((int)(al.size() + P->live.size()));
        if (k < (int)al.size())
            do_alloc(w, *P, al[k].n, al[k].al);
        else
            do_free(w, *P, (size_t)k - al.size());
        if (g_orc & 1)
            check_c01(*P);
        limits_check(w);
        mc_state(hash(w));
    }
}
static void odd_requests(Pool *P) {
    size_t before = P->x.live.size();
    struct {
        int op;
        size_t a, b;
    } bad[] = {{0, 4, 4}, {1, 0, 8}, {2, (size_t)-1, 64}, {2, (size_t)-64, 2 * P->c.page}, {2, (size_t)-1 - P->c.page + 2, P->c.page},
               {2, 8, (size_t)1 << 63}, {2, (size_t)-8, 16}, {3, (size_t)-1, 0}, {3, (size_t)1 << 63, 0}, {2, 8, 3}, {2, 100, 24}};
    for (auto &q : bad) {
        // make sure the previous last error is another one
        if (q.op)
            umfPoolCalloc(P->h, 1, 1);
        mc_op("unusual request op %ld a %lx b %lx", q.op, (long)q.a, (long)q.b);
        void *r = q.op == 0 ? umfPoolCalloc(P->h, q.a, q.b) : q.op == 1 ? umfPoolRealloc(P->h, nullptr, q.b) : q.op == 2 ? umfPoolAlignedMalloc(P->h, q.a, q.b) : umfPoolMalloc(P->h, q.a);
        umf_result_t e = umfPoolGetLastAllocationError(P->h);
        MC_CHECK(!r, "pool:impossible", "request op %d (%zx, %zx) succeeded", q.op, q.a, q.b);
        if (q.op < 2)
            MC_CHECK(e == UMF_RESULT_ERROR_NOT_SUPPORTED, "pool:last-error", "unsupported request left last error %d", e);
        else
            MC_CHECK(e == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY || e == UMF_RESULT_ERROR_INVALID_ARGUMENT, "pool:last-error", "impossible request left last error %d", e);
        MC_CHECK(P->x.live.size() == before, "pool:changed", "refused request changed the pool's provider memory");
    }
    MC_CHECK(umfPoolMalloc(P->h, 0) == nullptr && umfPoolAlignedMalloc(P->h, 0, 64) == nullptr, "pool:zero", "zero-size request returned memory");
    MC_CHECK(umfPoolFree(P->h, nullptr) == UMF_RESULT_SUCCESS && umfFree(nullptr) == UMF_RESULT_SUCCESS, "pool:free-null", "free(NULL) failed");
    MC_CHECK(umfPoolMallocUsableSize(P->h, nullptr) == 0, "pool:usable-null", "usable size of NULL");
}
static void body_hist() {
    XLib lib;
    g_orc = (int)mc_param("orc", 7);
    World w;
    Pool P;
    int ci = (int)mc_param("cfg", -1);
    P.c = CFG[ci < 0 ? mc_choose((int)CFG.size()) : ci];
    P.x.page = P.c.page;
    P.x.gap = P.c.gap;
    P.x.reuse = P.c.reuse;
    P.x.faults = (g_orc & 4) ? FA_ALLOC : 0;
    w.pools.push_back(&P);
    mk(P, w);
    run(w, &P, (int)mc_param("depth", 4), alphabet(P.c, (int)mc_param("alpha", 0)));
    if (g_orc & 4) { // the provider recovers: every class works again
        P.x.faults = 0;
        for (auto &r : alphabet(P.c, 1))
            do_alloc(w, P, r.n, r.al);
        if (g_orc & 1)
            check_c01(P);
        if (mc_choose(2)) // destroy with blocks still live, or empty
            while (!P.live.empty())
                do_free(w, P, 0);
    } else {
        if (g_orc & 1) {
            odd_requests(&P);
            check_c01(P);
        }
        while (!P.live.empty())
            do_free(w, P, P.live.size() / 2);
        if (g_orc & 1)
            check_c01(P);
        limits_check(w);
    }
    // blocks still live are slabs or provider blocks the pool cannot know of
    for (auto &b : P.live)
        if (!b.cls)
            umfPoolFree(P.h, (void *)b.p);
    P.live.clear();
    mc_outcome(mc_mix(hash(w), P.x.n_alloc * 1000 + P.x.n_free));
    teardown(w, &P);
    lib.done();
}
// several pools under one shared limit, pools destroyed and created again
static void body_shared() {
    XLib lib;
    g_orc = 2 | 4;
    World w;
    static const size_t MAXS[] = {0, 255, 256, 512, 768, 1279};
    w.lim_max = MAXS[mc_choose(6)];
    w.lim = umfDisjointPoolSharedLimitsCreate(w.lim_max);
    Pool A, B;
    A.c = B.c = {256, 512, 2, 8, 64, 0, true};
    A.limits = B.limits = true;
    A.x.page = B.x.page = 64;
    B.x.id = 1;
    w.pools = {&A, &B};
    mk(A, w), mk(B, w);
    int depth = (int)mc_param("depth", 7);
    static const Req R[] = {{100, 0}, {200, 0}, {500, 0}};
    for (int i = 0; i < depth; i++) {
        int n = 0;
        // choices: alloc in A/B (3 each), free in A/B, recreate A/B
        int opts = 6 + (int)A.live.size() + (int)B.live.size() + 2;
        n = mc_choose(opts);
        if (n < 6)
            do_alloc(w, n < 3 ? A : B, R[n % 3].n, 0);
        else if ((n -= 6) < (int)A.live.size())
            do_free(w, A, (size_t)n);
        else if ((n -= (int)A.live.size()) < (int)B.live.size())
            do_free(w, B, (size_t)n);
        else {
            n -= (int)B.live.size();
            Pool &P = n ? B : A;
            if (!P.live.empty() && !mc_param("destroy_live", 0))
                while (!P.live.empty())
                    do_free(w, P, 0);
            mc_op("destroy and create pool %ld", n);
            P.live.clear();
            teardown(w, &P);
            int id = P.x.id;
            P.x = XProv();
            P.x.id = id;
            P.x.page = 64;
            mk(P, w);
        }
        limits_check(w);
        mc_state(mc_mix(hash(w), w.lim_max));
    }
    for (Pool *P : {&A, &B}) {
        while (!P->live.empty())
            do_free(w, *P, 0);
        limits_check(w);
        teardown(w, P);
    }
    umfDisjointPoolSharedLimitsDestroy(w.lim);
    lib.done();
}
// parameters that must be accepted or rejected
static void body_params() {
    XLib lib;
    static const size_t V[] = {0, 1, 2, 3, 7, 8, 9, 12, 64, 96, 4096, 65536, (size_t)1 << 31, ((size_t)1 << 31) + 1, (size_t)1 << 32, (size_t)1 << 63, (size_t)-1};
    static const size_t S[] = {0, 1, 7, 64, 96, 4096, 65536};
    size_t mb = V[mc_choose(17)], sm = S[mc_choose(7)], mp = V[mc_choose(17)];
    size_t cap = mc_choose(2) ? (size_t)-1 : 0;
    XProv x;
    x.page = 64;
    umf_memory_provider_handle_t prov = x_provider(&x);
    umf_disjoint_pool_params_handle_t pr = nullptr;
    MC_CHECK(umfDisjointPoolParamsCreate(&pr) == UMF_RESULT_SUCCESS, "setup:params", "params");
    mc_op("min_bucket %ld slab_min %ld max_poolable %ld", (long)mb, (long)sm, (long)mp);
    umf_result_t r = umfDisjointPoolParamsSetMinBucketSize(pr, mb);
    bool ok = mb && !(mb & (mb - 1));
    MC_CHECK((r == UMF_RESULT_SUCCESS) == ok, "pool:param", "min bucket size %zu: %d", mb, r);
    umfDisjointPoolParamsSetSlabMinSize(pr, sm);
    umfDisjointPoolParamsSetMaxPoolableSize(pr, mp);
    umfDisjointPoolParamsSetCapacity(pr, cap);
    umf_memory_pool_handle_t h = nullptr;
    r = umfPoolCreate(umfDisjointPoolOps(), prov, pr, 0, &h);
    umfDisjointPoolParamsDestroy(pr);
    MC_CHECK(r == UMF_RESULT_SUCCESS && h, "pool:create", "umfPoolCreate = %d", r);
    std::vector<Blk> bs;
    for (size_t n : {(size_t)1, (size_t)8, (size_t)13, (size_t)4096, (size_t)1 << 31, ((size_t)1 << 31) + 1, (size_t)5 << 30}) {
        if (sm > ((size_t)1 << 33) && n <= mp)
            continue; // the provider cannot hold such a slab
        for (size_t al : {(size_t)0, (size_t)64, (size_t)256}) {
            mc_op("malloc size %ld alignment %ld", (long)n, (long)al);
            uintptr_t p = (uintptr_t)(al ? umfPoolAlignedMalloc(h, n, al) : umfPoolMalloc(h, n));
            bool maybe_big = al && sm > ((size_t)1 << 33);
            if (!p && maybe_big)
                continue;
            MC_CHECK(p, "pool:refused", "malloc(%zu) refused", n);
            MC_CHECK((!al || p % al == 0) && x.holder(p, n), "pool:outside", "block %lx of %zu bytes outside provider memory or misaligned", p, n);
            size_t u = umfPoolMallocUsableSize(h, (void *)p);
            MC_CHECK(u >= n && x.holder(p, u), "pool:usable-small", "usable size %zu of a %zu byte block", u, n);
            bs.push_back({p, n, al, 0, 0, u});
        }
    }
    std::sort(bs.begin(), bs.end(), [](const Blk &a, const Blk &b) { return a.p < b.p; });
    for (size_t i = 1; i < bs.size(); i++)
        MC_CHECK(bs[i - 1].p + bs[i - 1].usable <= bs[i].p, "pool:overlap", "overlap");
    for (auto &b : bs) {
        mc_op("free size %ld", (long)b.n);
        MC_CHECK(umfPoolFree(h, (void *)b.p) == UMF_RESULT_SUCCESS, "pool:free", "free failed");
    }
    mc_state(mc_mix(mc_mix(mb, sm), mp * 2 + (cap != 0)));
    umfPoolDestroy(h);
    MC_CHECK(x.live.empty(), "pool:leak", "provider memory outstanding");
    umfMemoryProviderDestroy(prov);
    lib.done();
}
static void setup() {
    x_down();
    x_arena(2);
}
int main(int argc, char **argv) {
    return mc_main(argc, argv, {{"hist", body_hist, false, setup}, {"shared", body_shared, false, setup}, {"params", body_params, false, setup}});
}
