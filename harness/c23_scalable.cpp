// C23: scalable pool, over the installed TBB allocator and over a model of it.
#include "tbbmodel.hpp"
#include <algorithm>
#include <errno.h>
#include <semaphore.h>
#include <thread>
#include <umf/pools/pool_scalable.h>
// ---- a second thread that runs single calls ----------------------------------------
static sem_t s_go, s_done;
static std::function<void()> s_job;
static bool s_up = false;
static void on_thread(int t, const std::function<void()> &f) {
    if (t == 0)
        return f();
    if (!s_up) {
        s_up = true;
        sem_init(&s_go, 0, 0), sem_init(&s_done, 0, 0);
        std::thread([] {
            for (;;) {
                while (sem_wait(&s_go))
                    ;
                s_job();
                sem_post(&s_done);
            }
        }).detach();
    }
    s_job = f;
    sem_post(&s_go);
    while (sem_wait(&s_done))
        ;
}
// ---- model --------------------------------------------------------------------------
struct Cfg {
    size_t gran; // 0: default
    int keep;
};
static const Cfg CFG[] = {{0, 0}, {4096, 0}, {65536, 1}, {1 << 20, 0}, {0, 1}};
struct Blk {
    uintptr_t p;
    size_t n, al;
    unsigned char tag;
};
struct Pool {
    umf_memory_pool_handle_t h = nullptr;
    umf_memory_provider_handle_t prov = nullptr;
    XProv x;
    Cfg c;
    std::vector<Blk> live;
    long fails[2] = {0, 0};
};
struct World {
    Pool pool[2];
    int np = 1, nt = 1;
    bool touched[2] = {false, false}; // the thread has met a refusal
    unsigned char next = 1;
};
static void paint(const Blk &b) {
    if (b.n <= 20000)
        memset((void *)b.p, b.tag, b.n);
    else {
        memset((void *)b.p, b.tag, 9000);
        memset((void *)(b.p + b.n - 64), b.tag, 64);
    }
}
static void check_bytes(const Blk &b, size_t n, unsigned char v, const char *sig) {
    size_t k = std::min<size_t>(n, 9000);
    for (size_t i = 0; i < k; i++)
        MC_CHECK(((unsigned char *)b.p)[i] == v, sig, "byte %zu of block of size %zu is %02x instead of %02x", i, b.n, ((unsigned char *)b.p)[i], v);
}
static void check_all(World &w) {
    for (int k = 0; k < w.np; k++) {
        Pool &P = w.pool[k];
        std::vector<std::pair<uintptr_t, size_t>> v;
        for (auto &b : P.live) {
            size_t u = umfPoolMallocUsableSize(P.h, (void *)b.p);
            MC_CHECK(u >= b.n, "sca:usable", "usable size %zu of a block of %zu", u, b.n);
            MC_CHECK(P.x.holder(b.p, u), "sca:outside", "block %lx usable %zu is not inside memory of its provider", b.p, u);
            MC_CHECK(umfPoolByPtr((void *)b.p) == P.h && umfPoolByPtr((void *)(b.p + b.n - 1)) == P.h, "sca:byptr", "block not attributed to its pool");
            check_bytes(b, b.n, b.tag, "sca:contents");
            if (b.n > 9064)
                for (size_t i = 1; i <= 64; i++)
                    MC_CHECK(((unsigned char *)b.p)[b.n - i] == b.tag, "sca:contents", "end of block of size %zu changed", b.n);
            v.push_back({b.p, u});
        }
        std::sort(v.begin(), v.end());
        for (size_t i = 1; i < v.size(); i++)
            MC_CHECK(v[i - 1].first + v[i - 1].second <= v[i].first, "sca:overlap", "live blocks overlap");
        if (P.c.keep && !(mc_param("mflt", 0) && mc_faults_used())) // a block that could not be tracked goes back
            MC_CHECK(P.x.n_free == 0, "sca:keep", "memory given back although the pool keeps all memory");
        size_t g = P.c.gran ? P.c.gran : (size_t)2 << 20;
        for (auto &a : P.x.live)
            MC_CHECK(a.second.size % g == 0, "sca:granularity", "%zu bytes asked from the provider, granularity %zu", a.second.size, g);
    }
}
static void mk(Pool &P, int id, bool may_fail = false) {
    P.x.id = id;
    if (!P.prov)
        P.prov = x_provider(&P.x);
    umf_scalable_pool_params_handle_t q = nullptr;
    umf_result_t r = umfScalablePoolParamsCreate(&q);
    MC_CHECK(r == UMF_RESULT_SUCCESS || (may_fail && mc_faults_used()), "sca:params", "params = %d", r);
    if (r == UMF_RESULT_SUCCESS) {
        if (P.c.gran)
            MC_CHECK(umfScalablePoolParamsSetGranularity(q, P.c.gran) == UMF_RESULT_SUCCESS, "sca:params", "granularity refused");
        if (P.c.keep && !(mc_param("mflt", 0) && mc_faults_used())) // a block that could not be tracked goes back
            MC_CHECK(umfScalablePoolParamsSetKeepAllMemory(q, true) == UMF_RESULT_SUCCESS, "sca:params", "keep refused");
        r = umfPoolCreate(umfScalablePoolOps(), P.prov, q, 0, &P.h);
        umfScalablePoolParamsDestroy(q);
        if (r != UMF_RESULT_SUCCESS) {
            MC_CHECK(may_fail && mc_faults_used(), "sca:create", "umfPoolCreate = %d", r);
            MC_CHECK(P.x.live.empty(), "sca:create", "failed creation holds provider memory");
        }
    }
}
static void fini(Pool &P) {
    if (P.h)
        umfPoolDestroy(P.h);
    if (P.x.n_fail == 0 || !(P.x.faults & FA_FREE))
        MC_CHECK(P.x.live.empty(), "sca:leak", "%zu provider allocations outstanding after the pool was destroyed", P.x.live.size());
    umfMemoryProviderDestroy(P.prov);
}
// op 0 malloc, 1 aligned_malloc, 2 calloc
static void do_alloc(World &w, Pool &P, int t, int op, size_t n, size_t al) {
    int f0 = mc_faults_used();
    uintptr_t p = 0;
    mc_ba_faults((int)mc_param("mflt", 0));
    on_thread(t, [&] {
        p = (uintptr_t)(op == 0 ? umfPoolMalloc(P.h, n) : op == 1 ? umfPoolAlignedMalloc(P.h, n, al) : umfPoolCalloc(P.h, al, n / al));
    });
    mc_ba_faults(0);
    bool f = mc_faults_used() > f0;
    w.touched[t] |= f;
    mc_op("thread %ld op %ld size %ld -> %lx", t, op, (long)n, (long)(p ? p - P.x.lo() : 0));
    if (!p) {
        MC_CHECK(f, "sca:refused", "request of %zu bytes refused although the provider has memory", n);
        umf_result_t e0 = UMF_RESULT_SUCCESS, other = UMF_RESULT_SUCCESS;
        on_thread(t, [&] { e0 = umfPoolGetLastAllocationError(P.h); });
        MC_CHECK(e0 == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, "sca:error", "last error after a refusal by the provider is %d", e0);
        P.fails[t]++;
        if (w.nt > 1) {
            on_thread(!t, [&] { other = umfPoolGetLastAllocationError(P.h); });
            MC_CHECK(P.fails[!t] || w.touched[!t] || other != UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, "sca:error-thread", "failure of one thread seen as last error %d of another", other);
        }
        return;
    }
    P.fails[t] = 0; // unspecified now, success with this implementation
    if (w.nt > 1) {
        umf_result_t other = UMF_RESULT_SUCCESS;
        on_thread(!t, [&] { other = umfPoolGetLastAllocationError(P.h); });
        MC_CHECK(!P.fails[!t] || w.np > 1 || other == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, "sca:error-thread", "last error of a thread changed to %d by another thread", other);
        MC_CHECK(w.touched[!t] || other != UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, "sca:error-thread", "failure appeared in another thread");
    }
    size_t want = op == 1 ? al : n >= 16 ? 16 : 8;
    MC_CHECK(p % want == 0, "sca:align", "block of %zu bytes at %lx not aligned to %zu", n, p, want);
    Blk b{p, n, al, w.next++};
    for (auto &o : P.live)
        MC_CHECK(p + n <= o.p || o.p + o.n <= p, "sca:overlap", "new block overlaps a live one");
    MC_CHECK(P.x.holder(p, n), "sca:outside", "block %lx not inside memory of its provider", p);
    if (op == 2)
        for (size_t i = 0; i < n; i++)
            MC_CHECK(((char *)p)[i] == 0, "sca:zero", "byte %zu of %zu of a calloc block is not zero", i, n);
    paint(b);
    P.live.push_back(b);
}
static void do_realloc(World &w, Pool &P, int t, size_t i, size_t n) {
    Blk b = P.live[i];
    int f0 = mc_faults_used();
    uintptr_t p = 0;
    mc_ba_faults((int)mc_param("mflt", 0));
    on_thread(t, [&] { p = (uintptr_t)umfPoolRealloc(P.h, (void *)b.p, n); });
    mc_ba_faults(0);
    w.touched[t] |= mc_faults_used() > f0;
    mc_op("thread %ld realloc of %ld to %ld -> %lx", t, (long)b.n, (long)n, (long)(p ? p - P.x.lo() : 0));
    if (!p) {
        MC_CHECK(mc_faults_used() > f0, "sca:refused", "realloc to %zu refused although the provider has memory", n);
        umf_result_t e0 = UMF_RESULT_SUCCESS;
        on_thread(t, [&] { e0 = umfPoolGetLastAllocationError(P.h); });
        MC_CHECK(e0 == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, "sca:error", "last error after a refusal by the provider is %d", e0);
        P.fails[t]++;
        return; // the old block stays, checked by check_all
    }
    P.fails[t] = 0;
    P.live.erase(P.live.begin() + (long)i);
    Blk q{p, n, 0, b.tag};
    MC_CHECK(P.x.holder(p, n), "sca:outside", "block %lx not inside memory of its provider", p);
    check_bytes(q, std::min(n, b.n), b.tag, "sca:realloc");
    q.tag = w.next++;
    paint(q);
    P.live.push_back(q);
}
static void do_free(World &w, Pool &P, int t, size_t i) {
    Blk b = P.live[i];
    P.live.erase(P.live.begin() + (long)i);
    umf_result_t r = UMF_RESULT_ERROR_UNKNOWN;
    on_thread(t, [&] { r = (b.tag & 1) ? umfFree((void *)b.p) : umfPoolFree(P.h, (void *)b.p); });
    mc_op("thread %ld free of %ld = %ld", t, (long)b.n, r);
    MC_CHECK(r == UMF_RESULT_SUCCESS, "sca:free", "free failed with %d", r);
}
struct Req {
    int op; // 0 malloc 1 aligned 2 calloc 3 realloc
    size_t n, al;
};
static const Req A0[] = {{0, 1, 0}, {0, 64, 0}, {0, 1025, 0}, {0, 8129, 0}, {0, 70000, 0}, {0, 3 << 20, 0}, {1, 100, 64}, {1, 5000, 4096}, {1, 8, 1 << 20}, {1, 64, 8}, {2, 57, 3}, {2, 9000, 9}, {2, 300000, 1000}, {3, 16, 0}, {3, 3000, 0}, {3, 100000, 0}};
static const Req A1[] = {{0, 64, 0}, {0, 100000, 0}, {1, 3000, 16384}, {2, 64, 8}, {3, 9000, 0}};
static void body_hist() {
    XLib lib;
    TB = Tbb();
    TB.model = (int)mc_param("model", 0);
    World w;
    w.np = (int)mc_param("pools", 1), w.nt = (int)mc_param("threads", 1);
    int cfg = (int)mc_param("cfg", -1), depth = (int)mc_param("depth", 3), small = (int)mc_param("small", 0);
    if (cfg < 0)
        cfg = mc_choose((int)(sizeof CFG / sizeof *CFG));
    for (int k = 0; k < w.np; k++) {
        w.pool[k].c = CFG[(size_t)(cfg + k) % (sizeof CFG / sizeof *CFG)];
        w.pool[k].x.faults = (int)mc_param("flt", 0);
        mc_mutex_faults((int)mc_param("mflt", 0));
        w.pool[k].x.id = k;
        w.pool[k].prov = x_provider(&w.pool[k].x);
        mc_ba_faults((int)mc_param("mflt", 0));
        mk(w.pool[k], k, true);
        mc_ba_faults(0), mc_mutex_faults(0);
        if (!w.pool[k].h) {
            while (k >= 0)
                fini(w.pool[k--]);
            lib.done();
            return;
        }
    }
    for (int t = 0; t < w.nt; t++) // forget errors of earlier runs
        on_thread(t, [&] {
            int f = w.pool[0].x.faults;
            w.pool[0].x.faults = 0;
            void *p = umfPoolMalloc(w.pool[0].h, 1);
            umfPoolFree(w.pool[0].h, p);
            w.pool[0].x.faults = f;
        });
    const Req *A = small ? A1 : A0;
    int na = small ? 5 : 16;
    for (int i = 0; i < depth; i++) {
        Pool &P = w.pool[w.np > 1 ? mc_choose(w.np) : 0];
        int t = w.nt > 1 ? mc_choose(w.nt) : 0;
        int k = mc_choose(na + (int)P.live.size());
        if (k >= na)
            do_free(w, P, t, (size_t)(k - na));
        else if (A[k].op == 3) {
            if (P.live.empty())
                mc_prune();
            do_realloc(w, P, t, (size_t)mc_choose((int)P.live.size()), A[k].n);
        } else
            do_alloc(w, P, t, A[k].op, A[k].n, A[k].al);
        check_all(w);
        uint64_t h = 3;
        for (int j = 0; j < w.np; j++) {
            for (auto &b : w.pool[j].live)
                h = mc_mix(h, b.n * 4 + (uint64_t)j);
            h = mc_mix(h, w.pool[j].x.bytes());
        }
        mc_state(h);
    }
    for (int k = 0; k < w.np; k++) {
        Pool &P = w.pool[k];
        if (mc_param("drain", 1))
            while (!P.live.empty())
                do_free(w, P, 0, 0);
        fini(P);
    }
    lib.done();
    MC_CHECK(TB.pools == 0, "sca:leak", "pools of the allocator left");
}
// ---- unusual requests ---------------------------------------------------------------
static void body_odd() {
    XLib lib;
    TB = Tbb();
    TB.model = (int)mc_param("model", 0);
    Pool P;
    P.c = CFG[0];
    mk(P, 0);
    World w;
    const size_t M = (size_t)-1, H = (size_t)1 << 63;
    struct {
        int op;
        size_t a, b;
    } bad[] = {{0, M, 0}, {0, M - 4096, 0}, {0, H, 0}, {0, H - 1, 0}, {1, M, 64}, {1, M - 63, 64}, {1, 64, H}, {1, H, 4096}, {1, 64, 3}, {1, 64, 24}, {1, 1, 0},
               {2, M, 2}, {2, 2, M}, {2, H, 2}, {2, H + 1, 2}, {2, (size_t)1 << 32, (size_t)1 << 32}, {2, ((size_t)1 << 32) + 1, (size_t)1 << 32}, {2, M / 3 + 2, 3}, {2, M, M}, {2, H / 8 + 1, 16}, {2, 2, H}, {2, 2, H + 1}, {2, 16, H / 8 + 1}, {2, 3, M / 3 + 2}, {2, M, 1}, {3, M, 0}, {3, H, 0}, {3, M - 100, 1}};
    int k = mc_choose((int)(sizeof bad / sizeof *bad)), pre = mc_choose(3);
    uintptr_t keep = (uintptr_t)umfPoolMalloc(P.h, 100);
    MC_CHECK(keep, "sca:refused", "malloc refused");
    memset((void *)keep, 0x77, 100);
    if (pre == 1) {
        void *q = umfPoolMalloc(P.h, 5000);
        umfPoolFree(P.h, q);
    }
    size_t a = bad[k].a, b = bad[k].b;
    void *r = bad[k].op == 0 ? umfPoolMalloc(P.h, a) : bad[k].op == 1 ? umfPoolAlignedMalloc(P.h, a, b) : bad[k].op == 2 ? umfPoolCalloc(P.h, a, b) : umfPoolRealloc(P.h, b ? nullptr : (void *)keep, a);
    mc_op("impossible request %ld (%lx, %lx) -> %lx", bad[k].op, (long)a, (long)b, (long)r);
    MC_CHECK(!r, "sca:impossible", "impossible request %d (%zx, %zx) returned memory", bad[k].op, a, b);
    umf_result_t e = umfPoolGetLastAllocationError(P.h);
    MC_CHECK(e != UMF_RESULT_SUCCESS, "sca:impossible-error", "impossible request %d (%zx, %zx) left no error", bad[k].op, a, b);
    for (int i = 0; i < 100; i++)
        MC_CHECK(((char *)keep)[i] == 0x77, "sca:contents", "live block changed");
    MC_CHECK(umfPoolMallocUsableSize(P.h, (void *)keep) >= 100, "sca:usable", "block lost");
    MC_CHECK(umfPoolFree(P.h, nullptr) == UMF_RESULT_SUCCESS && umfFree(nullptr) == UMF_RESULT_SUCCESS, "sca:free", "free of NULL failed");
    MC_CHECK(umfPoolMallocUsableSize(P.h, nullptr) == 0, "sca:usable", "usable size of NULL");
    void *q = umfPoolRealloc(P.h, nullptr, 5000); // as malloc
    MC_CHECK(q && P.x.holder((uintptr_t)q, 5000), "sca:realloc", "realloc of NULL");
    memset(q, 1, 5000);
    if (pre == 2)
        MC_CHECK(umfPoolFree(P.h, q) == UMF_RESULT_SUCCESS, "sca:free", "free failed");
    void *z = umfPoolMalloc(P.h, 0);
    if (z)
        MC_CHECK(P.x.holder((uintptr_t)z, 1) && umfPoolFree(P.h, z) == UMF_RESULT_SUCCESS, "sca:zero", "empty block");
    umf_scalable_pool_params_handle_t pr = nullptr;
    MC_CHECK(umfScalablePoolParamsCreate(nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfScalablePoolParamsDestroy(nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfScalablePoolParamsSetGranularity(nullptr, 1) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfScalablePoolParamsSetKeepAllMemory(nullptr, 1) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "sca:params", "null handle accepted");
    MC_CHECK(umfScalablePoolParamsCreate(&pr) == UMF_RESULT_SUCCESS && umfScalablePoolParamsSetGranularity(pr, 0) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "sca:params", "granularity 0 accepted");
    umfScalablePoolParamsDestroy(pr);
    mc_state((uint64_t)k);
    fini(P); // live blocks go with the pool
    lib.done();
}
// ---- loading --------------------------------------------------------------------------
static void body_load() {
    XLib *lib = new XLib;
    TB = Tbb();
    TB.model = 1;
    int rounds = 2 + mc_choose(2);
    for (int i = 0; i < rounds; i++) {
        int what = mc_choose(10);
        TB.no_lib = what == 0;
        TB.no_sym = what >= 1 && what <= 8 ? what - 1 : -1;
        TB.asked = 0;
        bool fails = what < 9;
        int o0 = TB.opened;
        Pool P;
        P.c = CFG[i % 2];
        P.prov = x_provider(&P.x);
        umf_result_t r = umfPoolCreate(umfScalablePoolOps(), P.prov, nullptr, 0, &P.h);
        mc_op("library answer %ld: create = %ld", what, r);
        bool loaded_now = TB.asked > 0 || TB.no_lib;
        if (r == UMF_RESULT_SUCCESS) {
            MC_CHECK(!fails || !loaded_now, "sca:load", "pool created without the allocator");
            void *p = umfPoolMalloc(P.h, 100);
            MC_CHECK(p && umfPoolMallocUsableSize(P.h, p) >= 100 && P.x.holder((uintptr_t)p, 100), "sca:load", "pool unusable");
            MC_CHECK(umfPoolFree(P.h, p) == UMF_RESULT_SUCCESS, "sca:load", "pool unusable");
        } else {
            MC_CHECK(fails, "sca:load", "creation failed with %d although the allocator is there", r);
            MC_CHECK(r == UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE, "sca:load", "creation without the allocator failed with %d", r);
            P.h = nullptr;
            MC_CHECK(TB.opened <= o0, "sca:load-leak", "library left open after a failed load");
        }
        fini(P);
        lib->done();
        MC_CHECK(TB.opened == 0, "sca:load-leak", "library open after the last teardown");
        delete lib;
        lib = new XLib;
    }
    lib->done();
    delete lib;
}
// ---- threads ----------------------------------------------------------------------------
static void body_mt() {
    XLib lib;
    TB = Tbb();
    TB.model = 1;
    int nt = (int)mc_param("threads", 2);
    std::vector<Pool> P((size_t)nt);
    std::vector<std::function<void()>> th;
    for (int i = 0; i < nt; i++) {
        P[(size_t)i].c = CFG[1];
        P[(size_t)i].x.faults = i == 0 ? FA_ALLOC : 0;
    }
    for (int i = 0; i < nt; i++)
        th.push_back([&, i] {
            Pool &p = P[(size_t)i];
            mk(p, i);
            void *b = umfPoolMalloc(p.h, 64);
            mt_mark();
            umf_result_t e = umfPoolGetLastAllocationError(p.h);
            if (i)
                MC_CHECK(b && e == UMF_RESULT_SUCCESS, "sca:error-thread", "thread %d: block %p, last error %d", i, b, e);
            else
                MC_CHECK(b ? e == UMF_RESULT_SUCCESS : e == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, "sca:error", "last error %d", e);
            if (b)
                MC_CHECK(umfPoolFree(p.h, b) == UMF_RESULT_SUCCESS, "sca:free", "free failed");
            umfPoolDestroy(p.h);
            p.h = nullptr;
        });
    mt_run(th, (int)mc_param("pb", 2));
    mc_outcome((uint64_t)mc_faults_used() + 1);
    for (auto &p : P)
        fini(p);
    MC_CHECK(TB.opened == 1, "sca:once", "library opened %d times", TB.opened);
    lib.done();
}
static void setup() {
    x_down();
    x_arena();
}
int main(int argc, char **argv) {
    return mc_main(argc, argv, {{"hist", body_hist, false, setup}, {"odd", body_odd, false, setup}, {"load", body_load, false, setup}, {"mt", body_mt, false, setup}});
}
