// C20: proxy library.
#include "tbbmodel.hpp"
#include "osmodel.hpp"
#include <cstdlib>
#include <dlfcn.h>
#include <malloc.h>
#include <set>
#include <string>
extern "C" {
void *px_malloc(size_t);
void *px_calloc(size_t, size_t);
void *px_realloc(void *, size_t);
void px_free(void *);
void *px_aligned_alloc(size_t, size_t);
size_t px_usable(void *);
void proxy_lib_create_common(void);
void proxy_lib_destroy_common(void);
}
// ---- the system allocator ---------------------------------------------------------
static std::map<void *, size_t> SYS; // live blocks
static void *sys_note(void *p, size_t n) {
    if (p)
        SYS[p] = n;
    return p;
}
static void *sys_malloc(size_t n) { return sys_note(malloc(n), n); }
static void *sys_calloc(size_t a, size_t b) { return sys_note(calloc(a, b), a * b); }
static void *sys_aligned(size_t a, size_t n) { // as glibc: any size
    void *p = nullptr;
    return a > (size_t)1 << 40 || posix_memalign(&p, std::max(a, sizeof p), n) ? nullptr : sys_note(p, n);
}
static void sys_known(void *p) { MC_CHECK(!p || SYS.count(p), "proxy:system", "the system allocator gets a block it did not hand out"); }
static void sys_free(void *p) {
    sys_known(p);
    SYS.erase(p);
    free(p);
}
static void *sys_realloc(void *p, size_t n) {
    sys_known(p);
    size_t o = p ? SYS[p] : 0;
    SYS.erase(p);
    void *q = realloc(p, n);
    if (!q && n && p)
        SYS[p] = o;
    return sys_note(q, n);
}
static size_t sys_usable(void *p) {
    sys_known(p);
    return malloc_usable_size(p);
}
static void *sys_symbol(const char *s) {
    if (!strcmp(s, "malloc"))
        return (void *)sys_malloc;
    if (!strcmp(s, "calloc"))
        return (void *)sys_calloc;
    if (!strcmp(s, "realloc"))
        return (void *)sys_realloc;
    if (!strcmp(s, "free"))
        return (void *)sys_free;
    if (!strcmp(s, "aligned_alloc"))
        return (void *)sys_aligned;
    if (!strcmp(s, "malloc_usable_size"))
        return (void *)sys_usable;
    return dlsym(RTLD_NEXT, s);
}
// ---- model --------------------------------------------------------------------------
struct Blk {
    unsigned char *p;
    size_t n, al;
    unsigned char tag;
    int born; // stage
};
struct World {
    std::vector<Blk> live;
    int stage = 0; // 0 before, 1 during, 2 after start, 3 after stop
    size_t thr = 0;
    unsigned char next = 1;
    int mt = 0;
};
static World *W;
static const size_t EDGE = 8192, WHOLE = 131072; // larger blocks are written at both ends only
static void paint(const Blk &b) {
    if (b.n <= WHOLE) {
        memset(b.p, b.tag, b.n);
        return;
    }
    memset(b.p, b.tag, EDGE);
    memset(b.p + b.n - EDGE, b.tag, EDGE);
}
// the first upto bytes of what was painted as a block of n
static void check_bytes(const unsigned char *p, size_t n, unsigned char v, size_t upto, const char *sig) {
    auto one = [&](size_t i) { MC_CHECK(p[i] == v, sig, "byte %zu of a block of %zu is %02x instead of %02x", i, n, p[i], v); };
    upto = std::min(upto, n);
    size_t k = n <= WHOLE ? upto : std::min(upto, EDGE);
    if (k && (p[0] != v || memcmp(p, p + 1, k - 1)))
        for (size_t i = 0; i < k; i++)
            one(i);
    if (n > WHOLE && upto == n)
        for (size_t i = n - EDGE; i < n; i++)
            one(i);
}
enum { SRC_SYS, SRC_POOL, SRC_LEAK };
static int DEPTH = 0, NEST = 0; // calls made from inside UMF
static int source(const void *p) {
    if (SYS.count((void *)p))
        return SRC_SYS;
    return umfPoolByPtr(p) ? SRC_POOL : SRC_LEAK;
}
static void check_all(World &w) {
    std::vector<std::pair<uintptr_t, size_t>> v;
    long pool = 0, sys = 0;
    for (auto &b : w.live) {
        check_bytes(b.p, b.n, b.tag, b.n, "proxy:contents");
        v.push_back({(uintptr_t)b.p, b.n ? b.n : 1});
        int s = source(b.p);
        pool += s == SRC_POOL;
        sys += s == SRC_SYS;
    }
    std::sort(v.begin(), v.end());
    for (size_t i = 1; i < v.size(); i++)
        MC_CHECK(v[i - 1].first + v[i - 1].second <= v[i].first, "proxy:overlap", "live blocks overlap");
    MC_CHECK((long)SYS.size() == sys, "proxy:lost", "%zu blocks of the system allocator in use for %ld live ones", SYS.size(), sys);
    if (TB.model && !mc_faults_used())
        MC_CHECK(TB.blocks == pool, "proxy:lost", "%ld blocks of the pool in use for %ld live ones", TB.blocks, pool);
}
// a new block of the caller
static void born(World &w, void *p, size_t n, size_t al, bool zero, const char *what) {
    size_t natural = n >= 16 ? 16 : n >= 8 ? 8 : n >= 4 ? 4 : n >= 2 ? 2 : 1;
    al = std::max(al, natural);
    MC_CHECK((uintptr_t)p % al == 0, "proxy:align", "%s of %zu returned %p, not a multiple of %zu", what, n, p, al);
    if (zero)
        check_bytes((unsigned char *)p, n, 0, n, "proxy:zero");
    for (auto &b : w.live) {
        uintptr_t x = (uintptr_t)b.p, y = (uintptr_t)p;
        MC_CHECK(!(x < y + std::max<size_t>(n, 1) && y < x + std::max<size_t>(b.n, 1)), "proxy:overlap", "%s of %zu overlaps a live block of %zu", what, n, b.n);
    }
    int s = source(p);
    bool wants_sys = w.stage >= 2 && n < w.thr;
    if (!w.mt && w.stage != 1) {
        MC_CHECK((s == SRC_SYS) == wants_sys, "proxy:threshold", "%s of %zu with threshold %zu comes from source %d", what, n, w.thr, s);
    }
    // what the early allocator serves is never reused and has no known size: not after the start
    MC_CHECK(w.mt || w.stage != 2 || DEPTH || s != SRC_LEAK, "proxy:early", "%s of %zu comes from the early allocator although the library has started", what, n);
    size_t u = px_usable(p);
    MC_CHECK(u >= n || (s == SRC_LEAK && u == 0), "proxy:usable", "usable size %zu of a block of %zu", u, n);
    w.live.push_back({(unsigned char *)p, n, al, w.next++, w.stage});
    paint(w.live.back());
}
static bool may_fail(World &, size_t n) { return mc_faults_used() > 0 || n == 0 || n > ((size_t)1 << 30); }
static void do_alloc(World &w, int kind, size_t n, size_t al) {
    void *p = nullptr;
    const char *what = "malloc";
    if (kind == 0)
        p = px_malloc(n);
    else if (kind == 1)
        p = px_calloc(n % 3 == 0 && n ? 3 : 1, n % 3 == 0 && n ? n / 3 : n), what = "calloc";
    else if (kind == 2)
        p = px_aligned_alloc(al, n), what = "aligned_alloc";
    else
        p = px_realloc(nullptr, n), what = "realloc";
    mc_op("  %ld bytes, kind %ld, alignment %ld -> %ld", (long)n, kind, (long)al, p != nullptr);
    if (!p) {
        MC_CHECK(may_fail(w, n), "proxy:refused", "%s(%zu) failed", what, n);
        return;
    }
    born(w, p, n, kind == 2 ? al : 1, kind == 1, what);
}
static void do_free(World &w, size_t i) {
    Blk b = w.live[i];
    w.live.erase(w.live.begin() + (long)i);
    check_bytes(b.p, b.n, b.tag, b.n, "proxy:contents");
    mc_op("  free block %ld of %ld", (long)i, (long)b.n);
    px_free(b.p);
}
static void do_realloc(World &w, size_t i, size_t n) {
    Blk b = w.live[i];
    if (n == 0) {
        w.live.erase(w.live.begin() + (long)i);
        void *p = px_realloc(b.p, 0);
        mc_op("  realloc block %ld to 0 -> %ld", (long)i, p != nullptr);
        MC_CHECK(!p, "proxy:realloc0", "realloc to 0 returned a block");
        return;
    }
    w.live.erase(w.live.begin() + (long)i);
    void *p = px_realloc(b.p, n);
    mc_op("  realloc block %ld from %ld to %ld -> %ld", (long)i, (long)b.n, (long)n, p != nullptr);
    if (!p) {
        MC_CHECK(may_fail(w, n), "proxy:refused", "realloc(%zu) failed", n);
        w.live.push_back(b);
        return;
    }
    check_bytes((unsigned char *)p, b.n, b.tag, std::min(b.n, n), "proxy:realloc");
    unsigned char *q = (unsigned char *)p;
    // the block keeps what it was born as, unless it is new to the pool
    size_t natural = n >= 16 ? 16 : n >= 8 ? 8 : n >= 4 ? 4 : n >= 2 ? 2 : 1;
    MC_CHECK((uintptr_t)q % natural == 0, "proxy:align", "realloc to %zu returned %p", n, p);
    for (auto &o : w.live)
        MC_CHECK(!(o.p < q + n && q < o.p + std::max<size_t>(o.n, 1)), "proxy:overlap", "realloc to %zu overlaps a live block of %zu", n, o.n);
    size_t u = px_usable(p);
    MC_CHECK(u >= n || (source(p) == SRC_LEAK && u == 0), "proxy:usable", "usable size %zu of a block of %zu", u, n);
    w.live.push_back({q, n, natural, w.next++, w.stage});
    paint(w.live.back());
}
// ---- calls made from inside UMF -------------------------------------------------------
static void nested(const char *) {
    if (!W || !NEST || DEPTH)
        return;
    World &w = *W;
    DEPTH++;
    int nl = (int)std::min<size_t>(w.live.size(), 2);
    int c = mc_choose(5 + nl * 2);
    NEST -= c != 0;
    if (c)
        mc_op(" from inside UMF:");
    if (c == 1)
        do_alloc(w, 0, 100, 1);
    else if (c == 2)
        do_alloc(w, 1, 48, 1);
    else if (c == 3)
        do_alloc(w, 2, 100, 64);
    else if (c == 4) { // a block of its own, used and released
        do_alloc(w, 0, 5000, 1);
        if (!w.live.empty() && w.live.back().n == 5000)
            do_realloc(w, w.live.size() - 1, 9000);
        if (!w.live.empty() && w.live.back().n == 9000)
            do_free(w, w.live.size() - 1);
    } else if (c >= 5) {
        size_t i = w.live.size() - 1 - (size_t)(c - 5) / 2;
        // UMF only touches blocks it asked for itself: those of the early allocator
        if (source(w.live[i].p) != SRC_LEAK)
            mc_prune();
        if ((c - 5) % 2)
            do_realloc(w, i, 300);
        else
            do_free(w, i);
    }
    DEPTH--;
}
extern "C" {
#define NESTED(ret, name, decl, args)     \
    ret __real_##name decl;               \
    ret __wrap_##name decl {              \
        nested(#name);                    \
        ret r = __real_##name args;       \
        nested(#name);                    \
        return r;                         \
    }
NESTED(umf_result_t, umfMemoryProviderCreate, (const umf_memory_provider_ops_t *o, void *p, umf_memory_provider_handle_t *h), (o, p, h))
NESTED(umf_result_t, umfPoolCreate, (const umf_memory_pool_ops_t *o, umf_memory_provider_handle_t v, void *p, umf_pool_create_flags_t f, umf_memory_pool_handle_t *h), (o, v, p, f, h))
NESTED(void *, umfPoolMalloc, (umf_memory_pool_handle_t h, size_t n), (h, n))
NESTED(void *, umfPoolCalloc, (umf_memory_pool_handle_t h, size_t a, size_t n), (h, a, n))
NESTED(void *, umfPoolRealloc, (umf_memory_pool_handle_t h, void *p, size_t n), (h, p, n))
NESTED(void *, umfPoolAlignedMalloc, (umf_memory_pool_handle_t h, size_t n, size_t a), (h, n, a))
NESTED(size_t, umfPoolMallocUsableSize, (umf_memory_pool_handle_t h, void *p), (h, p))
NESTED(umf_result_t, umfPoolFree, (umf_memory_pool_handle_t h, void *p), (h, p))
}
// ---- set up ---------------------------------------------------------------------------
static void setup() {
    setenv("LD_PRELOAD", "libumf_proxy.so", 1);
    static const char *env[] = {"", "size.threshold=64", "page.disposition=shared-fd", "page.disposition=shared-shm", "page.disposition=shared-shm;size.threshold=1000"};
    setenv("UMF_PROXY", env[mc_param("cfg", 0)], 1);
    hw_setup("numa:1 pu:1");
    os_setup();
    dlopen("libtbbmalloc.so.2", RTLD_NOW);
    TB.next = sys_symbol;
    TB.model = (int)mc_param("model", 0);
    umfInit();
}
static void begin(World &w) {
    W = &w;
    os_begin(), hw_begin();
    w.thr = 0;
    OS.faults = (int)mc_param("oflt", 0);
    NEST = 0;
}
static const size_t THR[] = {0, 64, 0, 0, 1000};
static void start(World &w, int nest) {
    int oflt = OS.faults;
    OS.faults = 0; // a failed start ends the program by design
    w.stage = 1;
    NEST = nest;
    mc_op("start");
    proxy_lib_create_common();
    NEST = 0;
    w.thr = THR[mc_param("cfg", 0)];
    w.stage = 2;
    OS.faults = oflt;
}
static void finish(World &w, bool prove) {
    NEST = 0;
    if (prove) { // whatever happened, allocation goes on
        OS.faults = 0;
        if (w.live.size() < 30)
            do_alloc(w, 0, 200, 1);
    }
    check_all(w);
    while (!w.live.empty())
        do_free(w, 0);
    check_all(w);
    OS.on = false; // the early allocator keeps its memory on purpose
    W = nullptr;
}
// ---- scenario: histories ----------------------------------------------------------------
struct Req {
    int kind;
    size_t n, al;
};
static const Req FULL[] = {{0, 0, 0}, {0, 1, 0}, {0, 15, 0}, {0, 16, 0}, {0, 63, 0}, {0, 64, 0}, {0, 100, 0}, {0, 999, 0}, {0, 1000, 0}, {0, 4096, 0}, {0, 100000, 0}, {0, 5000000, 0},
                           {1, 0, 0}, {1, 24, 0}, {1, 63, 0}, {1, 3000, 0}, {1, 60000, 0}, {3, 40, 0}, {3, 4000, 0},
                           {2, 1, 1}, {2, 8, 8}, {2, 63, 16}, {2, 64, 64}, {2, 100, 64}, {2, 5, 4096}, {2, 4096, 4096}, {2, 70000, 65536}, {2, 1, 65536}};
static const Req SOME[] = {{0, 20, 0}, {0, 100, 0}, {1, 60000, 0}, {2, 100, 4096}, {0, 3000000, 0}};
static const size_t RE[] = {0, 1, 63, 64, 200, 5000, 120000};
static const size_t RES[] = {24, 200, 120000};
static void body_hist() {
    World w;
    begin(w);
    int depth = (int)mc_param("depth", 3), full = (int)mc_param("full", 0), inner = (int)mc_param("inner", 0);
    int na = full ? (int)(sizeof FULL / sizeof *FULL) : (int)(sizeof SOME / sizeof *SOME);
    int nr = full ? (int)(sizeof RE / sizeof *RE) : (int)(sizeof RES / sizeof *RES);
    uint64_t h = 7;
    // histories that differ only in doing nothing at the end are one
    for (int d = 0; d < depth; d++) {
        int nl = (int)w.live.size();
        int stages = w.stage == 0 ? 1 : w.stage == 2 ? 1 : 0;
        int c = mc_choose(stages + na + nl * (1 + nr));
        NEST = inner;
        if (c < stages) {
            if (w.stage == 0)
                start(w, (int)mc_param("nest", 1));
            else {
                mc_op("stop");
                proxy_lib_destroy_common();
                w.stage = 3;
            }
        } else if ((c -= stages) < na) {
            const Req &r = full ? FULL[c] : SOME[c];
            mc_op("request");
            do_alloc(w, r.kind, r.n, r.al);
        } else {
            c -= na;
            size_t i = (size_t)(c / (1 + nr));
            int k = c % (1 + nr);
            if (k == 0)
                do_free(w, i);
            else
                do_realloc(w, i, full ? RE[k - 1] : RES[k - 1]);
        }
        NEST = 0;
        check_all(w);
        h = mc_mix(h, (uint64_t)w.stage * 64 + w.live.size());
        for (auto &b : w.live)
            h = mc_mix(h, b.n * 4 + (uint64_t)source(b.p));
        mc_state(h);
    }
    mc_outcome(h);
    finish(w, true);
}
// ---- scenario: impossible requests ------------------------------------------------------
static void body_odd() {
    World w;
    begin(w);
    int stage = mc_choose(3);
    size_t big = (size_t)-1;
    do_alloc(w, 0, 100, 0); // early block
    if (stage >= 1)
        start(w, 0);
    if (stage == 2) {
        proxy_lib_destroy_common();
        w.stage = 3;
    }
    do_alloc(w, 0, 2000, 0);
    do_alloc(w, 0, 40, 0);
    int c = mc_choose(25);
    void *p = nullptr;
    mc_op("stage %ld, impossible request %ld", stage, c);
    switch (c) {
    case 0: p = px_malloc(big); break;
    case 1: p = px_malloc(big - 7); break;
    case 2: p = px_malloc(big - 4095); break;
    case 3: p = px_malloc(big / 2 + 1); break;
    case 4: p = px_calloc(big, 2); break;
    case 5: p = px_calloc(2, big / 2 + 1); break;
    case 6: p = px_calloc((size_t)1 << 32, (size_t)1 << 32); break;
    case 7: p = px_calloc(((size_t)1 << 32) + 1, (size_t)1 << 32); break;
    case 8: p = px_calloc(big / 16 + 2, 16); break;
    case 9: p = px_calloc(16, big / 16 + 9); break;
    case 10: p = px_aligned_alloc(64, big - 10); break;
    case 11: p = px_aligned_alloc(64, big - 63); break;
    case 12: p = px_aligned_alloc((size_t)1 << 63, 100); break;
    case 13: p = px_aligned_alloc((size_t)1 << 63, ((size_t)1 << 63) + 1); break;
    case 14: p = px_aligned_alloc(4096, big - 4095); break;
    case 15: p = px_aligned_alloc((size_t)1 << 62, big); break;
    case 16: p = px_realloc(w.live[0].p, big); break;
    case 17: p = px_realloc(w.live[1].p, big - 10); break;
    case 18: p = px_realloc(w.live[2].p, big / 2 + 1); break;
    case 19: p = px_realloc(w.live[1].p, big); break;
    case 20: p = px_realloc(nullptr, big); break;
    case 21: p = px_calloc(big, big); break;
    case 22: px_free(nullptr); break;
    case 23: px_usable(nullptr); break;
    case 24: p = px_aligned_alloc(65536, big - 65535 - 100); break;
    }
    mc_op("  -> %lx", (long)p);
    MC_CHECK(!p, "proxy:impossible", "impossible request %d returned a block", c);
    check_all(w);
    // requests with an alignment that is no power of two: a refusal or a block as good as another
    static const size_t BAD[] = {0, 3, 24, 48, 100, 4097};
    int k = mc_choose(7);
    if (k) {
        size_t n = mc_choose(2) ? 3000 : 40;
        p = px_aligned_alloc(BAD[k - 1], n);
        mc_op("aligned_alloc(%ld, %ld) -> %ld", (long)BAD[k - 1], (long)n, p != nullptr);
        if (p)
            born(w, p, n, 1, false, "aligned_alloc");
        check_all(w);
    }
    mc_outcome((uint64_t)(c * 3 + stage) + 1);
    mc_state((uint64_t)(c * 3 + stage) * 7 + (uint64_t)k + 1);
    finish(w, true);
}
// ---- scenario: several threads -------------------------------------------------------------
static void body_mt() {
    World w;
    begin(w);
    w.mt = 1;
    int nt = (int)mc_param("threads", 2), stage = (int)mc_param("stage", 0);
    if (stage == 0)
        ;
    else { // blocks from before
        do_alloc(w, 0, 100, 0);
        start(w, 0);
        do_alloc(w, 0, 100, 0);
        do_alloc(w, 0, 20, 0);
    }
    std::vector<int> kind;
    for (int i = 0; i < nt; i++)
        kind.push_back(mc_choose(stage ? 6 : 5));
    for (int i = 1; i < nt; i++)
        if (kind[(size_t)i] < kind[(size_t)i - 1])
            mc_prune();
    for (int i = 1; i < nt; i++)
        if ((kind[(size_t)i] == 4 && kind[(size_t)i - 1] == 4) || (kind[(size_t)i] == 5 && kind[(size_t)i - 1] == 5))
            mc_prune(); // start once; a block is released once
    std::vector<std::vector<std::pair<unsigned char *, size_t>>> own((size_t)nt);
    std::vector<Blk> given = w.live;
    std::vector<std::function<void()>> th;
    for (int i = 0; i < nt; i++)
        th.push_back([&, i] {
            auto &o = own[(size_t)i];
            auto get = [&](void *p, size_t n, bool zero) {
                mc_op("thread %ld: %ld bytes -> %lx", i, (long)n, (long)p);
                MC_CHECK(p || mc_faults_used(), "proxy:refused", "thread %d: %zu bytes refused", i, n);
                if (!p)
                    return;
                MC_CHECK((uintptr_t)p % 16 == 0, "proxy:align", "thread %d: block of %zu at %p", i, n, p);
                if (zero)
                    check_bytes((unsigned char *)p, n, 0, n, "proxy:zero");
                memset(p, 0x10 + i, n);
                o.push_back({(unsigned char *)p, n});
            };
            auto verify = [&] {
                for (auto &b : o)
                    check_bytes(b.first, b.second, (unsigned char)(0x10 + i), b.second, "proxy:contents");
            };
            switch (kind[(size_t)i]) {
            case 0:
                get(px_malloc(100), 100, false);
                get(px_calloc(2, 5000), 10000, true);
                break;
            case 1:
                get(px_malloc(200), 200, false);
                if (!o.empty()) {
                    void *q = px_realloc(o[0].first, 6000);
                    mc_op("thread %ld: realloc -> %lx", i, (long)q);
                    if (q) {
                        check_bytes((unsigned char *)q, 6000, (unsigned char)(0x10 + i), 200, "proxy:realloc");
                        o.clear();
                        get(q, 6000, false);
                    }
                }
                break;
            case 2:
                get(px_aligned_alloc(4096, 4096), 4096, false);
                get(px_malloc(3000), 3000, false);
                verify();
                if (!o.empty())
                    px_free(o[0].first), o.erase(o.begin());
                break;
            case 3:
                get(px_malloc(4000), 4000, false);
                get(px_malloc(4000), 4000, false);
                verify();
                while (!o.empty())
                    px_free(o[0].first), o.erase(o.begin());
                get(px_malloc(64), 64, false);
                break;
            case 4:
                if (!stage) {
                    NEST = 0;
                    proxy_lib_create_common();
                    mc_op("thread %ld: started", i);
                    get(px_malloc(100), 100, false);
                } else { // the last block of thread 0's view is read and resized by this thread
                    for (size_t k = 1; k < given.size(); k++)
                        MC_CHECK(px_usable(given[k].p) >= given[k].n, "proxy:usable", "usable size too small");
                    get(px_malloc(100), 100, false);
                }
                break;
            case 5:
                for (auto &b : given)
                    px_free(b.p);
                mc_op("thread %ld: freed all earlier blocks", i);
                get(px_malloc(100), 100, false);
                break;
            }
            verify();
        });
    bool freed = false, used = false;
    for (int k : kind) {
        freed |= k == 5;
        used |= k == 4 && stage;
    }
    if (freed && used)
        mc_prune();
    if (!stage)
        for (int k : kind)
            if (k == 4)
                w.stage = 1;
    mt_run(th, (int)mc_param("pb", 2));
    if (w.stage == 1) {
        w.stage = 2;
        w.thr = THR[mc_param("cfg", 0)];
    }
    if (freed)
        w.live.clear();
    for (int i = 0; i < nt; i++)
        for (auto &b : own[(size_t)i])
            w.live.push_back({b.first, b.second, 1, (unsigned char)(0x10 + i), 0});
    w.next = 0x80;
    check_all(w);
    uint64_t h = 3;
    for (int k : kind)
        h = h * 8 + (uint64_t)k;
    mc_outcome(mc_mix(h, w.live.size()));
    mc_state(h);
    finish(w, true);
}
int main(int c, char **v) {
    return mc_main(c, v, {{"hist", body_hist, true, setup}, {"odd", body_odd, true, setup}, {"mt", body_mt, true, setup}});
}
