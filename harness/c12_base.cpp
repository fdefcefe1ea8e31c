// C12: the metadata allocators (size classes, fixed-size pool, linear pool),
// run on recorded and refusable operating-system mappings.
#include "mc.hpp"
#include "sched.hpp"
#include <cstring>
#include <map>
#include <sys/mman.h>
#include <vector>
extern "C" {
#include "base_alloc.h"
#include "base_alloc_global.h"
#include "base_alloc_linear.h"
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
}
static const size_t PG = 4096;
struct Blk {
    size_t size, usable, align;
    int owner;
    unsigned char pat;
};
static std::map<uintptr_t, size_t> g_maps; // recorded mappings (disjoint)
static std::map<uintptr_t, Blk> g_blk;     // blocks held by the program
static bool g_rec, g_partial;
static long g_nmap, g_nunmap;
static size_t mapped() {
    size_t s = 0;
    for (auto &m : g_maps)
        s += m.second;
    return s;
}
static bool held(uintptr_t p, size_t n) {
    auto it = g_maps.upper_bound(p);
    if (it == g_maps.begin())
        return false;
    --it;
    return p >= it->first && n <= it->second && p - it->first <= it->second - n;
}
extern "C" void *__wrap_mmap(void *a, size_t n, int prot, int fl, int fd, off_t off) {
    if (!g_rec)
        return __real_mmap(a, n, prot, fl, fd, off);
    g_nmap++;
    if (mc_fault()) {
        mc_op("  mapping of %ld bytes refused", (long)n);
        return MAP_FAILED;
    }
    void *p = __real_mmap(a, n, prot, fl | MAP_NORESERVE, fd, off);
    if (p != MAP_FAILED) {
        g_maps[(uintptr_t)p] = (n + PG - 1) / PG * PG;
        mc_op("  mapped %ld bytes", (long)n);
    }
    return p;
}
extern "C" int __wrap_munmap(void *p, size_t n) {
    if (!g_rec)
        return __real_munmap(p, n);
    g_nunmap++;
    uintptr_t a = (uintptr_t)p;
    n = (n + PG - 1) / PG * PG;
    MC_CHECK(a % PG == 0 && n && held(a, n), "ba:unmap", "unmapping %p size %zu, which is not memory the allocator holds", p, n);
    auto it = --g_maps.upper_bound(a);
    MC_CHECK(g_partial || (it->first == a && it->second == n), "ba:unmap", "unmapping %p size %zu, mapped was %lx size %zu", p, n, it->first, it->second);
    auto b = g_blk.lower_bound(a);
    MC_CHECK(b == g_blk.end() || b->first >= a + n, "ba:unmap-live", "unmapping %p size %zu with live block %lx inside", p, n, b->first);
    uintptr_t s = it->first;
    size_t len = it->second;
    g_maps.erase(it);
    if (a > s)
        g_maps[s] = a - s;
    if (a + n < s + len)
        g_maps[a + n] = s + len - a - n;
    mc_op("  unmapped %ld bytes", (long)n);
    return __real_munmap(p, n);
}
static bool g_mutex_faults;
extern "C" int mc_fault_mutex_init() { return g_rec && g_mutex_faults && mc_fault(); }

static void fill(uintptr_t p, const Blk &b) {
    size_t n = b.usable;
    if (n <= 8192)
        memset((void *)p, b.pat, n);
    else {
        memset((void *)p, b.pat, 64);
        memset((void *)(p + n - 64), b.pat, 64);
    }
}
static void verify(uintptr_t p, const Blk &b) {
    size_t n = b.usable;
    auto all = [&](uintptr_t q, size_t k) {
        for (size_t i = 0; i < k; i++)
            MC_CHECK(((unsigned char *)q)[i] == b.pat, "ba:contents", "contents of live block %lx (size %zu) changed at +%zu", p, b.size, (size_t)(q + i - p));
    };
    if (n <= 8192)
        all(p, n);
    else
        all(p, 64), all(p + n - 64, 64);
}
static void verify_all() {
    for (auto &b : g_blk)
        verify(b.first, b.second);
}
static unsigned char g_pat;
static void got(void *v, size_t size, size_t align, size_t usable, int owner = 0) {
    uintptr_t p = (uintptr_t)v;
    if (align < 8)
        align = 8;
    MC_CHECK(p % align == 0, "ba:align", "block %lx of %zu bytes is not aligned to %zu", p, size, align);
    MC_CHECK(usable >= size, "ba:usable", "usable size %zu of a block of %zu bytes", usable, size);
    MC_CHECK(held(p, usable), "ba:outside", "block %lx usable %zu is not inside mapped memory", p, usable);
    auto it = g_blk.upper_bound(p + usable - 1);
    if (it != g_blk.begin()) {
        --it;
        MC_CHECK(it->first + it->second.usable <= p, "ba:overlap", "block %lx size %zu overlaps live block %lx size %zu", p, usable, it->first, it->second.usable);
    }
    Blk b{size, usable, align, owner, ++g_pat};
    g_blk[p] = b;
    fill(p, b);
}
static void start() {
    g_blk.clear();
    for (auto &m : g_maps) // left by an abandoned execution
        __real_munmap((void *)m.first, m.second);
    g_maps.clear();
    g_pat = 0;
    g_nmap = g_nunmap = 0;
    g_partial = false;
    g_mutex_faults = false;
    g_rec = true;
}
static void finish(const char *what) {
    MC_CHECK(g_maps.empty(), "ba:leak", "%zu bytes in %zu mappings remain after %s", mapped(), g_maps.size(), what);
    g_rec = false;
}
static uint64_t shape(uint64_t h) {
    for (auto &m : g_maps)
        h = mc_mix(h, m.second);
    for (auto &b : g_blk) {
        auto it = --g_maps.upper_bound(b.first);
        h = mc_mix(h, (b.first - it->first) * 64 + b.second.size);
    }
    return h;
}
// ---- size-class allocator ---------------------------------------------------
struct Req {
    size_t size, align;
    bool impossible;
};
static const Req REQS[] = {
    {1, 8, false},       {8, 8, false},         {9, 8, false},         {24, 8, false},        {25, 8, false},     {120, 8, false},
    {121, 8, false},     {248, 8, false},       {249, 8, false},       {PG - 8, 8, false},    {PG - 7, 8, false}, {8, 16, false},
    {9, 16, false},      {40, 64, false},       {120, 128, false},     {121, 128, false},     {8, PG, false},     {PG, PG, false},
    {16, 1, false},      {100, 4 * PG, false},  {0, 8, true},          {SIZE_MAX, 8, true},   {SIZE_MAX - 7, 8, true},
    {SIZE_MAX - 8, 8, true}, {SIZE_MAX - 71, 64, true}, {SIZE_MAX - 72, 64, true}, {SIZE_MAX - 4 * PG, 8, true},
    {(size_t)1 << 32, 8, true}, {((size_t)1 << 32) - 8, 8, true}, {((size_t)1 << 32) - 64, 64, true}, {64, (size_t)1 << 32, true}, {64, (size_t)1 << 63, true},
};
static const int NREQ = sizeof REQS / sizeof *REQS;
static void *g_alloc(const Req &q, int owner = 0) {
    int f0 = mc_faults_used();
    void *p = q.align == 8 ? umf_ba_global_alloc(q.size) : umf_ba_global_aligned_alloc(q.size, q.align);
    mc_op("alloc size %lx align %lx -> %ld", (long)q.size, (long)q.align, p ? 1 : 0);
    if (q.size == 0) {
        MC_CHECK(!p, "ba:zero", "a block for a request of zero bytes");
        return nullptr;
    }
    if (q.impossible && !p)
        return nullptr; // may also be satisfied in full, which got() checks
    if (!p) {
        MC_CHECK(mc_faults_used() > f0, "ba:refused", "alloc(%zu, %zu) failed although nothing failed", q.size, q.align);
        return nullptr;
    }
    got(p, q.size, q.align, umf_ba_global_malloc_usable_size(p), owner);
    return p;
}
static void g_free(uintptr_t p) {
    auto it = g_blk.find(p);
    verify(p, it->second);
    mc_op("free %ld", (long)it->second.size);
    g_blk.erase(it);
    umf_ba_global_free((void *)p);
}
static void body_global() {
    start();
    g_mutex_faults = true;
    int depth = (int)mc_param("depth", 4), alpha = (int)mc_param("alpha", 0);
    static const int SMALL[] = {2, 4, 7, 8, 14, 17, 24};
    const int NS = alpha ? (int)(sizeof SMALL / sizeof *SMALL) : NREQ;
    // reusable memory: how many mapped bytes were needed to hold this request
    // alongside everything else alive
    std::map<int, int> freed; // request index -> freed blocks of that request not handed out again
    std::map<uintptr_t, int> was;
    size_t m_free = 0; // mapped before that block was freed
    for (int d = 0; d < depth; d++) {
        int nl = (int)g_blk.size();
        int k = mc_choose(NS + nl + 2);
        if (k < NS) {
            int r = alpha ? SMALL[k] : k;
            bool reuse = freed[r] > 0;
            size_t m_now = mapped();
            void *p = g_alloc(REQS[r]);
            if (p) {
                if (reuse && REQS[r].size + REQS[r].align <= 248)
                    MC_CHECK(mapped() <= m_free || mapped() <= m_now, "ba:reuse", "new memory mapped although a block of the same size was freed");
                was[(uintptr_t)p] = r;
                freed[r] = 0; // other requests share the chunks: count one freed block at a time
            }
        } else if (k < NS + nl) {
            auto it = g_blk.begin();
            std::advance(it, k - NS);
            uintptr_t p = it->first;
            freed.clear();
            freed[was[p]] = 1;
            m_free = mapped();
            g_free(p);
        } else if (k == NS + nl) { // a burst that exhausts the class
            if (d && depth > 2 && mc_param("burst1", 0))
                mc_prune();
            int r = 4;
            for (int i = 0; i < 130; i++)
                if (void *p = g_alloc(REQS[r]))
                    was[(uintptr_t)p] = r;
            freed.clear();
        } else {
            if (nl)
                mc_prune(); // destruction with live blocks is not a legal history
            mc_op("destroy");
            umf_ba_destroy_global();
            MC_CHECK(g_maps.empty(), "ba:leak", "%zu bytes remain mapped after destruction", mapped());
            freed.clear();
        }
        verify_all();
        mc_state(shape(7));
    }
    mc_outcome(shape(3));
    while (!g_blk.empty())
        g_free(g_blk.begin()->first);
    // churn: freed memory is used again
    mc_fault_budget(0);
    size_t peak = 0;
    for (int i = 0; i < 140; i++) {
        void *p = g_alloc(REQS[6]), *q = g_alloc(REQS[9]);
        if (!i)
            peak = mapped();
        MC_CHECK(mapped() <= peak, "ba:reuse", "%zu bytes mapped after %d rounds of alloc and free, %zu at first", mapped(), i, peak);
        g_free((uintptr_t)p), g_free((uintptr_t)q);
    }
    umf_ba_destroy_global();
    finish("destruction");
}
// ---- fixed-size pool -----------------------------------------------------
static void body_pool() {
    start();
    g_mutex_faults = true;
    static const size_t SZ[] = {1, 8, 17, 64, 100, 1000, PG, PG + 1};
    size_t size = SZ[mc_choose(8)];
    mc_op("create pool of %ld", (long)size);
    int f0 = mc_faults_used();
    umf_ba_pool_t *pool = umf_ba_create(size);
    if (!pool) {
        MC_CHECK(mc_faults_used() > f0, "ba:refused", "pool creation failed");
        finish("a failed creation");
        return;
    }
    int freed = 0;
    size_t per = 0; // blocks that fit before the pool grew
    auto take = [&]() {
        int f0 = mc_faults_used();
        size_t m0 = mapped();
        void *p = umf_ba_alloc(pool);
        if (!p) {
            MC_CHECK(mc_faults_used() > f0, "ba:refused", "alloc failed");
            return;
        }
        MC_CHECK(!freed || mapped() == m0, "ba:reuse", "new memory mapped although %d blocks were freed", freed);
        if (freed)
            freed--;
        got(p, size, 8, size);
    };
    auto give = [&](int i) {
        auto it = g_blk.begin();
        std::advance(it, i);
        uintptr_t p = it->first;
        verify(p, it->second);
        g_blk.erase(it);
        umf_ba_free(pool, (void *)p);
        freed++;
    };
    (void)per;
    int depth = (int)mc_param("depth", 5);
    for (int d = 0; d < depth; d++) {
        int nl = (int)g_blk.size(), nf = nl > 4 ? 4 : nl;
        int k = mc_choose(2 + nf + 1);
        if (k == 0) {
            mc_op("alloc");
            take();
        } else if (k == 1) {
            mc_op("alloc x 130");
            for (int i = 0; i < 130; i++)
                take();
        } else if (k < 2 + nf) {
            int i = k - 2 < 2 ? k - 2 : nl - (k - 1 - 2); // first two, last two
            if (nf == 4 && k - 2 >= 2)
                i = nl - 1 - (k - 4);
            mc_op("free block %ld of %ld", i, nl);
            give(i);
        } else {
            if (nl < 5)
                mc_prune();
            mc_op("free every other block");
            for (int i = 0; i < (int)g_blk.size(); i++)
                give(i);
        }
        verify_all();
        mc_state(shape(size));
    }
    mc_outcome(shape(size));
    while (!g_blk.empty())
        give(0);
    size_t m0 = mapped();
    mc_fault_budget(0);
    for (int i = 0; i < 300; i++)
        take(), give(0);
    MC_CHECK(mapped() == m0, "ba:reuse", "alloc and free made the pool grow");
    umf_ba_destroy(pool);
    finish("destruction");
}
// ---- linear pool -----------------------------------------------------------
static void body_linear() {
    start();
    g_partial = true;
    g_mutex_faults = true;
    static const size_t PS[] = {0, 100, PG, 3 * PG};
    static const size_t SZ[] = {1, 8, 600, 2000, PG - 24, PG - 23, PG, 2 * PG + 1, SIZE_MAX, SIZE_MAX - PG, 0};
    const int NSZ = 11;
    size_t ps = PS[mc_choose(4)];
    mc_op("create linear pool of %ld", (long)ps);
    int f0 = mc_faults_used();
    umf_ba_linear_pool_t *pool = umf_ba_linear_create(ps);
    if (!pool) {
        MC_CHECK(mc_faults_used() > f0, "ba:refused", "pool creation failed");
        finish("a failed creation");
        return;
    }
    int depth = (int)mc_param("depth", 4);
    static char other[64];
    auto give = [&](uintptr_t p) {
        auto it = g_blk.find(p);
        verify(p, it->second);
        mc_op("free %ld", (long)it->second.size);
        g_blk.erase(it);
        int r = umf_ba_linear_free(pool, (void *)p);
        MC_CHECK(r == 0, "ba:linear-free", "free of a block of this pool = %d", r);
    };
    auto take = [&](size_t n) {
        int f0 = mc_faults_used();
        void *p = umf_ba_linear_alloc(pool, n);
        mc_op("alloc %lx -> %ld", (long)n, p ? 1 : 0);
        if (n == 0 || n > (size_t)1 << 62) {
            MC_CHECK(!p, "ba:impossible", "alloc(%zu) returned a block", n);
            return;
        }
        if (!p) {
            MC_CHECK(mc_faults_used() > f0, "ba:refused", "alloc(%zu) failed", n);
            return;
        }
        got(p, n, 8, n);
    };
    for (int d = 0; d < depth; d++) {
        int nl = (int)g_blk.size();
        int k = mc_choose(NSZ + nl + 1);
        if (k < NSZ)
            take(SZ[k]);
        else if (k < NSZ + nl) {
            auto it = g_blk.begin();
            std::advance(it, k - NSZ);
            give(it->first);
        } else {
            if (nl > 8)
                mc_prune();
            mc_op("alloc 600 x 9");
            for (int i = 0; i < 9; i++)
                take(600);
        }
        verify_all();
        MC_CHECK(umf_ba_linear_free(pool, other) == -1, "ba:linear-free", "a pointer of nobody was accepted");
        MC_CHECK(umf_ba_linear_pool_contains_pointer(pool, other) == 0, "ba:linear-contains", "a pointer of nobody is reported inside the pool");
        for (auto &b : g_blk) {
            size_t n = umf_ba_linear_pool_contains_pointer(pool, (void *)b.first);
            MC_CHECK(n >= b.second.size && held(b.first, n), "ba:linear-contains", "live block %lx size %zu: pool reports %zu bytes", b.first, b.second.size, n);
        }
        mc_state(shape(ps));
    }
    mc_outcome(shape(ps));
    if (mc_choose(2))
        while (!g_blk.empty())
            give(g_blk.begin()->first);
    mc_fault_budget(0);
    if (g_blk.empty()) { // freed memory goes back: repeated use does not pile up
        size_t peak = 0;
        for (int i = 0; i < 40; i++) {
            take(2000);
            give(g_blk.begin()->first);
            if (i == 3)
                peak = mapped();
            MC_CHECK(i < 3 || mapped() <= peak + PG, "ba:reuse", "%zu bytes mapped after %d rounds of alloc and free, %zu after three", mapped(), i, peak);
        }
    }
    g_blk.clear(); // destruction ends the life of what is left
    umf_ba_linear_destroy(pool);
    finish("destruction");
}
// ---- threads ----------------------------------------------------------------
static umf_ba_pool_t *g_pool;
static umf_ba_linear_pool_t *g_lin;
static void *mt_take(int kind, size_t n, size_t al) {
    mt_mark();
    void *p = kind == 0 ? umf_ba_global_aligned_alloc(n, al) : kind == 1 ? umf_ba_alloc(g_pool) : umf_ba_linear_alloc(g_lin, n);
    MC_CHECK(p, "ba:refused", "alloc failed");
    mc_op(" thread %ld: alloc %ld", mt_self(), (long)n);
    got(p, n, al, kind == 0 ? umf_ba_global_malloc_usable_size(p) : n, mt_self());
    return p;
}
static void mt_give(int kind, void *v) {
    mt_mark();
    uintptr_t p = (uintptr_t)v;
    verify(p, g_blk.at(p));
    g_blk.erase(p);
    mc_op(" thread %ld: free", mt_self());
    if (kind == 0)
        umf_ba_global_free(v);
    else if (kind == 1)
        umf_ba_free(g_pool, v);
    else
        MC_CHECK(umf_ba_linear_free(g_lin, v) == 0, "ba:linear-free", "free of a block of this pool failed");
}
static void body_mt() {
    start();
    g_partial = true;
    int kind = mc_choose(3), nt = (int)mc_param("threads", 2);
    size_t N = kind == 0 ? 100 : kind == 1 ? 100 : 700; // 128-byte class: 31 per page, so 128+ per mapping
    g_pool = nullptr, g_lin = nullptr;
    std::vector<void *> pre;
    // how full the memory is when the threads start: untouched, one block
    // left, none left
    int full = mc_choose(3);
    mc_op("allocator kind %ld, fullness %ld", kind, full);
    if (kind == 1)
        g_pool = umf_ba_create(N);
    if (kind == 2)
        g_lin = umf_ba_linear_create(PG);
    if (full) {
        // fill until a further mapping is needed, then free what is not wanted
        void *p = mt_take(kind, N, 8);
        long m0 = g_nmap;
        pre.push_back(p);
        while (true) {
            p = mt_take(kind, N, 8);
            if (g_nmap > m0)
                break;
            pre.push_back(p);
        }
        // p opened a new mapping; fill this one up to the last (or next to last) block
        size_t per = pre.size() - (kind == 0 || kind == 1 ? 0 : 0);
        std::vector<void *> more{p};
        long m1 = g_nmap;
        if (kind != 2) {
            while (true) {
                p = mt_take(kind, N, 8);
                if (g_nmap > m1) {
                    more.push_back(p);
                    break;
                }
                more.push_back(p);
            }
            // free blocks now: the rest of the third mapping; take them all but 0 or 1
            for (size_t i = 1; i + (full == 1 ? 1 : 0) < per; i++)
                more.push_back(mt_take(kind, N, 8));
        }
        pre.insert(pre.end(), more.begin(), more.end());
    }
    void *own[3] = {};
    for (int i = 0; i < nt; i++)
        own[i] = mt_take(kind, N, 8);
    int prog[3], lo = 0;
    for (int i = 0; i < nt; i++)
        lo = prog[i] = lo + mc_choose(5 - lo);
    mc_op("programs %ld %ld %ld", prog[0], prog[1], nt > 2 ? prog[2] : -1);
    if (!full && kind == 0 && mc_choose(2)) { // untouched: the threads race for the first use
        for (int i = 0; i < nt; i++)
            mt_give(kind, own[i]), own[i] = nullptr;
        umf_ba_destroy_global();
        MC_CHECK(g_maps.empty(), "ba:leak", "%zu bytes remain after destruction", mapped());
        mc_op("allocator not initialised yet");
    }
    std::vector<std::function<void()>> th;
    for (int i = 0; i < nt; i++)
        th.push_back([&, i] {
            switch (prog[i]) {
            case 0: { void *a = mt_take(kind, N, 8); if (own[i]) mt_give(kind, own[i]); mt_give(kind, a); break; }
            case 1: { if (own[i]) mt_give(kind, own[i]); void *a = mt_take(kind, N, 8); mt_give(kind, a); break; }
            case 2: { void *a = mt_take(kind, N, 8), *b = mt_take(kind, N, 8); mt_give(kind, a); mt_give(kind, b); if (own[i]) mt_give(kind, own[i]); break; }
            case 3: { void *a = mt_take(kind, N, kind == 0 ? 16 : 8); mt_give(kind, a); if (own[i]) mt_give(kind, own[i]); break; }
            default: { void *a = mt_take(kind, N, 8); if (own[i]) mt_give(kind, own[i]); void *b = mt_take(kind, N, 8); mt_give(kind, b), mt_give(kind, a); break; }
            }
        });
    mt_run(th, (int)mc_param("pb", 2));
    verify_all();
    mc_state(shape(kind)), mc_outcome(shape(g_nmap));
    // nothing was lost: the same demand again maps nothing new
    if (kind != 2) {
        long m0 = g_nmap;
        std::vector<void *> v;
        for (int i = 0; i < nt; i++)
            v.push_back(mt_take(kind, N, 8));
        MC_CHECK(g_nmap == m0, "ba:reuse", "freed blocks were lost");
        for (auto p : v)
            mt_give(kind, p);
    }
    for (auto p : pre)
        mt_give(kind, p);
    if (kind == 0)
        umf_ba_destroy_global();
    else if (kind == 1)
        umf_ba_destroy(g_pool);
    else
        umf_ba_linear_destroy(g_lin);
    finish("destruction");
}
static void setup() { umf_ba_destroy_global(); }
int main(int argc, char **argv) {
    return mc_main(argc, argv, {{"global", body_global, false, setup}, {"pool", body_pool}, {"linear", body_linear}, {"mt", body_mt, false, setup}});
}
