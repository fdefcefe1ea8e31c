#include "ba_wrap.hpp"
#include "mc.hpp"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <sys/mman.h>
#include <unordered_map>

extern "C" void *__real_mmap(void *, size_t, int, int, int, off_t)
    __attribute__((weak));

namespace {
struct Blk {
    size_t size;
    void *pool;
    void *from;
};
std::unordered_map<void *, Blk> &live() {
    static auto *m = new std::unordered_map<void *, Blk>;
    return *m;
}
struct Pool {
    size_t size;
};
std::unordered_map<void *, Pool *> &pools() {
    static auto *m = new std::unordered_map<void *, Pool *>;
    return *m;
}
int g_faults = 0;
int g_mfaults = 0;
unsigned long g_req = 0;
bool g_destroyed = false;
#ifdef MC_TSAN
constexpr uintptr_t ABASE = 0x600000000000ull;
constexpr size_t ASIZE = 256u << 20;
uint8_t *g_sh = nullptr; // one byte per 8 bytes: 0 never, 1 live, 2 freed
uintptr_t g_next = ABASE;
void ainit() {
    auto mm = __real_mmap ? __real_mmap : mmap;
    void *p = mm((void *)ABASE, ASIZE, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    void *q = mm(nullptr, ASIZE / 8, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED || q == MAP_FAILED) {
        perror("arena");
        _Exit(2);
    }
    g_sh = (uint8_t *)q;
}
void *raw_alloc(size_t n, size_t al) {
    if (!g_sh)
        ainit();
    if (al < 16)
        al = 16;
    g_next = (g_next + al - 1) / al * al;
    uintptr_t p = g_next;
    size_t r = (n + 7) / 8 * 8;
    if (p + r + 16 > ABASE + ASIZE)
        return nullptr;
    g_next = p + r + 16;
    memset(g_sh + (p - ABASE) / 8, 1, r / 8);
    return (void *)p;
}
void raw_free(void *p, size_t n) {
    memset(g_sh + ((uintptr_t)p - ABASE) / 8, 2, (n + 7) / 8);
}
#else
void *raw_alloc(size_t n, size_t al) {
    if (al <= 16)
        return malloc(n);
    return aligned_alloc(al, (n + al - 1) / al * al);
}
void raw_free(void *p, size_t) { free(p); }
#endif
void *do_alloc(size_t n, size_t al, void *pool, void *from) {
    g_req++;
    if (n == 0)
        return nullptr;
    if (g_faults && mc_is_worker() && mc_fault())
        return nullptr;
    void *p = raw_alloc(n, al);
    if (!p)
        return nullptr;
    memset(p, 0xA5, n); // contents of a fresh block are arbitrary
    live()[p] = {n, pool, from};
    return p;
}
void do_free(void *p, void *pool, const char *what) {
    if (!p)
        return;
    auto it = live().find(p);
    if (it == live().end()) {
        if (mc_is_worker())
            mc_fail("ba:bad-free", "%s(%p): not an outstanding block", what, p);
        return;
    }
    if (it->second.pool != pool) {
        if (mc_is_worker())
            mc_fail("ba:wrong-pool", "%s(%p): block of another allocator", what,
                    p);
        return;
    }
    size_t n = it->second.size;
    live().erase(it);
    memset(p, 0x5A, n);
    raw_free(p, n);
}
} // namespace

extern "C" {
void mc_ba_rewind(void) {
#ifdef MC_TSAN
    static uintptr_t mark = 0;
    static size_t n = 0;
    if (!mark) {
        if (!g_sh)
            ainit();
        mark = g_next;
        n = live().size();
    } else if (live().size() == n) {
        memset(g_sh + (mark - ABASE) / 8, 0, (g_next - mark) / 8 + 1);
        g_next = mark;
    }
#endif
}
int mc_addr_state(const void *p, size_t n) {
#ifdef MC_TSAN
    uintptr_t a = (uintptr_t)p;
    if (a < ABASE || a >= ABASE + ASIZE || !g_sh)
        return 0;
    for (uintptr_t x = a & ~7ull; x < a + n; x += 8)
        if (g_sh[(x - ABASE) / 8] == 2)
            return 1;
#else
    (void)p;
    (void)n;
#endif
    return 0;
}
size_t mc_ba_live(void) { return live().size(); }
size_t mc_ba_pools(void) { return pools().size(); }
void mc_ba_faults(int on) { g_faults = on; }
void mc_mutex_faults(int on) { g_mfaults = on; }
int mc_fault_mutex_init() { return g_mfaults && mc_fault(); }
unsigned long mc_ba_requests(void) { return g_req; }
void mc_ba_dump(void) {
    for (auto &kv : live())
        mc_note("outstanding block %p size %zu allocated at pc %p", kv.first,
                kv.second.size, kv.second.from);
}
#define RA __builtin_return_address(0)
void *__wrap_umf_ba_global_alloc(size_t n) { return do_alloc(n, 16, nullptr, RA); }
void *__wrap_umf_ba_global_aligned_alloc(size_t n, size_t al) {
    return do_alloc(n, al, nullptr, RA);
}
void __wrap_umf_ba_global_free(void *p) { do_free(p, nullptr, "global free"); }
size_t __wrap_umf_ba_global_malloc_usable_size(void *p) {
    auto it = live().find(p);
    return it == live().end() ? 0 : it->second.size;
}
void __wrap_umf_ba_destroy_global(void) { g_destroyed = true; }
bool __wrap_umf_ba_global_is_destroyed(void) { return g_destroyed; }
void *__wrap_umf_ba_create(size_t size) {
    g_req++;
    if (g_faults && mc_is_worker() && mc_fault())
        return nullptr;
    Pool *p = new Pool{size};
    pools()[p] = p;
    g_destroyed = false;
    return p;
}
void *__wrap_umf_ba_alloc(void *pool) {
    auto it = pools().find(pool);
    if (it == pools().end())
        mc_fail("ba:bad-pool", "allocation from a destroyed pool");
    return do_alloc(it->second->size, 16, pool, RA);
}
void __wrap_umf_ba_free(void *pool, void *p) {
    if (!p)
        return;
    auto it = pools().find(pool);
    if (it == pools().end())
        mc_fail("ba:bad-pool", "free to a destroyed pool");
    do_free(p, pool, "pool free");
}
void __wrap_umf_ba_destroy(void *pool) {
    auto it = pools().find(pool);
    if (it == pools().end())
        mc_fail("ba:bad-pool", "destroying an unknown pool");
    for (auto i = live().begin(); i != live().end();) {
        if (i->second.pool == pool) {
            void *p = i->first;
            size_t n = i->second.size;
            i = live().erase(i);
            raw_free(p, n);
        } else
            ++i;
    }
    delete it->second;
    pools().erase(it);
}
}
