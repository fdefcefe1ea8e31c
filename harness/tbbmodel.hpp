// The TBB allocator as the scalable pool loads it: the installed one, or a model of its documented interface.
#pragma once
#include "umfx.hpp"
#include <algorithm>
// ---- loading of the TBB library ---------------------------------------------------
extern "C" {
void *__real_utils_open_library(const char *, int);
void *__real_utils_get_symbol_addr(void *, const char *, const char *);
int __real_utils_close_library(void *);
}
struct Tbb {
    int model = 0;     // answer with the model below
    int no_lib = 0;    // the library is missing
    int no_sym = -1;   // this symbol is missing
    int opened = 0, asked = 0;
    long pools = 0, blocks = 0;
    void *(*next)(const char *) = nullptr; // answers for the system allocator
};
static Tbb TB;
// A model of the documented pool interface: one raw region per block.
struct MPol {
    void *(*pAlloc)(intptr_t, size_t *);
    void (*pFree)(intptr_t, void *, size_t);
    size_t granularity;
    int version;
    unsigned fixed : 1, keep : 1, res : 30;
};
struct MPool {
    intptr_t id;
    MPol pol;
    std::map<void *, std::pair<void *, std::pair<size_t, size_t>>> blk; // block -> region, raw size, size
    std::vector<std::pair<void *, size_t>> kept;
};
static void *m_amalloc(void *p, size_t n, size_t al) {
    MPool *m = (MPool *)p;
    if (al == 0 || (al & (al - 1)) || n == 0 || n > (size_t)1 << 60 || al > (size_t)1 << 40)
        return nullptr;
    size_t g = m->pol.granularity ? m->pol.granularity : 1;
    size_t raw = (n + al + g - 1) / g * g;
    void *r = m->pol.pAlloc(m->id, &raw);
    if (!r)
        return nullptr;
    void *b = (void *)(((uintptr_t)r + al - 1) & ~(uintptr_t)(al - 1));
    m->blk[b] = {r, {raw, n}};
    TB.blocks++;
    return b;
}
static void *m_malloc(void *p, size_t n) { return m_amalloc(p, n ? n : 1, 16); }
static bool m_free(void *p, void *b) {
    MPool *m = (MPool *)p;
    auto it = m->blk.find(b);
    if (it == m->blk.end())
        return false;
    auto r = it->second;
    m->blk.erase(it);
    TB.blocks--;
    if (m->pol.keep)
        m->kept.push_back({r.first, r.second.first});
    else
        m->pol.pFree(m->id, r.first, r.second.first);
    return true;
}
static void *m_realloc(void *p, void *b, size_t n) {
    MPool *m = (MPool *)p;
    if (!b)
        return m_malloc(p, n);
    if (!n) {
        m_free(p, b);
        return nullptr;
    }
    void *q = m_malloc(p, n);
    if (!q)
        return nullptr;
    memcpy(q, b, std::min(n, m->blk[b].second.second));
    m_free(p, b);
    return q;
}
static int m_create(intptr_t id, const MPol *pol, void **out) {
    MC_CHECK(pol->pAlloc && pol->pFree && pol->version == 1 && !pol->fixed && !pol->res, "tbb:policy", "unexpected policy");
    if (mc_param("mcreate", 0) && mc_fault())
        return 2;
    *out = new MPool{id, *pol, {}, {}};
    TB.pools++;
    return 0;
}
static bool m_destroy(void *p) {
    MPool *m = (MPool *)p;
    for (auto &b : m->blk)
        m->pol.pFree(m->id, b.second.first, b.second.second.first);
    for (auto &b : m->kept)
        m->pol.pFree(m->id, b.first, b.second);
    delete m;
    TB.pools--;
    return true;
}
static void *m_identify(void *) { return nullptr; }
static size_t m_msize(void *p, void *b) {
    MPool *m = (MPool *)p;
    auto it = m->blk.find(b);
    return it == m->blk.end() ? 0 : it->second.second.second;
}
extern "C" {
void *__wrap_utils_open_library(const char *n, int f) {
    mt_mark();
    if (!strstr(n, "tbbmalloc"))
        return __real_utils_open_library(n, f);
    if (TB.no_lib)
        return nullptr;
    TB.opened++;
    return TB.model ? (void *)&TB : __real_utils_open_library(n, f);
}
int __wrap_utils_close_library(void *h) {
    mt_mark();
    TB.opened--;
    MC_CHECK(TB.opened >= 0, "tbb:close", "library closed twice");
    return TB.model ? 0 : __real_utils_close_library(h);
}
void *__wrap_utils_get_symbol_addr(void *h, const char *s, const char *l) {
    mt_mark();
    if (h == (void *)-1l) // RTLD_NEXT
        return TB.next ? TB.next(s) : __real_utils_get_symbol_addr(h, s, l);
    int i = TB.asked++;
    if (i == TB.no_sym)
        return nullptr;
    if (!TB.model)
        return __real_utils_get_symbol_addr(h, s, l);
    struct {
        const char *n;
        void *f;
    } t[] = {{"pool_malloc", (void *)m_malloc}, {"pool_realloc", (void *)m_realloc}, {"pool_aligned_malloc", (void *)m_amalloc}, {"pool_free", (void *)m_free}, {"pool_create_v1", (void *)m_create}, {"pool_destroy", (void *)m_destroy}, {"pool_identify", (void *)m_identify}, {"pool_msize", (void *)m_msize}};
    for (auto &x : t)
        if (strstr(s, x.n))
            return x.f;
    mc_fail("tbb:symbol", "unknown symbol %s asked", s);
}
}
