// C08: the region allocator (coarse) and the fixed-memory provider.
#include "umfx.hpp"
#include <algorithm>
#include <umf/providers/provider_fixed_memory.h>
extern "C" {
#include "coarse.h"
}
static const size_t PG = 4096;
// ---- what the underlying provider knows -----------------------------------
struct Up {
    std::map<uintptr_t, size_t> blk; // blocks as the provider sees them
    int faults = 0;                  // FA_ALLOC | FA_SPLIT | FA_MERGE
    bool refused_merge = false;
    uintptr_t next = 0;
    bool has_alloc = false;
    size_t limit = 0;
    long allocs = 0;
};
static Up *U;
static umf_result_t cb_alloc(void *, size_t size, size_t align, void **ptr) {
    if ((U->faults & FA_ALLOC) && mc_fault()) {
        mc_op("  provider refuses alloc");
        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    }
    uintptr_t a = (U->next + align - 1) / align * align;
    if (a > U->limit || size > U->limit - a)
        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    U->next = a + size;
    U->blk[a] = size;
    U->allocs++;
    *ptr = (void *)a;
    mc_op("  provider alloc %ld -> %lx", (long)size, (long)a);
    return UMF_RESULT_SUCCESS;
}
static umf_result_t cb_free(void *, void *ptr, size_t size) {
    auto it = U->blk.find((uintptr_t)ptr);
    MC_CHECK(it != U->blk.end() && it->second == size, "coarse:upfree", "provider asked to free %p size %zu, which it does not have", ptr, size);
    mc_op("  provider free %lx", (long)(uintptr_t)ptr);
    U->blk.erase(it);
    return UMF_RESULT_SUCCESS;
}
static umf_result_t cb_split(void *, void *ptr, size_t total, size_t first) {
    auto it = U->blk.find((uintptr_t)ptr);
    MC_CHECK(it != U->blk.end() && it->second == total && first > 0 && first < total, "coarse:upsplit", "provider asked to split %p total %zu first %zu", ptr, total, first);
    if ((U->faults & FA_SPLIT) && mc_fault()) {
        mc_op("  provider refuses split");
        return UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;
    }
    it->second = first;
    U->blk[(uintptr_t)ptr + first] = total - first;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t cb_merge(void *, void *lo, void *hi, size_t total) {
    auto a = U->blk.find((uintptr_t)lo), b = U->blk.find((uintptr_t)hi);
    MC_CHECK(a != U->blk.end() && b != U->blk.end() && a->first + a->second == b->first && a->second + b->second == total, "coarse:upmerge", "provider asked to merge %p and %p total %zu", lo, hi, total);
    if ((U->faults & FA_MERGE) && mc_fault()) {
        mc_op("  provider refuses merge");
        U->refused_merge = true;
        return UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;
    }
    a->second = total;
    U->blk.erase(b);
    return UMF_RESULT_SUCCESS;
}
struct World {
    Up up;
    coarse_t *c = nullptr;
    coarse_strategy_t strat;
    std::map<uintptr_t, size_t> live;
    size_t total() const {
        size_t s = 0;
        for (auto &b : up.blk)
            s += b.second;
        return s;
    }
    void verify(const char *after) {
        size_t used = 0;
        for (auto &l : live) {
            used += l.second;
            auto it = up.blk.find(l.first);
            MC_CHECK(it != up.blk.end() && it->second == l.second, "coarse:tiling", "%s: live block %lx size %zu is not a block of the provider", after, (long)l.first, l.second);
        }
        coarse_stats_t st = coarse_get_stats(c);
        MC_CHECK(st.used_size == used, "coarse:used", "%s: used size %zu, live blocks sum to %zu", after, st.used_size, used);
        MC_CHECK(st.alloc_size == total(), "coarse:total", "%s: total size %zu, the region has %zu", after, st.alloc_size, total());
        MC_CHECK(st.num_all_blocks == up.blk.size(), "coarse:count", "%s: %zu blocks reported, provider has %zu", after, st.num_all_blocks, up.blk.size());
        MC_CHECK(mc_faults_used() || st.num_free_blocks == up.blk.size() - live.size(), "coarse:freecount", "%s: %zu free blocks reported, there are %zu", after, st.num_free_blocks, up.blk.size() - live.size());
        if (!up.refused_merge) { // neighbouring free blocks have become one
            uintptr_t end = 0;
            bool fr = false;
            for (auto &b : up.blk) {
                bool f = !live.count(b.first);
                MC_CHECK(!(f && fr && end == b.first), "coarse:coalesce", "%s: free blocks before and at %lx were not joined", after, (long)b.first);
                fr = f;
                end = b.first + b.second;
            }
        }
    }
    size_t largest_free() const {
        size_t m = 0;
        for (auto &b : up.blk)
            if (!live.count(b.first))
                m = std::max(m, b.second);
        return m;
    }
    bool alloc(size_t size, size_t align) {
        void *p = (void *)1;
        auto before = up.blk;
        size_t big = largest_free();
        size_t al = align < PG ? PG : align;
        bool bad = align && ((align & (align - 1)) != 0);
        bool exact = false;
        if (strat == UMF_COARSE_MEMORY_STRATEGY_CHECK_ALL_SIZE)
            for (auto &b : up.blk)
                exact |= !live.count(b.first) && b.second == size && b.first % al == 0;
        long na = up.allocs;
        int f0 = mc_faults_used();
        mc_op("alloc size %ld align %ld", (long)size, (long)align);
        umf_result_t r = coarse_alloc(c, size, align, &p);
        bool f = mc_faults_used() > f0;
        if (r != UMF_RESULT_SUCCESS) {
            if (bad)
                MC_CHECK(r == UMF_RESULT_ERROR_INVALID_ALIGNMENT, "coarse:badalign", "alignment %zu reported as %d", align, r);
            else if (size)
                MC_CHECK(f || size + al < size || (!exact && big < size + al), "coarse:refused", "alloc %zu align %zu refused (%d) with a free block of %zu bytes%s", size, align, r, big, exact ? ", one fits exactly" : "");
            if (!up.refused_merge)
                MC_CHECK(up.blk == before, "coarse:failed-changed", "failed alloc left the region divided differently");
            verify("failed alloc");
            return false;
        }
        MC_CHECK(!bad && size, "coarse:accepted", "alloc size %zu align %zu accepted", size, align);
        uintptr_t a = (uintptr_t)p;
        MC_CHECK(a % al == 0, "coarse:align", "block %lx is not aligned to %zu", (long)a, al);
        for (auto &l : live)
            MC_CHECK(a + size <= l.first || l.first + l.second <= a, "coarse:overlap", "block %lx overlaps block %lx size %zu", (long)a, (long)l.first, l.second);
        bool in = up.allocs > na;
        for (auto &b : before)
            in |= a >= b.first && a + size <= b.first + b.second;
        MC_CHECK(in, "coarse:outside", "block %lx size %zu outside the region", (long)a, size);
        live[a] = size;
        verify("alloc");
        return true;
    }
    void free_(uintptr_t a, size_t sz) {
        mc_op("free %lx size %ld", (long)a, (long)sz);
        int f0 = mc_faults_used();
        auto before = up.blk;
        auto it = live.find(a);
        umf_result_t r = coarse_free(c, (void *)a, sz);
        bool valid = it != live.end() && (sz == 0 || sz == it->second);
        MC_CHECK(valid || r != UMF_RESULT_SUCCESS, "coarse:badfree", "free of %lx size %zu accepted", (long)a, sz);
        if (valid && r == UMF_RESULT_SUCCESS)
            live.erase(it);
        else {
            MC_CHECK(!valid || mc_faults_used() > f0, "coarse:free", "free of live block %lx = %d", (long)a, r);
            MC_CHECK(up.blk == before, "coarse:failed-changed", "failed free changed the region");
        }
        verify("free");
    }
    void split(uintptr_t a, size_t total, size_t first) {
        mc_op("split %lx total %ld first %ld", (long)a, (long)total, (long)first);
        int f0 = mc_faults_used();
        auto before = up.blk;
        auto it = live.find(a);
        bool valid = it != live.end() && it->second == total && first > 0 && first < total;
        umf_result_t r = coarse_split(c, (void *)a, total, first);
        if (r == UMF_RESULT_SUCCESS) {
            MC_CHECK(valid, "coarse:badsplit", "split of %lx total %zu first %zu accepted", (long)a, total, first);
            it->second = first;
            live[a + first] = total - first;
        } else {
            MC_CHECK(!valid || mc_faults_used() > f0, "coarse:split", "valid split = %d", r);
            MC_CHECK(up.blk == before, "coarse:failed-changed", "failed split changed the region");
        }
        verify("split");
    }
    void merge(uintptr_t lo, uintptr_t hi, size_t total) {
        mc_op("merge %lx %lx total %ld", (long)lo, (long)hi, (long)total);
        int f0 = mc_faults_used();
        auto before = up.blk;
        auto a = live.find(lo), b = live.find(hi);
        bool valid = a != live.end() && b != live.end() && a->first + a->second == hi && a->second + b->second == total;
        bool rm = up.refused_merge;
        umf_result_t r = coarse_merge(c, (void *)lo, (void *)hi, total);
        if (r == UMF_RESULT_SUCCESS) {
            MC_CHECK(valid, "coarse:badmerge", "merge of %lx %lx total %zu accepted", (long)lo, (long)hi, total);
            a->second = total;
            live.erase(b);
        } else {
            up.refused_merge = rm; // concerns used blocks only
            MC_CHECK(!valid || mc_faults_used() > f0, "coarse:merge", "valid merge = %d", r);
            MC_CHECK(up.blk == before, "coarse:failed-changed", "failed merge changed the region");
        }
        verify("merge");
    }
    uint64_t hash() const {
        uint64_t h = (uint64_t)strat + 1;
        for (auto &b : up.blk)
            h = mc_mix(h, b.first * 4 + (live.count(b.first) ? 1 : 0) + b.second * 8191);
        return h;
    }
};
static void body_hist() {
    int depth = (int)mc_param("depth", 5), alpha = (int)mc_param("alpha", 0);
    int flt = (int)mc_param("flt", 0);
    mc_ba_rewind();
    size_t live0 = mc_ba_live();
    World w;
    U = &w.up;
    w.strat = (coarse_strategy_t)mc_choose(3);
    int shape = mc_choose(4); // one region, unaligned region, two regions, provider
    uintptr_t B = 0x200000000000ull;
    coarse_params_t p;
    memset(&p, 0, sizeof p);
    p.provider = &w.up;
    p.page_size = PG;
    p.allocation_strategy = w.strat;
    p.cb.split = cb_split;
    p.cb.merge = cb_merge;
    if (shape == 3) {
        p.cb.alloc = cb_alloc;
        p.cb.free = cb_free;
        w.up.has_alloc = true;
        w.up.next = B + PG;
        w.up.limit = B + 10 * PG;
    }
    mc_fault_budget(0);
    umf_result_t r = coarse_new(&p, &w.c);
    MC_CHECK(r == UMF_RESULT_SUCCESS && w.c, "setup:coarse", "coarse_new = %d", r);
    auto add = [&](uintptr_t a, size_t n) {
        w.up.blk[a] = n;
        umf_result_t r = coarse_add_memory_fixed(w.c, (void *)a, n);
        MC_CHECK(r == UMF_RESULT_SUCCESS, "coarse:add", "adding memory = %d", r);
    };
    if (shape == 0)
        add(B, 8 * PG);
    if (shape == 1)
        add(B + PG / 2, 9 * PG - 100);
    if (shape == 2) {
        add(B + 4 * PG, 5 * PG);
        if (mc_choose(2))
            add(B, 4 * PG); // adjacent below
        else
            add(B + 12 * PG, 4 * PG);
    }
    w.verify("adding memory");
    if (flt) {
        mc_fault_budget(flt);
        w.up.faults = FA_ALLOC | FA_SPLIT | FA_MERGE;
        mc_ba_faults(flt == 1);
    }
    struct A {
        int op;
        uintptr_t a, b;
        size_t n, m;
    };
    static const size_t SZ0[] = {PG, 2 * PG, 3 * PG, 100, PG + 1}, SZ1[] = {PG, 2 * PG}, SZ2[] = {PG, 3 * PG, PG + 1};
    static const size_t AL0[] = {0, 8, 2 * PG, 4 * PG}, AL1[] = {0, 2 * PG}, AL2[] = {0, 4 * PG};
    for (int k = 0; k < depth; k++) {
        std::vector<A> al;
        auto sizes = [&](const size_t *s, size_t n, const size_t *a, size_t m) {
            for (size_t i = 0; i < n; i++)
                for (size_t j = 0; j < m; j++)
                    al.push_back({0, 0, 0, s[i], a[j]});
        };
        if (alpha == 0)
            sizes(SZ0, 5, AL0, 4);
        else if (alpha == 1)
            sizes(SZ1, 2, AL1, 2);
        else
            sizes(SZ2, 3, AL2, 2);
        for (auto &l : w.live)
            al.push_back({1, l.first, 0, alpha ? 0 : l.second, 0});
        if (alpha != 1)
            for (auto &l : w.live) {
                if (l.second > PG)
                    al.push_back({2, l.first, 0, l.second, PG});
                auto n = w.live.upper_bound(l.first);
                if (n != w.live.end())
                    al.push_back({3, l.first, n->first, l.second + n->second, 0});
            }
        if (alpha == 0)
            al.push_back({4, 0, 0, 0, 0});
        A a = al[(size_t)mc_choose((int)al.size())];
        if (a.op == 0)
            w.alloc(a.n, a.m);
        else if (a.op == 1)
            w.free_(a.a, a.n);
        else if (a.op == 2)
            w.split(a.a, a.n, a.m);
        else if (a.op == 3)
            w.merge(a.a, a.b, a.n);
        else { // requests that have to be refused
            int fb = w.up.faults;
            w.up.faults = 0;
            w.alloc(PG, 3);
            w.alloc(PG, 3 * PG);
            w.alloc(0, 0);
            w.alloc(~(size_t)0, 0);
            w.alloc(~(size_t)0 - PG + 1, PG);
            w.alloc(~(size_t)0 / 2 + 1, ~(size_t)0 / 2 + 1);
            w.free_(B - 64, 0);
            w.split(B - 64, PG, 1);
            auto blk = w.up.blk;
            for (auto &b : blk) {
                if (!w.live.count(b.first)) {
                    w.free_(b.first, 0);
                    w.free_(b.first, b.second);
                    w.split(b.first, b.second, b.second / 2);
                } else {
                    w.free_(b.first, b.second + 1);
                    w.free_(b.first, b.second / 2);
                    w.free_(b.first + b.second / 2, 0);
                    w.split(b.first, b.second + 1, b.second / 2);
                    w.split(b.first, b.second - 1, b.second / 2);
                    w.split(b.first + 1, b.second - 1, b.second / 2);
                    w.split(b.first, b.second, b.second);
                    w.split(b.first, b.second, 0);
                    w.split(b.first, b.second, b.second + 5);
                }
                auto n = blk.upper_bound(b.first);
                if (n == blk.end())
                    continue;
                bool ok = w.live.count(b.first) && w.live.count(n->first) && b.first + b.second == n->first;
                w.merge(b.first, n->first, b.second + n->second + 1);
                w.merge(b.first, n->first, b.second + n->second - 1);
                w.merge(b.first, n->first, n->first - b.first + 1);
                w.merge(b.first, n->first + 1, b.second + n->second);
                w.merge(n->first, b.first, b.second + n->second);
                w.merge(b.first, b.first, b.second * 2);
                if (!ok) {
                    w.merge(b.first, n->first, b.second + n->second);
                    w.merge(b.first, n->first, n->first - b.first + n->second);
                }
                auto m = std::next(n);
                if (m != blk.end())
                    w.merge(b.first, m->first, b.second + n->second + m->second);
            }
            w.up.faults = fb;
        }
        mc_state(w.hash());
    }
    mc_outcome(w.hash());
    // everything freed: the region serves a request for nearly all of it again
    mc_ba_faults(0);
    w.up.faults = 0;
    if (mc_choose(2)) {
        auto l = w.live;
        for (auto &b : l)
            w.free_(b.first, b.second);
        if (shape != 3 && !w.up.refused_merge) {
            size_t big = w.largest_free();
            MC_CHECK(w.alloc(big - PG, 0), "coarse:lost", "freed region of %zu bytes cannot serve %zu", big, big - PG);
            w.free_(w.live.begin()->first, 0);
        }
    }
    coarse_delete(w.c);
    MC_CHECK(!p.cb.free || w.up.blk.empty(), "coarse:upleak", "%zu blocks not given back to the provider", w.up.blk.size());
    if (mc_ba_live() != live0) {
        mc_ba_dump();
        mc_fail("coarse:leak", "%ld internal blocks left after deletion", (long)(mc_ba_live() - live0));
    }
}
// ---- fixed-memory provider -------------------------------------------------
static const size_t FX = 8 * PG;
static unsigned char *fx_mem;
static void body_fixed() {
    int depth = (int)mc_param("depth", 4);
    if (!fx_mem) {
        fx_mem = (unsigned char *)mmap((void *)0x210000000000ull, FX + 2 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
        MC_CHECK(fx_mem != MAP_FAILED, "harness", "mmap");
    }
    XLib lib;
    static const size_t OFF[] = {0, 1, 64, PG - 1, PG}, LEN[] = {1, 100, PG, 2 * PG - 1, 4 * PG, 4 * PG + 5, FX - PG};
    size_t off = OFF[mc_choose(5)], len = LEN[mc_choose(7)];
    umf_fixed_memory_provider_params_handle_t par = nullptr;
    mc_op("fixed provider at offset %ld, %ld bytes", (long)off, (long)len);
    umf_result_t r = umfFixedMemoryProviderParamsCreate(&par, fx_mem + off, len);
    MC_CHECK(r == UMF_RESULT_SUCCESS, "fixed:params", "params = %d", r);
    MC_CHECK(umfFixedMemoryProviderParamsSetMemory(par, nullptr, 5) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "fixed:null", "NULL memory accepted");
    MC_CHECK(umfFixedMemoryProviderParamsSetMemory(par, fx_mem, 0) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "fixed:zero", "empty memory accepted");
    umf_memory_provider_handle_t h = nullptr;
    r = umfMemoryProviderCreate(umfFixedMemoryProviderOps(), par, &h);
    MC_CHECK(r == UMF_RESULT_SUCCESS && h, "fixed:create", "create = %d", r);
    umfFixedMemoryProviderParamsDestroy(par);
    std::map<uintptr_t, size_t> live;
    uintptr_t lo = (uintptr_t)fx_mem + off, hi = lo + len;
    static const size_t SZ[] = {1, PG, PG + 100, 3 * PG, 0}, AL[] = {0, 1, 64, PG, 2 * PG, 3};
    auto big = [&] { // largest gap between live blocks
        size_t m = 0;
        uintptr_t e = lo;
        for (auto &l : live) {
            m = std::max(m, (size_t)(l.first - e));
            e = l.first + l.second;
        }
        return std::max(m, (size_t)(hi - e));
    };
    for (int k = 0; k < depth; k++) {
        int n = (int)live.size();
        int c = mc_choose(30 + n * 3);
        if (c < 30) {
            size_t s = SZ[c / 6], a = AL[c % 6], al = a < PG ? PG : a, g = big();
            void *p = (void *)1;
            mc_op("alloc %ld align %ld", (long)s, (long)a);
            r = umfMemoryProviderAlloc(h, s, a, &p);
            if (r == UMF_RESULT_SUCCESS) {
                uintptr_t q = (uintptr_t)p;
                MC_CHECK(s && a != 3, "fixed:accepted", "alloc size %zu align %zu accepted", s, a);
                MC_CHECK(q % (a ? a : 1) == 0 && q >= lo && q + s <= hi, "fixed:outside", "block %p size %zu outside the region or not aligned to %zu", p, s, a);
                for (auto &l : live)
                    MC_CHECK(q + s <= l.first || l.first + l.second <= q, "fixed:overlap", "blocks overlap");
                live[q] = s;
            } else
                MC_CHECK(!s || a == 3 || g < s + al, "fixed:refused", "alloc %zu align %zu = %d with %zu bytes free at once", s, a, r, g);
        } else {
            c -= 30;
            auto it = live.begin();
            std::advance(it, c / 3);
            if (c % 3 == 0) {
                mc_op("free %lx", (long)it->first);
                MC_CHECK(umfMemoryProviderFree(h, (void *)it->first, it->second + 1) != UMF_RESULT_SUCCESS, "fixed:badfree", "free with a wrong size accepted");
                r = umfMemoryProviderFree(h, (void *)it->first, it->second);
                MC_CHECK(r == UMF_RESULT_SUCCESS, "fixed:free", "free = %d", r);
                MC_CHECK(umfMemoryProviderFree(h, (void *)it->first, it->second) != UMF_RESULT_SUCCESS, "fixed:double", "second free accepted");
                live.erase(it);
            } else if (c % 3 == 1) {
                size_t t = it->second, f = t > PG ? PG : t / 2;
                mc_op("split %lx at %ld", (long)it->first, (long)f);
                r = umfMemoryProviderAllocationSplit(h, (void *)it->first, t, f);
                MC_CHECK((r == UMF_RESULT_SUCCESS) == (f > 0 && f < t), "fixed:split", "split of %zu at %zu = %d", t, f, r);
                if (r == UMF_RESULT_SUCCESS) {
                    it->second = f;
                    live[it->first + f] = t - f;
                }
            } else {
                auto nx = std::next(it);
                if (nx == live.end())
                    mc_prune();
                bool ok = it->first + it->second == nx->first;
                mc_op("merge %lx %lx", (long)it->first, (long)nx->first);
                r = umfMemoryProviderAllocationMerge(h, (void *)it->first, (void *)nx->first, it->second + nx->second);
                MC_CHECK((r == UMF_RESULT_SUCCESS) == ok, "fixed:merge", "merge of %s blocks = %d", ok ? "adjacent" : "separate", r);
                if (ok) {
                    it->second += nx->second;
                    live.erase(nx);
                }
            }
        }
        uint64_t hh = off * 131 + len;
        for (auto &l : live)
            hh = mc_mix(hh, l.first * 31 + l.second);
        mc_state(hh);
    }
    while (!live.empty()) {
        r = umfMemoryProviderFree(h, (void *)live.begin()->first, live.begin()->second);
        MC_CHECK(r == UMF_RESULT_SUCCESS, "fixed:free", "free = %d", r);
        live.erase(live.begin());
    }
    if (len > PG) {
        void *p = nullptr;
        r = umfMemoryProviderAlloc(h, len - PG, 0, &p);
        MC_CHECK(r == UMF_RESULT_SUCCESS && (uintptr_t)p >= lo && (uintptr_t)p + len - PG <= hi, "fixed:lost", "freed region cannot serve %zu of %zu bytes", len - PG, len);
    }
    umfMemoryProviderDestroy(h);
    lib.done();
}
int main(int argc, char **argv) {
    return mc_main(argc, argv, {{"hist", body_hist, false, x_down}, {"fixed", body_fixed, false, x_down}});
}
