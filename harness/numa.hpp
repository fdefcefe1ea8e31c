// Oracle for NUMA placement: which nodes every page of a block must be bound to.
#pragma once
#include "osmodel.hpp"
#include "umfx.hpp"
#include <umf/providers/provider_os_memory.h>
typedef std::vector<unsigned> List;
struct Part { unsigned weight, target; };
struct Cfg {
    umf_numa_mode_t mode = UMF_NUMA_MODE_DEFAULT;
    List list;
    size_t part_size = 0;
    std::vector<Part> parts;
    bool shared = false;
};
static size_t up(size_t n, size_t a = OS_PG) { return (n + a - 1) / a * a; }
static uint64_t ALLNODES;
static uint64_t mask(const List &l) {
    uint64_t m = 0;
    for (unsigned n : l)
        m |= (uint64_t)1 << n;
    return m;
}
struct Blk { uintptr_t p; size_t size; };
struct World {
    Cfg c;
    umf_memory_provider_handle_t h = nullptr;
    std::vector<Blk> blk;
    bool cont = true; // the position in the interleaving cycle is known
    uint64_t parts_done = 0;
    uint64_t binds_at = 0;
};
static umf_result_t make(const Cfg &c, umf_memory_provider_handle_t *h) {
    *h = nullptr;
    umf_os_memory_provider_params_handle_t p = nullptr;
    umf_result_t r = umfOsMemoryProviderParamsCreate(&p);
    if (r != UMF_RESULT_SUCCESS)
        return r;
    List l = c.list;
    std::vector<umf_numa_split_partition_t> v;
    for (auto &x : c.parts)
        v.push_back({x.weight, x.target});
    // an earlier setting must be replaced
    unsigned other[2] = {7, 8};
    umf_numa_split_partition_t op{9, 9};
    r = umfOsMemoryProviderParamsSetNumaList(p, other, 2);
    if (r == UMF_RESULT_SUCCESS)
        r = umfOsMemoryProviderParamsSetPartitions(p, &op, 1);
    if (r == UMF_RESULT_SUCCESS)
        r = umfOsMemoryProviderParamsSetNumaList(p, l.data(), (unsigned)l.size());
    if (r == UMF_RESULT_SUCCESS)
        r = umfOsMemoryProviderParamsSetPartitions(p, v.data(), (unsigned)v.size());
    if (r == UMF_RESULT_SUCCESS)
        r = umfOsMemoryProviderParamsSetNumaMode(p, c.mode);
    if (r == UMF_RESULT_SUCCESS)
        r = umfOsMemoryProviderParamsSetPartSize(p, c.part_size);
    if (r == UMF_RESULT_SUCCESS && c.shared)
        r = umfOsMemoryProviderParamsSetVisibility(p, UMF_MEM_MAP_SHARED);
    // the arrays were copied
    for (auto &x : l)
        x = 60;
    for (auto &x : v)
        x = {77, 61};
    if (r == UMF_RESULT_SUCCESS)
        r = umfMemoryProviderCreate(umfOsMemoryProviderOps(), p, h);
    umfOsMemoryProviderParamsDestroy(p);
    return r;
}
static bool valid(const Cfg &c) {
    if (c.shared && c.mode != UMF_NUMA_MODE_DEFAULT)
        return false;
    bool empty = c.list.empty();
    if ((c.mode == UMF_NUMA_MODE_DEFAULT || c.mode == UMF_NUMA_MODE_LOCAL) && !empty)
        return false;
    if ((c.mode == UMF_NUMA_MODE_BIND || c.mode == UMF_NUMA_MODE_INTERLEAVE || c.mode == UMF_NUMA_MODE_SPLIT) && empty)
        return false;
    if (c.mode == UMF_NUMA_MODE_INTERLEAVE && c.part_size > SIZE_MAX - OS_PG + 1)
        return false;
    for (auto &p : c.parts) {
        bool in = false;
        for (unsigned n : c.list)
            in |= n == p.target;
        if (!p.weight || !in)
            return false;
    }
    return true;
}
// the nodes page i of n must be bound to in split mode
static uint64_t split_nodes(const Cfg &c, size_t i, size_t n) {
    std::vector<Part> v = c.parts;
    if (v.empty())
        for (unsigned x : c.list)
            v.push_back({1, x});
    unsigned __int128 sum = 0, cum = 0;
    for (auto &p : v)
        sum += p.weight;
    uint64_t m = 0;
    for (auto &p : v) { // share [n*cum, n*(cum+weight)) / sum of the pages
        unsigned __int128 lo = (unsigned __int128)n * cum, hi = lo + (unsigned __int128)n * p.weight;
        cum += p.weight;
        if (lo < (unsigned __int128)(i + 1) * sum && hi > (unsigned __int128)i * sum)
            m |= (uint64_t)1 << p.target;
    }
    return m;
}
static int node_index(const Cfg &c, uint64_t nodes, size_t from) {
    for (size_t k = 0; k < c.list.size(); k++)
        if (nodes == (uint64_t)1 << c.list[(from + k) % c.list.size()])
            return (int)((from + k) % c.list.size());
    return -1;
}
// the index in the list of the first part, in interleave mode
static int check_block(World &w, uintptr_t p, size_t size, int want) {
    const Cfg &c = w.c;
    size_t n = up(size) / OS_PG;
    std::vector<const OsBind *> at(n, nullptr);
    for (size_t k = w.binds_at; k < HW.binds.size(); k++) {
        const OsBind &b = HW.binds[k];
        if (b.a + b.n <= p || b.a >= p + n * OS_PG)
            continue;
        MC_CHECK(b.n && b.a >= p && b.a + b.n <= p + n * OS_PG, "numa:outside", "binding +%lx size %zx reaches out of the block", (long)(b.a - OS_ARENA), b.n);
        for (uintptr_t a = b.a / OS_PG * OS_PG; a < b.a + b.n; a += OS_PG) {
            size_t i = (a - p) / OS_PG;
            MC_CHECK(!at[i], "numa:twice", "page %zu of the block is bound twice", i);
            at[i] = &b;
        }
    }
    if (c.mode == UMF_NUMA_MODE_DEFAULT) {
        for (auto b : at)
            MC_CHECK(!b || b->policy == HWLOC_MEMBIND_DEFAULT, "numa:default", "memory bound in default mode");
        return 0;
    }
    if (c.mode == UMF_NUMA_MODE_LOCAL) {
        for (auto b : at)
            MC_CHECK(!b || b->policy == HWLOC_MEMBIND_FIRSTTOUCH || (b->policy == HWLOC_MEMBIND_BIND && b->nodes == ALLNODES && !(b->flags & HWLOC_MEMBIND_STRICT)), "numa:local", "memory restricted to nodes %lx in local mode", (long)b->nodes);
        return 0;
    }
    for (size_t i = 0; i < n; i++) {
        MC_CHECK(at[i], "numa:unbound", "page %zu of %zu is not bound", i, n);
        MC_CHECK(at[i]->flags & HWLOC_MEMBIND_BYNODESET, "numa:flags", "nodes passed as a set of processors");
    }
    uint64_t all = mask(c.list);
    size_t psz = up(c.part_size);
    if (c.mode == UMF_NUMA_MODE_INTERLEAVE && c.part_size && c.list.size() > 1) {
        int first = -1;
        for (int f = 0; f < (int)c.list.size() && first < 0; f++) {
            bool ok = want < 0 || f == want;
            for (size_t i = 0; i < n && ok; i++)
                ok = at[i]->nodes == (uint64_t)1 << c.list[((size_t)f + i * OS_PG / psz) % c.list.size()];
            if (ok)
                first = f;
        }
        if (first < 0 && node_index(c, at[0]->nodes, 0) >= 0) {
            char s[200];
            int o = 0;
            for (size_t i = 0; i < n && i < 12; i++)
                o += snprintf(s + o, sizeof s - (size_t)o, " %lx", (long)at[i]->nodes);
            mc_fail("numa:cycle", "parts are not bound to the listed nodes in turn%s: node sets of the pages%s", want >= 0 ? " (continuing after the previous block)" : "", s);
        }
        MC_CHECK(first >= 0, "numa:cycle", "first part bound to nodes %lx", (long)at[0]->nodes);
        for (size_t i = 0; i < n; i++)
            MC_CHECK(at[i]->policy == HWLOC_MEMBIND_BIND && (at[i]->flags & HWLOC_MEMBIND_STRICT), "numa:policy", "part bound with policy %d flags %d", at[i]->policy, at[i]->flags);
        return first;
    }
    for (size_t i = 0; i < n; i++) {
        const OsBind *b = at[i];
        switch (c.mode) {
        case UMF_NUMA_MODE_BIND:
            MC_CHECK(b->nodes == all && b->policy == HWLOC_MEMBIND_BIND && (b->flags & HWLOC_MEMBIND_STRICT), "numa:bind", "page %zu bound to nodes %lx policy %d flags %d", i, (long)b->nodes, b->policy, b->flags);
            break;
        case UMF_NUMA_MODE_PREFERRED:
            MC_CHECK(b->nodes == (all ? all : ALLNODES) && b->policy == HWLOC_MEMBIND_BIND && !(b->flags & HWLOC_MEMBIND_STRICT), "numa:preferred", "page %zu bound to nodes %lx policy %d flags %d", i, (long)b->nodes, b->policy, b->flags);
            break;
        case UMF_NUMA_MODE_INTERLEAVE:
            if (c.list.size() > 1) // spread by the kernel over the whole block: one range
                MC_CHECK(b->nodes == all && b->policy == HWLOC_MEMBIND_INTERLEAVE && b == at[0], "numa:interleave", "page %zu bound to nodes %lx policy %d", i, (long)b->nodes, b->policy);
            else
                MC_CHECK(b->nodes == all && (b->policy == HWLOC_MEMBIND_INTERLEAVE || b->policy == HWLOC_MEMBIND_BIND), "numa:interleave", "page %zu bound to nodes %lx policy %d", i, (long)b->nodes, b->policy);
            break;
        case UMF_NUMA_MODE_SPLIT:
            MC_CHECK(b->nodes == split_nodes(c, i, n), "numa:split", "page %zu of %zu bound to nodes %lx instead of %lx", i, n, (long)b->nodes, (long)split_nodes(c, i, n));
            MC_CHECK(b->policy == HWLOC_MEMBIND_BIND && (b->flags & HWLOC_MEMBIND_STRICT), "numa:policy", "part bound with policy %d flags %d", b->policy, b->flags);
            break;
        default:
            break;
        }
    }
    return 0;
}
static void do_alloc(World &w, size_t size, size_t align) {
    w.binds_at = HW.binds.size();
    size_t m0 = OS.mapped();
    long b0 = HW.bitmaps;
    int r0 = mc_faults_used();
    void *v = nullptr;
    umf_result_t r = umfMemoryProviderAlloc(w.h, size, align, &v);
    bool f = mc_faults_used() > r0;
    mc_op("alloc size %lx align %lx = %ld (+%lx)", (long)size, (long)align, r, r ? 0 : (long)((uintptr_t)v - OS_ARENA));
    MC_CHECK(HW.bitmaps == b0, "numa:leak-bitmap", "the allocation left %ld node sets", HW.bitmaps - b0);
    const Cfg &c = w.c;
    size_t psz = up(c.part_size);
    bool inter = c.mode == UMF_NUMA_MODE_INTERLEAVE && c.part_size && c.list.size() > 1;
    if (r != UMF_RESULT_SUCCESS) {
        MC_CHECK(f, "numa:refused", "alloc = %d although nothing failed", r);
        MC_CHECK(OS.mapped() == m0, "numa:leak", "failed alloc left a mapping");
        const char *msg = nullptr;
        int32_t e = 0;
        umfMemoryProviderGetLastNativeError(w.h, &msg, &e);
        MC_CHECK(msg && umfGetLastFailedMemoryProvider() == w.h, "numa:message", "no message after a failed allocation");
        w.cont = false;
        return;
    }
    MC_CHECK(!f || HW.bind_errno == ENOSYS || c.mode == UMF_NUMA_MODE_DEFAULT, "numa:ignored", "a refused binding was ignored");
    uintptr_t p = (uintptr_t)v;
    MC_CHECK(OS.covered(p, size) && (!align || p % align == 0), "numa:block", "block not mapped or misaligned");
    if (!f) {
        bool whole = inter && c.part_size == psz;
        int first = check_block(w, p, size, whole && w.cont ? (int)(w.parts_done % c.list.size()) : -1);
        mc_state(mc_mix((uint64_t)c.mode * 64 + (uint64_t)first, size * 31 + c.part_size));
    } else
        w.cont = false;
    if (inter && up(size) % psz)
        w.cont = false;
    else if (inter)
        w.parts_done += up(size) / psz;
    w.blk.push_back({p, size});
}
static void do_free(World &w, size_t i) {
    MC_CHECK(umfMemoryProviderFree(w.h, (void *)w.blk[i].p, w.blk[i].size) == UMF_RESULT_SUCCESS, "numa:free", "free failed");
    mc_op("free block %ld", (long)i);
    w.blk.erase(w.blk.begin() + (long)i);
}
