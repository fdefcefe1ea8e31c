// C16: NUMA placement of the system-memory provider, over recorded (and refusable) bindings.
#include "numa.hpp"
static const std::vector<List> LISTS = {{}, {0}, {5}, {0, 2}, {2, 0}, {9, 0, 5}, {0, 2, 5, 9}, {2, 9, 2}};
static void body_place() {
    XLib lib;
    os_begin(), hw_begin();
    World w;
    Cfg &c = w.c;
    int part = (int)mc_param("split", 0), depth = (int)mc_param("depth", 2), maxp = (int)mc_param("maxparts", 3);
    std::vector<size_t> pages;
    if (part) {
        c.mode = UMF_NUMA_MODE_SPLIT;
        c.list = LISTS[1 + (size_t)mc_choose((int)LISTS.size() - 1)];
        int np = mc_choose(maxp + 1);
        static const unsigned W[] = {1, 2, 5, 0xffffffffu, 3};
        int nw = (int)mc_param("weights", 3);
        for (int i = 0; i < np; i++) {
            unsigned wt = W[mc_choose(nw)];
            c.parts.push_back({wt, c.list[(size_t)mc_choose((int)c.list.size())]});
        }
        pages = {1, 2, 3, 4, 5, 7, 8, 13, 16};
    } else {
        c.mode = (umf_numa_mode_t)mc_choose((int)UMF_NUMA_MODE_LOCAL + 1);
        c.list = LISTS[(size_t)mc_choose((int)LISTS.size())];
        static const size_t PS[] = {0, OS_PG, 2 * OS_PG, 1, OS_PG + 1, 3 * OS_PG};
        if (c.mode == UMF_NUMA_MODE_INTERLEAVE)
            c.part_size = PS[mc_choose(6)];
        if (!valid(c))
            mc_prune();
        pages = {1, 2, 3, 6, 7};
    }
    mc_op("mode %ld, %ld nodes, part size %ld, %ld partitions", (long)c.mode, (long)c.list.size(), (long)c.part_size, (long)c.parts.size());
    for (auto &p : c.parts)
        mc_op("  weight %ld node %ld", (long)p.weight, (long)p.target);
    MC_CHECK(make(c, &w.h) == UMF_RESULT_SUCCESS, "numa:create", "creation failed");
    OS.faults = (int)mc_param("oflt", 0) & ~OSF_MUNMAP;
    mc_ba_faults((int)mc_param("mflt", 0));
    HW.bind_errno = OS.faults && mc_choose(2) ? ENOSYS : EIO;
    for (int d = 0; d < depth; d++) {
        int nb = (int)w.blk.size();
        int k = mc_choose(nb + 3 * (int)pages.size());
        if (k < nb)
            do_free(w, (size_t)k);
        else {
            k -= nb;
            size_t n = pages[(size_t)k / 3] * OS_PG;
            static const size_t A[] = {0, 0, 4 * OS_PG};
            do_alloc(w, k % 3 == 1 ? n - 1 : n, A[k % 3]);
        }
    }
    OS.faults = 0;
    mc_ba_faults(0);
    do_alloc(w, 3 * OS_PG, 0);
    while (!w.blk.empty())
        do_free(w, 0);
    umfMemoryProviderDestroy(w.h);
    os_end(), hw_end();
    lib.done();
}
static void body_create() {
    XLib lib;
    os_begin(), hw_begin();
    World w;
    Cfg &c = w.c;
    c.mode = (umf_numa_mode_t)mc_choose((int)UMF_NUMA_MODE_LOCAL + 1);
    static const List L[] = {{}, {0}, {2, 0, 9}};
    c.list = L[mc_choose(3)];
    static const size_t PS[] = {0, OS_PG, SIZE_MAX, SIZE_MAX - OS_PG + 1, SIZE_MAX - OS_PG + 2};
    c.part_size = PS[mc_choose(5)];
    c.shared = mc_choose(2);
    static const std::vector<Part> PARTS[] = {{}, {{1, 0}}, {{0, 0}}, {{1, 0}, {0, 0}}, {{1, 5}}, {{1, 0}, {2, 7}}};
    c.parts = PARTS[mc_choose(6)];
    mc_op("mode %ld, %ld nodes, part size %ld, %ld partitions", (long)c.mode, (long)c.list.size(), (long)c.part_size, (long)c.parts.size());
    mc_op("shared %ld", c.shared);
    OS.faults = (int)mc_param("oflt", 0) & ~OSF_MUNMAP;
    mc_ba_faults((int)mc_param("mflt", 0));
    umf_result_t r = make(c, &w.h);
    bool f = mc_faults_used() > 0, ok = valid(c);
    OS.faults = 0;
    mc_ba_faults(0);
    mc_op("create = %ld", r);
    // partitions are documented for split mode only: elsewhere bad ones may be accepted
    if (r == UMF_RESULT_SUCCESS) {
        MC_CHECK(ok || (c.mode != UMF_NUMA_MODE_SPLIT && !c.parts.empty()), "numa:accepted", "invalid combination accepted");
        if (ok && c.part_size < SIZE_MAX / 2 && !c.shared) {
            do_alloc(w, 5 * OS_PG, 0);
            do_free(w, 0);
        }
        umfMemoryProviderDestroy(w.h);
    } else {
        MC_CHECK(!ok || f, "numa:rejected", "valid combination rejected with %d", r);
        MC_CHECK(!w.h, "numa:rejected", "failed creation returned a provider");
    }
    mc_outcome((uint64_t)r);
    mc_state((uint64_t)r * 64 + (uint64_t)c.mode);
    os_end(), hw_end();
    lib.done();
}
static void body_mt() {
    XLib lib;
    os_begin(), hw_begin();
    World w;
    Cfg &c = w.c;
    bool split = mc_choose(2);
    c.mode = split ? UMF_NUMA_MODE_SPLIT : UMF_NUMA_MODE_INTERLEAVE;
    c.list = {0, 2, 5};
    c.part_size = split ? 0 : OS_PG;
    MC_CHECK(make(c, &w.h) == UMF_RESULT_SUCCESS, "numa:create", "creation failed");
    int nt = (int)mc_param("threads", 2);
    std::vector<std::vector<Blk>> out((size_t)nt);
    std::vector<std::vector<size_t>> sz;
    static const std::vector<size_t> PROG[] = {{1, 2}, {2, 2}, {4, 1}};
    for (int t = 0; t < nt; t++)
        sz.push_back(PROG[mc_choose(3)]);
    std::vector<std::function<void()>> th;
    for (int t = 0; t < nt; t++)
        th.push_back([&, t] {
            for (size_t n : sz[(size_t)t]) {
                void *v = nullptr;
                mt_mark();
                umf_result_t r = umfMemoryProviderAlloc(w.h, n * OS_PG, 0, &v);
                MC_CHECK(r == UMF_RESULT_SUCCESS, "numa:refused", "alloc = %d", r);
                out[(size_t)t].push_back({(uintptr_t)v, n * OS_PG});
            }
        });
    mt_run(th, (int)mc_param("pb", 2));
    std::vector<std::vector<int>> first((size_t)nt);
    uint64_t o = 0;
    for (int t = 0; t < nt; t++)
        for (auto &b : out[(size_t)t]) {
            first[(size_t)t].push_back(check_block(w, b.p, b.size, -1));
            o = mc_mix(o, (uint64_t)first[(size_t)t].back());
        }
    mc_outcome(o), mc_state(o);
    if (!split) { // the starts are those of some order of the allocations
        std::function<bool(std::vector<size_t>, size_t)> order = [&](std::vector<size_t> at, size_t pos) -> bool {
            bool end = true;
            for (size_t t = 0; t < (size_t)nt; t++)
                if (at[t] < sz[t].size()) {
                    end = false;
                    if ((size_t)first[t][at[t]] == pos % 3) {
                        auto a2 = at;
                        a2[t]++;
                        if (order(a2, pos + sz[t][at[t]]))
                            return true;
                    }
                }
            return end;
        };
        MC_CHECK(order(std::vector<size_t>((size_t)nt, 0), 0), "numa:cycle", "concurrent blocks do not continue one cycle over the nodes");
    }
    w.cont = false;
    do_alloc(w, 3 * OS_PG, 0);
    for (auto &v : out)
        for (auto &b : v)
            w.blk.push_back(b);
    while (!w.blk.empty())
        do_free(w, 0);
    umfMemoryProviderDestroy(w.h);
    os_end(), hw_end();
    lib.done();
}
static void setup() {
    x_down();
    os_setup();
    hw_setup("numa:4(indexes=0,2,5,9) core:1 pu:1");
    for (int i = 0; i < 64; i++)
        if (hwloc_bitmap_isset(hwloc_topology_get_complete_nodeset(HW.real), (unsigned)i))
            ALLNODES |= (uint64_t)1 << i;
    MC_CHECK(ALLNODES == mask({0, 2, 5, 9}), "setup:topology", "unexpected nodes %lx", (long)ALLNODES);
}
int main(int argc, char **argv) {
    return mc_main(argc, argv, {{"place", body_place, false, setup}, {"create", body_create, false, setup}, {"mt", body_mt, false, setup}});
}
