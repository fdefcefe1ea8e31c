// C17: memory spaces and targets, over hwloc topologies built by the harness.
#include "numa.hpp"
#include <umf/memspace.h>
#include <umf/memtarget.h>
#include <umf/mempolicy.h>
static const unsigned NOSUCH = 7;
struct Topo {
    std::vector<unsigned> id;     // physical numbers, in the order hwloc lists them
    std::vector<uint64_t> cap;
    std::vector<int> group;       // nodes next to the same processors; -1: none
    std::vector<long> bw, lat;    // from the own group; -1: unknown
    size_t n() const { return id.size(); }
    long find(unsigned i) const {
        for (size_t k = 0; k < n(); k++)
            if (id[k] == i)
                return (long)k;
        return -1;
    }
};
static const char *SYN[] = {"", "numa:1(indexes=0) core:1 pu:1", "numa:2(indexes=3,0) core:1 pu:1", "numa:3(indexes=0,5,2) core:1 pu:1", "numa:4(indexes=0,2,5,9) core:1 pu:1"};
static const char *SYN_CONTIG[] = {"", "numa:1 core:1 pu:1", "numa:2 core:1 pu:1", "numa:3 core:1 pu:1", "numa:4 core:1 pu:1"};
static void topo_load(Topo &t, int n) {
    if (HW.real)
        __real_hwloc_topology_destroy(HW.real);
    HW.real = nullptr;
    hw_setup(mc_param("contig", 0) ? SYN_CONTIG[n] : SYN[n]);
    for (hwloc_obj_t o = nullptr; (o = hwloc_get_next_obj_by_type(HW.real, HWLOC_OBJ_NUMANODE, o));)
        t.id.push_back(o->os_index);
    MC_CHECK(t.id.size() == (size_t)n, "setup:topology", "%zu nodes", t.id.size());
    t.cap.assign((size_t)n, 1 << 20);
    t.bw.assign((size_t)n, -1), t.lat = t.bw;
    for (int i = 0; i < n; i++)
        t.group.push_back(i);
    ALLNODES = mask(t.id);
}
// puts what the harness chose into the topology
static void topo_apply(Topo &t) {
    size_t k = 0;
    for (hwloc_obj_t o = nullptr; (o = hwloc_get_next_obj_by_type(HW.real, HWLOC_OBJ_NUMANODE, o)); k++) {
        o->attr->numanode.local_memory = t.cap[k];
        hwloc_bitmap_zero(o->cpuset);
        if (t.group[k] >= 0)
            hwloc_bitmap_set(o->cpuset, (unsigned)t.group[k]);
    }
    k = 0;
    for (hwloc_obj_t o = nullptr; (o = hwloc_get_next_obj_by_type(HW.real, HWLOC_OBJ_NUMANODE, o)); k++) {
        if (t.group[k] < 0)
            continue;
        hwloc_location in;
        in.type = HWLOC_LOCATION_TYPE_CPUSET;
        in.location.cpuset = o->cpuset;
        if (t.bw[k] >= 0 && hwloc_memattr_set_value(HW.real, HWLOC_MEMATTR_ID_BANDWIDTH, o, &in, 0, (hwloc_uint64_t)t.bw[k]))
            mc_fail("setup:memattr", "cannot set bandwidth: %d", errno);
        if (t.lat[k] >= 0 && hwloc_memattr_set_value(HW.real, HWLOC_MEMATTR_ID_LATENCY, o, &in, 0, (hwloc_uint64_t)t.lat[k]))
            mc_fail("setup:memattr", "cannot set latency: %d", errno);
    }
    for (k = 0; k < t.n(); k++)
        mc_op("node %ld: capacity %lx group %ld bandwidth/latency %ld", t.id[k], (long)t.cap[k], t.group[k], t.bw[k] >= 0 ? t.bw[k] : t.lat[k]);
}
typedef std::vector<unsigned> Ids;
// the targets of a space, each checked against the machine
static Ids content(const Topo &t, umf_const_memspace_handle_t m) {
    Ids r;
    size_t n = umfMemspaceMemtargetNum(m);
    std::set<umf_const_memtarget_handle_t> seen;
    for (unsigned i = 0; i < n; i++) {
        umf_const_memtarget_handle_t g = umfMemspaceMemtargetGet(m, i);
        MC_CHECK(g && seen.insert(g).second, "mspace:get", "target %u of %zu is null or repeated", i, n);
        unsigned id = 99;
        umf_memtarget_type_t ty = UMF_MEMTARGET_TYPE_UNKNOWN;
        size_t cap = 12345;
        MC_CHECK(umfMemtargetGetId(g, &id) == UMF_RESULT_SUCCESS, "mtarget:id", "GetId failed");
        MC_CHECK(umfMemtargetGetType(g, &ty) == UMF_RESULT_SUCCESS && ty == UMF_MEMTARGET_TYPE_NUMA, "mtarget:type", "type %d", ty);
        umf_result_t c = umfMemtargetGetCapacity(g, &cap);
        long k = t.find(id);
        if (k < 0)
            MC_CHECK(c != UMF_RESULT_SUCCESS, "mtarget:capacity", "capacity of a node that does not exist");
        else
            MC_CHECK(c == UMF_RESULT_SUCCESS && cap == t.cap[(size_t)k], "mtarget:capacity", "node %u: result %d capacity %zu instead of %zu", id, c, cap, (size_t)t.cap[(size_t)k]);
        r.push_back(id);
    }
    MC_CHECK(!umfMemspaceMemtargetGet(m, (unsigned)n) && !umfMemspaceMemtargetGet(m, 0xffffffffu), "mspace:get", "target past the end");
    return r;
}
static Ids sorted(Ids a) {
    std::sort(a.begin(), a.end());
    return a;
}
static void check_host_all(const Topo &t, umf_const_memspace_handle_t m) {
    MC_CHECK(m, "mspace:host-all", "no host-all space");
    MC_CHECK(sorted(content(t, m)) == sorted(t.id), "mspace:host-all", "the host-all space does not hold every node once");
}
static void check_capacity(const Topo &t, umf_const_memspace_handle_t m) {
    MC_CHECK(m, "mspace:capacity", "no highest-capacity space");
    Ids c = content(t, m);
    MC_CHECK(sorted(c) == sorted(t.id), "mspace:capacity", "the highest-capacity space does not hold every node once");
    for (size_t i = 1; i < c.size(); i++)
        MC_CHECK(t.cap[(size_t)t.find(c[i - 1])] >= t.cap[(size_t)t.find(c[i])], "mspace:capacity", "nodes not in order of capacity: %u before %u", c[i - 1], c[i]);
}
static void check_best(const Topo &t, umf_const_memspace_handle_t m, bool latency) {
    const std::vector<long> &v = latency ? t.lat : t.bw;
    bool any = false, all = true;
    for (size_t i = 0; i < t.n(); i++)
        if (t.group[i] >= 0)
            (v[i] >= 0 ? any : all) = v[i] >= 0;
    if (!m) {
        MC_CHECK(!all, "mspace:best", "no space although every value is known");
        return;
    }
    Ids c = content(t, m);
    MC_CHECK(std::set<unsigned>(c.begin(), c.end()).size() == c.size(), "mspace:best", "a node is listed twice");
    bool some = false;
    for (size_t i = 0; i < t.n(); i++)
        some |= t.group[i] >= 0;
    MC_CHECK(any || !some, "mspace:best", "a space although no value is known");
    // the best nodes for each initiator
    std::set<unsigned> ok;
    for (size_t i = 0; i < t.n(); i++) {
        std::set<unsigned> best;
        long b = -1;
        for (size_t j = 0; j < t.n(); j++)
            if (t.group[i] >= 0 && t.group[j] == t.group[i] && v[j] >= 0 && (b < 0 || (latency ? v[j] < b : v[j] > b)))
                b = v[j];
        for (size_t j = 0; j < t.n(); j++)
            if (b < 0 || (t.group[j] == t.group[i] && v[j] == b))
                best.insert(t.id[j]);
        bool in = false;
        for (unsigned x : c)
            in |= best.count(x) > 0;
        MC_CHECK(in, "mspace:best", "no best node for initiator %u in the space", t.id[i]);
        ok.insert(best.begin(), best.end());
    }
    for (unsigned x : c)
        MC_CHECK(ok.count(x), "mspace:best", "node %u is not best from any initiator", x);
}
static umf_const_memspace_handle_t get(int kind) {
    switch (kind) {
    case 0:
        return umfMemspaceHostAllGet();
    case 1:
        return umfMemspaceHighestCapacityGet();
    case 2:
        return umfMemspaceHighestBandwidthGet();
    default:
        return umfMemspaceLowestLatencyGet();
    }
}
static void check(const Topo &t, int kind, umf_const_memspace_handle_t m) {
    if (kind == 0)
        check_host_all(t, m);
    else if (kind == 1)
        check_capacity(t, m);
    else
        check_best(t, m, kind == 3);
}
static void choose_values(Topo &t, int what) {
    static const uint64_t CAP[] = {2, 1, (uint64_t)1 << 32, ((uint64_t)1 << 63) + 1, 0};
    static const long V[] = {2, 1, -1, 3, (long)1 << 33};
    int nc = (int)mc_param("values", 4), ng = (int)mc_param("groups", 2);
    for (size_t i = 0; i < t.n(); i++) {
        if (what == 1)
            t.cap[i] = CAP[mc_choose(nc)];
        if (what >= 2) {
            t.group[i] = mc_choose(ng + 1) - 1;
            if (t.group[i] >= 0)
                (what == 2 ? t.bw : t.lat)[i] = V[mc_choose(nc)];
        }
    }
    topo_apply(t);
}
static void body_predef() {
    XLib lib;
    os_begin(), hw_begin();
    Topo t;
    int what = (int)mc_param("what", 1);
    topo_load(t, (int)mc_param("nodes", 3));
    choose_values(t, what);
    OS.faults = (int)mc_param("oflt", 0);
    mc_ba_faults((int)mc_param("mflt", 0));
    umf_const_memspace_handle_t m = get(what);
    bool f = mc_faults_used() > 0;
    OS.faults = 0;
    mc_ba_faults(0);
    mc_op("space has %ld targets", m ? (long)umfMemspaceMemtargetNum(m) : -1);
    if (!f || m)
        check(t, what, m);
    MC_CHECK(get(what) == m, "mspace:again", "a second query returns another space");
    umf_const_memspace_handle_t h = umfMemspaceHostAllGet();
    if (!f || h)
        check_host_all(t, h);
    mc_state(mc_mix((uint64_t)what, m ? (uint64_t)umfMemspaceMemtargetNum(m) : 99));
    // the next life of the library starts afresh, on a machine that may differ
    umfTearDown();
    hw_end();
    MC_CHECK(umfInit() == 0, "setup:init", "umfInit failed");
    check(t, what, get(what));
    check_host_all(t, umfMemspaceHostAllGet());
    os_end();
    lib.done();
    hw_end();
}
// ---- histories ------------------------------------------------------------------
struct FArg {
    umf_const_memspace_handle_t m;
    uint64_t keep;
    int fail_at, calls;
    size_t n;
    std::set<umf_const_memtarget_handle_t> seen;
};
static int user_filter(umf_const_memspace_handle_t m, umf_const_memtarget_handle_t g, void *a) {
    FArg *x = (FArg *)a;
    MC_CHECK(m == x->m && umfMemspaceMemtargetNum(m) == x->n, "mspace:filter-arg", "filter called with another or a changed space");
    MC_CHECK(x->seen.insert(g).second, "mspace:filter-arg", "filter called twice for a target");
    if (x->calls++ == x->fail_at)
        return -3;
    unsigned id;
    MC_CHECK(umfMemtargetGetId(g, &id) == UMF_RESULT_SUCCESS, "mspace:filter-arg", "bad target");
    return (x->keep >> id) & 1 ? 2 : 0;
}
static void body_hist() {
    XLib lib;
    os_begin(), hw_begin();
    Topo t;
    int N = (int)mc_param("nodes", 3), depth = (int)mc_param("depth", 3);
    topo_load(t, N);
    for (size_t i = 0; i < t.n(); i++)
        t.cap[i] = (uint64_t)1 << (30 + (i * 2) % 3 * 2); // 1, 16 and 4 GiB
    topo_apply(t);
    umf_const_memspace_handle_t all = umfMemspaceHostAllGet();
    struct Slot { umf_memspace_handle_t h = nullptr; Ids ids; } s[2];
    auto target = [&](unsigned id) {
        for (unsigned i = 0; i < umfMemspaceMemtargetNum(all); i++) {
            unsigned x;
            umf_const_memtarget_handle_t g = umfMemspaceMemtargetGet(all, i);
            if (umfMemtargetGetId(g, &x) == UMF_RESULT_SUCCESS && x == id)
                return g;
        }
        return (umf_const_memtarget_handle_t) nullptr;
    };
    mc_ba_faults((int)mc_param("mflt", 0));
    for (int d = 0; d < depth; d++) {
        int si = d ? mc_choose(2) : 0;
        Slot &x = s[si], &o = s[1 - si];
        if (!x.h && d && si && !s[0].h)
            mc_prune(); // symmetric
        Ids before = x.ids;
        umf_result_t r = UMF_RESULT_SUCCESS;
        Ids want = x.ids;
        umf_result_t expect = UMF_RESULT_SUCCESS;
        int f0 = mc_faults_used();
        bool made = !x.h;
        if (!x.h) {
            int k = mc_choose(o.h ? 6 : 5);
            umf_memspace_handle_t h = nullptr;
            if (k == 0) {
                r = umfMemspaceNew(&h);
                want = {};
            } else if (k < 4) {
                unsigned a = t.id[0], b = t.id[(size_t)N - 1];
                static const int LEN[] = {1, 2, 2};
                unsigned arr[2] = {k == 1 ? b : a, k == 2 ? b : NOSUCH};
                want.assign(arr, arr + LEN[k - 1]);
                r = umfMemspaceCreateFromNumaArray(arr, (size_t)LEN[k - 1], &h);
                arr[0] = arr[1] = 55; // copied
            } else if (k == 4) {
                r = umfMemspaceClone(all, &h);
                want = t.id;
            } else {
                r = umfMemspaceClone(o.h, &h);
                want = o.ids;
            }
            mc_op("slot %ld: create kind %ld = %ld", si, k, r);
            x.h = r == UMF_RESULT_SUCCESS ? h : nullptr;
        } else {
            int k = mc_choose(7);
            if (k == 0) {
                umfMemspaceDestroy(x.h);
                x.h = nullptr;
                want = {};
                mc_op("slot %ld: destroy", si);
            } else if (k == 1 || k == 2) { // add, remove through a target of another space
                int j = mc_choose(N + (o.h && !o.ids.empty() ? 1 : 0));
                unsigned id = j < N ? t.id[(size_t)j] : o.ids.back();
                umf_const_memtarget_handle_t g = j < N ? target(id) : nullptr;
                if (!g)
                    for (unsigned i = 0; i < o.ids.size(); i++) {
                        unsigned y;
                        if (umfMemtargetGetId(umfMemspaceMemtargetGet(o.h, i), &y) == UMF_RESULT_SUCCESS && y == id)
                            g = umfMemspaceMemtargetGet(o.h, i);
                    }
                bool in = std::count(want.begin(), want.end(), id) > 0;
                if (k == 1) {
                    r = umfMemspaceMemtargetAdd(x.h, g);
                    if (in)
                        expect = UMF_RESULT_ERROR_INVALID_ARGUMENT;
                    else
                        want.push_back(id);
                } else {
                    r = umfMemspaceMemtargetRemove(x.h, g);
                    if (!in)
                        expect = UMF_RESULT_ERROR_INVALID_ARGUMENT;
                    else
                        want.erase(std::find(want.begin(), want.end(), id));
                }
                mc_op(k == 1 ? "slot %ld: add node %ld = %ld" : "slot %ld: remove node %ld = %ld", si, id, r);
            } else if (k == 3) { // remove by the space's own handle
                if (want.empty())
                    mc_prune();
                unsigned i = (unsigned)mc_choose((int)want.size()), id = 0;
                umf_const_memtarget_handle_t g = umfMemspaceMemtargetGet(x.h, i);
                umfMemtargetGetId(g, &id);
                r = umfMemspaceMemtargetRemove(x.h, g);
                want.erase(std::find(want.begin(), want.end(), id));
                mc_op("slot %ld: remove own target %ld (node %ld) = %ld", si, i, id, r);
            } else if (k == 4) {
                std::vector<Ids> F = {{t.id[0]}, {t.id[(size_t)N - 1], NOSUCH}, {t.id[(size_t)N - 1], t.id[0]}, t.id, {63}};
                Ids f = F[(size_t)mc_choose((int)F.size())], f2 = f;
                r = umfMemspaceFilterById(x.h, f.data(), f.size());
                MC_CHECK(f == f2, "mspace:filter", "the list of nodes was modified");
                Ids w;
                for (unsigned id : want)
                    if (std::count(f.begin(), f.end(), id))
                        w.push_back(id);
                want = w;
                mc_op("slot %ld: filter by %ld ids = %ld", si, (long)f.size(), r);
            } else if (k == 5) {
                static const int64_t C[] = {0, (int64_t)1 << 30, ((int64_t)1 << 30) + 1, (int64_t)1 << 34, INT64_MAX, -1};
                int64_t c = C[mc_choose(6)];
                r = umfMemspaceFilterByCapacity(x.h, c);
                Ids w;
                for (unsigned id : want)
                    if (t.find(id) < 0)
                        expect = UMF_RESULT_ERROR_INVALID_ARGUMENT;
                    else if (t.cap[(size_t)t.find(id)] >= (uint64_t)c)
                        w.push_back(id);
                if (c < 0)
                    expect = UMF_RESULT_ERROR_INVALID_ARGUMENT;
                want = w;
                mc_op("slot %ld: filter by capacity %lx = %ld", si, (long)c, r);
            } else {
                FArg a{x.h, (uint64_t)mc_choose(3), -1, 0, want.size(), {}};
                a.keep = a.keep == 0 ? 0 : a.keep == 1 ? (uint64_t)1 << t.id[0] | 1 << NOSUCH : ~((uint64_t)1 << t.id[0]);
                a.fail_at = mc_choose((int)want.size() + 1) - 1;
                r = umfMemspaceUserFilter(x.h, user_filter, &a);
                if (a.fail_at >= 0)
                    expect = UMF_RESULT_ERROR_USER_SPECIFIC;
                else if (mc_faults_used() == f0)
                    MC_CHECK(a.calls == (int)want.size(), "mspace:filter", "filter called %d times for %zu targets", a.calls, want.size());
                Ids w;
                for (unsigned id : want)
                    if ((a.keep >> id) & 1)
                        w.push_back(id);
                want = w;
                mc_op("slot %ld: user filter %lx, failing at %ld = %ld", si, (long)a.keep, a.fail_at, r);
            }
        }
        bool f = mc_faults_used() > f0;
        if (f && r != UMF_RESULT_SUCCESS) {
            x.ids = before;
            MC_CHECK(r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY || r == expect, "mspace:result", "result %d when memory is short", r);
        } else {
            MC_CHECK(r == expect, "mspace:result", "result %d instead of %d", r, expect);
            x.ids = expect == UMF_RESULT_SUCCESS ? want : before;
        }
        if (made && r != UMF_RESULT_SUCCESS)
            MC_CHECK(!x.h, "mspace:result", "failed creation");
        for (auto &y : s)
            if (y.h)
                MC_CHECK(sorted(content(t, y.h)) == sorted(y.ids), "mspace:content", "slot %ld does not hold the expected nodes", (long)(&y - s));
        check_host_all(t, all);
        uint64_t st = 0;
        for (auto &y : s) {
            st = mc_mix(st, y.h ? 1 : 2);
            for (unsigned id : y.ids)
                st = mc_mix(st, id);
        }
        mc_state(st);
    }
    mc_ba_faults(0);
    for (auto &y : s)
        if (y.h) { // what is left still works
            umf_memspace_handle_t c = nullptr;
            MC_CHECK(umfMemspaceClone(y.h, &c) == UMF_RESULT_SUCCESS, "mspace:clone", "clone failed");
            umfMemspaceDestroy(y.h);
            MC_CHECK(sorted(content(t, c)) == sorted(y.ids), "mspace:clone", "the copy differs");
            umfMemspaceDestroy(c);
        }
    os_end();
    lib.done();
    hw_end();
}
// ---- providers -------------------------------------------------------------------
static void body_prov() {
    XLib lib;
    os_begin(), hw_begin();
    Topo t;
    topo_load(t, (int)mc_param("nodes", 4));
    size_t N = t.n();
    int rot = mc_choose((int)N);
    for (size_t i = 0; i < N; i++) {
        t.cap[i] = (uint64_t)(1 + (i + (size_t)rot) % N) << 31;
        t.group[i] = (int)i / 2;
        t.bw[i] = 10 + (long)((i + (size_t)rot) % N);
        t.lat[i] = 10 + (long)((i + (size_t)rot) % N);
    }
    topo_apply(t);
    int kind = mc_choose(8);
    umf_const_memspace_handle_t m = nullptr;
    umf_memspace_handle_t own = nullptr;
    if (kind < 4)
        m = get(kind);
    else if (kind == 4)
        umfMemspaceClone(get(1), &own);
    else if (kind == 5) {
        unsigned l[3] = {t.id[N - 1], t.id[0], t.id[N / 2]};
        umfMemspaceCreateFromNumaArray(l, N > 2 ? 3 : 1, &own);
    } else if (kind == 6) {
        umfMemspaceClone(get(0), &own);
        umfMemspaceMemtargetRemove(own, umfMemspaceMemtargetGet(own, 0));
        umfMemspaceMemtargetAdd(own, umfMemspaceMemtargetGet(get(0), 0));
        umfMemspaceMemtargetRemove(own, umfMemspaceMemtargetGet(own, 0));
    } else
        umfMemspaceNew(&own);
    if (own)
        m = own;
    if (kind < 4)
        check(t, kind, m);
    World w;
    Cfg &c = w.c;
    Ids ids = content(t, m);
    c.list.assign(ids.begin(), ids.end());
    if (kind == 1) // documented by the code base: the node of highest capacity
        for (unsigned i : ids)
            if (t.cap[(size_t)t.find(i)] == (uint64_t)N << 31)
                c.list = {i};
    int pol = mc_choose(9);
    umf_mempolicy_handle_t p = nullptr;
    std::vector<umf_mempolicy_split_partition_t> parts;
    umf_result_t pr = UMF_RESULT_SUCCESS;
    c.mode = UMF_NUMA_MODE_BIND;
    if (pol == 0) {
        if (kind == 0)
            c.mode = UMF_NUMA_MODE_DEFAULT, c.list.clear();
    } else if (pol == 1)
        pr = umfMempolicyCreate(UMF_MEMPOLICY_BIND, &p);
    else if (pol == 2) {
        pr = umfMempolicyCreate(UMF_MEMPOLICY_PREFERRED, &p);
        c.mode = UMF_NUMA_MODE_PREFERRED;
    } else if (pol < 6) {
        pr = umfMempolicyCreate(UMF_MEMPOLICY_INTERLEAVE, &p);
        c.mode = UMF_NUMA_MODE_INTERLEAVE;
        c.part_size = pol == 3 ? 0 : (size_t)(pol - 3) * OS_PG;
        if (pol > 3)
            MC_CHECK(umfMempolicySetInterleavePartSize(p, c.part_size) == UMF_RESULT_SUCCESS, "policy:set", "part size refused");
        MC_CHECK(umfMempolicySetCustomSplitPartitions(p, nullptr, 0) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "policy:set", "partitions accepted for interleave");
    } else {
        pr = umfMempolicyCreate(UMF_MEMPOLICY_SPLIT, &p);
        c.mode = UMF_NUMA_MODE_SPLIT;
        unsigned last = c.list.empty() ? 0 : c.list.back(), first = c.list.empty() ? 0 : c.list[0];
        if (pol == 7)
            c.parts = {{1, last}, {2, first}};
        else if (pol == 8)
            c.parts = {{1, NOSUCH}};
        for (auto &x : c.parts)
            parts.push_back({x.weight, x.target});
        if (pol > 6)
            MC_CHECK(umfMempolicySetCustomSplitPartitions(p, parts.data(), parts.size()) == UMF_RESULT_SUCCESS, "policy:set", "partitions refused");
        MC_CHECK(umfMempolicySetInterleavePartSize(p, 4096) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "policy:set", "part size accepted for split");
    }
    MC_CHECK(pr == UMF_RESULT_SUCCESS, "policy:create", "policy creation failed");
    mc_op("space kind %ld (%ld targets), policy %ld", kind, (long)ids.size(), pol);
    OS.faults = (int)mc_param("oflt", 0) & ~OSF_MUNMAP;
    mc_ba_faults((int)mc_param("mflt", 0));
    HW.bind_errno = EIO;
    umf_memory_pool_handle_t pool = nullptr;
    umf_result_t r = umfPoolCreateFromMemspace(m, p, &pool);
    MC_CHECK(r != UMF_RESULT_SUCCESS && !pool, "mspace:pool", "pool creation is not supported");
    r = umfMemoryProviderCreateFromMemspace(m, p, &w.h);
    bool f = mc_faults_used() > 0;
    mc_op("create provider = %ld", r);
    bool ok = !ids.empty() && valid(c);
    if (r == UMF_RESULT_SUCCESS) {
        MC_CHECK(ok, "mspace:provider", "provider created for an invalid request");
        OS.faults = 0;
        mc_ba_faults(0);
        umfMempolicyDestroy(p);
        p = nullptr;
        if (own)
            umfMemspaceDestroy(own); // the provider does not need it
        own = nullptr;
        for (auto &x : parts)
            x = {9, 61};
        do_alloc(w, 5 * OS_PG, 0);
        do_alloc(w, 4 * OS_PG - 1, 0);
        while (!w.blk.empty())
            do_free(w, 0);
        umfMemoryProviderDestroy(w.h);
    } else {
        MC_CHECK(!ok || f, "mspace:provider", "provider creation failed with %d", r);
        MC_CHECK(!w.h, "mspace:provider", "failed creation returned a provider");
    }
    OS.faults = 0;
    mc_ba_faults(0);
    mc_state(mc_mix((uint64_t)kind * 16 + (uint64_t)pol, (uint64_t)r));
    if (p)
        umfMempolicyDestroy(p);
    if (own)
        umfMemspaceDestroy(own);
    os_end();
    lib.done();
    hw_end();
}
// ---- invalid arguments -------------------------------------------------------------
static void body_args() {
    XLib lib;
    os_begin(), hw_begin();
    Topo t;
    topo_load(t, 2);
    topo_apply(t);
    umf_const_memspace_handle_t all = umfMemspaceHostAllGet();
    umf_const_memtarget_handle_t g = umfMemspaceMemtargetGet(all, 0);
    umf_memspace_handle_t m = nullptr, bad = nullptr;
    umf_memory_provider_handle_t ph = nullptr;
    umf_memory_pool_handle_t pool = nullptr;
    unsigned ids[2] = {t.id[0], t.id[1]};
    MC_CHECK(umfMemspaceClone(all, &m) == UMF_RESULT_SUCCESS, "mspace:clone", "clone failed");
    int k = mc_choose(24);
    umf_result_t r = UMF_RESULT_SUCCESS;
    size_t cap;
    unsigned id;
    umf_memtarget_type_t ty;
    switch (k) {
    case 0: r = umfMemspaceNew(nullptr); break;
    case 1: r = umfMemspaceClone(nullptr, &bad); break;
    case 2: r = umfMemspaceClone(m, nullptr); break;
    case 3: r = umfMemspaceMemtargetAdd(nullptr, g); break;
    case 4: r = umfMemspaceMemtargetAdd(m, nullptr); break;
    case 5: r = umfMemspaceMemtargetRemove(nullptr, g); break;
    case 6: r = umfMemspaceMemtargetRemove(m, nullptr); break;
    case 7: r = umfMemspaceFilterById(nullptr, ids, 1); break;
    case 8: r = umfMemspaceFilterById(m, nullptr, 1); break;
    case 9: r = umfMemspaceFilterById(m, ids, 0); break;
    case 10: r = umfMemspaceFilterByCapacity(nullptr, 1); break;
    case 11: r = umfMemspaceFilterByCapacity(m, INT64_MIN); break;
    case 12: r = umfMemspaceUserFilter(nullptr, user_filter, nullptr); break;
    case 13: r = umfMemspaceUserFilter(m, nullptr, nullptr); break;
    case 14: r = umfMemspaceCreateFromNumaArray(nullptr, 1, &bad); break;
    case 15: r = umfMemspaceCreateFromNumaArray(ids, 0, &bad); break;
    case 16: r = umfMemspaceCreateFromNumaArray(ids, 1, nullptr); break;
    case 17: r = umfMemtargetGetCapacity(nullptr, &cap); break;
    case 18: r = umfMemtargetGetCapacity(g, nullptr); break;
    case 19: r = mc_choose(2) ? umfMemtargetGetId(nullptr, &id) : umfMemtargetGetId(g, nullptr); break;
    case 20: r = mc_choose(2) ? umfMemtargetGetType(nullptr, &ty) : umfMemtargetGetType(g, nullptr); break;
    case 21: r = mc_choose(2) ? umfMemoryProviderCreateFromMemspace(nullptr, nullptr, &ph) : umfMemoryProviderCreateFromMemspace(m, nullptr, nullptr); break;
    case 22: r = mc_choose(2) ? umfPoolCreateFromMemspace(nullptr, nullptr, &pool) : umfPoolCreateFromMemspace(m, nullptr, nullptr); break;
    case 23: r = mc_choose(2) ? umfMempolicySetInterleavePartSize(nullptr, 1) : umfMempolicySetCustomSplitPartitions(nullptr, nullptr, 0); break;
    }
    mc_op("case %ld = %ld", k, r);
    MC_CHECK(r == UMF_RESULT_ERROR_INVALID_ARGUMENT && !bad && !ph && !pool, "mspace:invalid", "invalid call %d returned %d", k, r);
    MC_CHECK(umfMemspaceMemtargetNum(nullptr) == 0 && !umfMemspaceMemtargetGet(nullptr, 0), "mspace:invalid", "null space has targets");
    MC_CHECK(sorted(content(t, m)) == sorted(t.id), "mspace:content", "space changed");
    check_host_all(t, all);
    mc_state((uint64_t)k);
    umfMemspaceDestroy(m);
    os_end();
    lib.done();
    hw_end();
}
// ---- concurrent first queries -------------------------------------------------------
static void body_mt() {
    XLib lib;
    os_begin(), hw_begin();
    Topo t;
    topo_load(t, 3);
    for (size_t i = 0; i < t.n(); i++) {
        t.cap[i] = (uint64_t)(1 + (i + 1) % 3) << 30;
        t.group[i] = i ? 1 : 0;
        t.bw[i] = 5 + (long)i, t.lat[i] = 9 - (long)i;
    }
    topo_apply(t);
    int nt = (int)mc_param("threads", 2);
    std::vector<int> kind;
    std::vector<umf_const_memspace_handle_t> out((size_t)nt);
    for (int i = 0; i < nt; i++)
        kind.push_back(mc_choose(4));
    for (int i = 1; i < nt; i++)
        if (kind[(size_t)i] < kind[(size_t)i - 1])
            mc_prune();
    std::vector<std::function<void()>> th;
    for (int i = 0; i < nt; i++)
        th.push_back([&, i] {
            out[(size_t)i] = get(kind[(size_t)i]);
            check(t, kind[(size_t)i], out[(size_t)i]);
        });
    mt_run(th, (int)mc_param("pb", 2));
    for (int i = 0; i < nt; i++)
        MC_CHECK(get(kind[(size_t)i]) == out[(size_t)i], "mspace:again", "threads got different spaces");
    MC_CHECK(HW.topos == 1, "mspace:topology", "%d topologies", HW.topos);
    mc_outcome((uint64_t)kind[0] * 8 + (uint64_t)kind.back());
    mc_state((uint64_t)kind[0] * 8 + (uint64_t)kind.back());
    os_end();
    lib.done();
    hw_end();
}
static void setup() {
    x_down();
    os_setup();
}
int main(int argc, char **argv) {
    return mc_main(argc, argv, {{"predef", body_predef, false, setup}, {"hist", body_hist, false, setup}, {"prov", body_prov, false, setup}, {"args", body_args, false, setup}, {"mt", body_mt, false, setup}});
}
