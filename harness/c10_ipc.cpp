// C10/C11: inter-process handles: get, put, open, close over model providers.
#include "lin.hpp"
#include "umfx.hpp"
#include <algorithm>
#include <umf/ipc.h>
extern "C" {
#include "ipc_internal.h"
}
static const int NPOOL = 3;
struct Pool {
    XProv x;
    PPool pp;
    umf_memory_provider_handle_t hp = nullptr;
    umf_memory_pool_handle_t h = nullptr;
    umf_ipc_handler_handle_t ih = nullptr;
    bool up = false;
    void create() {
        hp = x_provider(&x);
        umf_result_t r = umfPoolCreate(&PP_OPS, hp, &pp, 0, &h);
        MC_CHECK(r == UMF_RESULT_SUCCESS, "setup:pool", "umfPoolCreate = %d", r);
        r = umfPoolGetIPCHandler(h, &ih);
        MC_CHECK(r == UMF_RESULT_SUCCESS && ih, "setup:handler", "umfPoolGetIPCHandler = %d", r);
        up = true;
    }
    void destroy() {
        umfPoolDestroy(h);
        umfMemoryProviderDestroy(hp);
        up = false;
        MC_CHECK(x.maps.empty() && x.n_open == x.n_close, "ipc:unclosed", "pool %d destroyed, %zu of its mappings are still open", x.id, x.maps.size());
        MC_CHECK(x.handles.empty() && x.n_get == x.n_put, "ipc:unput", "pool %d destroyed, %zu handles not given back to the provider", x.id, x.handles.size());
    }
};
struct Slot {
    int pool;
    size_t size;
    char *p = nullptr;
    long gen = 0;
};
struct Hnd { // a handle as its owner knows it
    umf_ipc_handle_t h;
    int slot;
    long gen;
    size_t off;
    int pid; // 0: this process
    size_t len;
};
struct Cached { // a mapping held open by the library
    int imp;
    int slot, pid;
    long gen;
    int refs;
    uintptr_t map;
    long mapid;
    long used;
    bool closed = false;
};
struct Opn {
    int c; // index of the mapping
    char *ptr;
};
struct World {
    Pool P[NPOOL];
    std::vector<Slot> S{{0, 8192}, {0, 4096}, {1, 4096}};
    std::vector<Hnd> H;
    std::vector<Cached> C;
    std::vector<Opn> O;
    int max = 0;
    long now = 0;
    std::vector<std::vector<long>> failed; // entries a failed open may have left in the cache
    void alloc(int s) {
        Slot &z = S[(size_t)s];
        void *p = nullptr;
        mc_op("pool %ld allocates slot %ld", z.pool, s);
        umf_result_t r = umfMemoryProviderAlloc(P[z.pool].pp.prov, z.size, 0, &p);
        if (r != UMF_RESULT_SUCCESS) {
            MC_CHECK(mc_faults_used(), "ipc:alloc", "allocation failed (%d)", r);
            return;
        }
        z.p = (char *)p;
        z.gen = P[z.pool].x.live[(uintptr_t)p].gen;
    }
    void free_(int s) {
        Slot &z = S[(size_t)s];
        mc_op("pool %ld frees slot %ld", z.pool, s);
        umf_result_t r = umfMemoryProviderFree(P[z.pool].pp.prov, z.p, z.size);
        if (r != UMF_RESULT_SUCCESS) {
            MC_CHECK(mc_faults_used(), "ipc:free", "free failed (%d)", r);
            // still allocated, but possibly no longer known to the library; not used again
        }
        z.p = nullptr;
        z.gen = 0;
    }
    bool get(int s, size_t off) {
        Slot &z = S[(size_t)s];
        umf_ipc_handle_t h = nullptr;
        size_t len = 0, want = 0;
        mc_op("get handle of slot %ld + %ld", s, (long)off);
        int f0 = mc_faults_used();
        umf_result_t r = umfGetIPCHandle(z.p + off, &h, &len);
        bool f = mc_faults_used() > f0;
        if (r != UMF_RESULT_SUCCESS) {
            MC_CHECK(f, "ipc:get", "umfGetIPCHandle of live memory = %d", r);
            return false;
        }
        int xf = P[z.pool].x.faults;
        P[z.pool].x.faults = 0;
        MC_CHECK(h && umfPoolGetIPCHandleSize(P[z.pool].h, &want) == UMF_RESULT_SUCCESS && len == want, "ipc:size", "handle size %zu reported as %zu", want, len);
        P[z.pool].x.faults = xf;
        H.push_back({h, s, z.gen, off, 0, len});
        return true;
    }
    // a handle made by another process that has memory at the same address
    void remote(int s, int pid) {
        size_t n0 = H.size();
        if (!get(s, 0))
            return;
        Hnd &a = H[n0];
        mc_op("  handle comes from process %ld", pid);
        a.h->pid += pid;
        XIpc d;
        memcpy(&d, a.h->providerIpcData, sizeof d);
        d.gen += 1000 * pid;
        memcpy(a.h->providerIpcData, &d, sizeof d);
        a.pid = pid;
        a.gen += 1000 * pid;
    }
    void put(int i) {
        mc_op("put handle %ld", i);
        umf_result_t r = umfPutIPCHandle(H[(size_t)i].h);
        MC_CHECK(r == UMF_RESULT_SUCCESS, "ipc:put", "umfPutIPCHandle = %d", r);
        H.erase(H.begin() + i);
    }
    bool usable(const Hnd &h) const { return h.pid || S[(size_t)h.slot].gen == h.gen; }
    // after every step: mappings in use are open, mappings that went away were idle
    void sync(int imp, int slot, int pid, long gen, bool opening, size_t before) {
        std::vector<int> gone;
        for (size_t i = 0; i < C.size(); i++) {
            Cached &c = C[i];
            if (c.closed)
                continue;
            auto it = P[c.imp].x.maps.find(c.map);
            bool there = it != P[c.imp].x.maps.end() && it->second.id == c.mapid;
            if (there)
                continue;
            MC_CHECK(c.refs == 0, "ipc:closed-in-use", "mapping of slot %d gen %ld was closed although it is open %d times", c.slot, c.gen, c.refs);
            c.closed = true;
            gone.push_back((int)i);
        }
        (void)before;
        for (int g : gone) {
            Cached &c = C[(size_t)g];
            MC_CHECK(opening, "ipc:early-close", "idle mapping closed by a call that opens nothing");
            if (c.imp == imp && c.slot == slot && c.pid == pid && c.gen != gen)
                continue; // outdated
            for (auto &d : C)
                MC_CHECK(d.closed || d.refs || d.used > c.used, "ipc:not-lru", "mapping of slot %d (importer %d) evicted although the one of slot %d (importer %d) was used less recently", c.slot, c.imp, d.slot, d.imp);
        }
    }
    size_t total() const {
        size_t n = 0;
        for (auto &c : C)
            n += !c.closed;
        return n;
    }
    bool idle() const {
        for (auto &c : C)
            if (!c.closed && !c.refs)
                return true;
        return false;
    }
    void open(int hi, int imp) {
        Hnd &h = H[(size_t)hi];
        Pool &q = P[imp];
        void *ptr = (void *)16;
        size_t before = total();
        bool had_idle = idle();
        long no = q.x.n_open;
        int f0 = mc_faults_used();
        mc_op("open handle %ld (slot %ld gen %ld) through pool %ld", hi, h.slot, h.gen, imp);
        umf_result_t r = umfOpenIPCHandle(q.ih, h.h, &ptr);
        now++;
        bool f = mc_faults_used() > f0;
        sync(imp, h.slot, h.pid, h.gen, true, before);
        if (r != UMF_RESULT_SUCCESS) {
            MC_CHECK(f, "ipc:open", "umfOpenIPCHandle = %d", r);
            failed.push_back({imp, h.slot, h.pid, h.gen});
            MC_CHECK(q.x.maps.size() == (size_t)std::count_if(C.begin(), C.end(), [&](Cached &c) { return !c.closed && c.imp == imp; }), "ipc:half-open", "failed open left a mapping open");
            return;
        }
        uintptr_t base = (uintptr_t)ptr - h.off;
        auto it = q.x.maps.find(base);
        MC_CHECK(it != q.x.maps.end(), "ipc:unmapped", "open returned %p (offset %zu), not at that offset of a mapping of pool %d", ptr, h.off, imp);
        XIpc &d = it->second.h;
        MC_CHECK(d.gen == h.gen && d.prov == S[(size_t)h.slot].pool && d.size == S[(size_t)h.slot].size, "ipc:stale", "open returned a mapping of gen %ld of provider %ld (size %zu), the handle is of gen %ld", d.gen, d.prov, d.size, h.gen);
        int k = -1;
        for (size_t i = 0; i < C.size(); i++) {
            Cached &c = C[i];
            if (c.closed || c.imp != imp)
                continue;
            if (c.map == base && c.mapid == it->second.id)
                k = (int)i;
            else
                MC_CHECK(!(c.refs && c.gen == h.gen && c.slot == h.slot), "ipc:not-shared", "second open of slot %d gives another mapping", h.slot);
        }
        if (k < 0) {
            C.push_back({imp, h.slot, h.pid, h.gen, 0, base, it->second.id, now});
            k = (int)C.size() - 1;
            MC_CHECK(q.x.n_open == no + 1, "ipc:opens", "%ld opens for one new mapping", q.x.n_open - no);
            auto fe = std::find(failed.begin(), failed.end(), std::vector<long>{imp, h.slot, h.pid, h.gen});
            if (fe != failed.end())
                failed.erase(fe);
            else if (max && before >= (size_t)max && had_idle && total() > before && !failed.empty())
                failed.erase(failed.begin()); // took the place of that one
            else if (max && before >= (size_t)max && had_idle)
                MC_CHECK(total() <= before, "ipc:limit", "%zu mappings cached with limit %d, idle ones were not evicted", total(), max);
        } else
            MC_CHECK(q.x.n_open == no, "ipc:opens", "mapping opened again");
        C[(size_t)k].refs++;
        C[(size_t)k].used = now;
        O.push_back({k, (char *)ptr});
        q.x.map_top = q.x.map_top; // keep
    }
    void close(int i) {
        Opn o = O[(size_t)i];
        Cached &c = C[(size_t)o.c];
        mc_op("close %ld (slot %ld gen %ld importer %ld)", i, c.slot, c.gen, c.imp);
        umf_result_t r = umfCloseIPCHandle(o.ptr);
        MC_CHECK(r == UMF_RESULT_SUCCESS || mc_faults_used(), "ipc:close", "umfCloseIPCHandle = %d", r);
        c.refs--;
        O.erase(O.begin() + i);
        // closing may release the mapping at once (nothing promises it stays)
        if (!c.refs && !P[c.imp].x.maps.count(c.map))
            c.closed = true;
        sync(-1, -1, -1, -1, false, 0);
    }
    void bogus() {
        mc_op("close of addresses that are not open");
        uintptr_t bad[] = {X_ARENA - 16, X_ARENA + X_STEP / 2 - 1, (uintptr_t)S[0].p};
        for (uintptr_t b : bad) {
            if (!b)
                continue;
            MC_CHECK(umfCloseIPCHandle((void *)b) != UMF_RESULT_SUCCESS, "ipc:bogus-close", "close of %lx accepted", (unsigned long)b);
        }
        MC_CHECK(umfCloseIPCHandle(nullptr) != UMF_RESULT_SUCCESS, "ipc:bogus-close", "close of NULL accepted");
        umf_ipc_handle_t h;
        size_t n;
        MC_CHECK(umfGetIPCHandle((void *)(X_ARENA + X_STEP - 16), &h, &n) != UMF_RESULT_SUCCESS, "ipc:bogus-get", "handle of unknown memory given out");
        sync(-1, -1, -1, -1, false, 0);
    }
    uint64_t hash() const {
        uint64_t h = (uint64_t)max;
        for (auto &s : S)
            h = mc_mix(h, s.p ? (uint64_t)(s.gen) : 0);
        for (auto &c : C)
            if (!c.closed)
                h = mc_mix(h, (uint64_t)(c.imp * 64 + c.slot * 8 + c.pid) * 4096 + (uint64_t)c.gen * 8 + (uint64_t)c.refs);
        for (auto &x : H)
            h = mc_mix(h, (uint64_t)x.slot * 100 + (uint64_t)x.gen * 8 + (uint64_t)x.pid);
        return h;
    }
    void finish() {
        for (auto &p : P)
            p.x.faults = 0;
        mc_ba_faults(false);
        while (!O.empty())
            close((int)O.size() - 1);
        while (!H.empty())
            put((int)H.size() - 1);
        for (size_t s = 0; s < S.size(); s++)
            if (S[s].p)
                free_((int)s);
        for (auto &p : P)
            if (p.up)
                p.destroy();
    }
};
static void env_max(int m) {
    char b[16];
    snprintf(b, sizeof b, "%d", m);
    if (m)
        setenv("UMF_MAX_OPENED_IPC_HANDLES", b, 1);
    else
        unsetenv("UMF_MAX_OPENED_IPC_HANDLES");
}
static void body_hist() {
    int depth = (int)mc_param("depth", 4);
    int flt = (int)mc_param("flt", 0);
    // 1: opens and closes only, 2: one slot, opened through one pool
    int focus = (int)mc_param("focus", 0);
    static const int MAXS[] = {0, 1, 2};
    World w;
    w.max = focus ? mc_choose(2) + (focus == 1 ? 2 : 1) : MAXS[mc_choose(3)];
    env_max(w.max);
    XLib lib;
    for (int i = 0; i < NPOOL; i++) {
        w.P[i].x.id = i;
        // mapping addresses are reused, or the provider hands out fresh ones
        w.P[i].x.reuse = true;
        w.P[i].create();
    }
    for (int s = 0; s < 3; s++)
        w.alloc(s);
    w.get(0, 100);
    if (focus != 2) {
        w.get(1, 0);
        w.get(2, 4095);
    }
    if (flt) {
        for (auto &p : w.P)
            p.x.faults = FA_IPCGET | FA_IPCPUT | FA_IPCOPEN | FA_IPCCLOSE | FA_IPCSIZE | FA_FREE;
        mc_ba_faults(true);
    } else
        mc_fault_budget(0);
    if (flt)
        mc_fault_budget((int)mc_param("faults", flt));
    for (int k = 0; k < depth; k++) {
        struct A {
            int op, a, b;
        };
        std::vector<A> al;
        for (int i = 0; i < (int)w.H.size(); i++)
            if (w.usable(w.H[(size_t)i]))
                for (int p = 0; p < NPOOL; p++)
                    if (w.P[p].up && w.O.size() < (focus ? 3 : 4) && (p != 0 || i == 0) && (!focus || p == 1 || (focus == 1 && p == 2 && i == 0)))
                        al.push_back({0, i, p});
        for (int i = 0; i < (int)w.O.size(); i++)
            if (i == 0 || w.O[(size_t)i].c != w.O[(size_t)i - 1].c)
                al.push_back({1, i, 0});
        for (int s = 0; s < 3 && focus != 1; s += 2)
            if (!focus || !s)
                al.push_back({w.S[(size_t)s].p ? 2 : 3, s, 0});
        if (w.H.size() < 4 && focus != 1) {
            for (int s = 0; s < 3; s += 2)
                if (w.S[(size_t)s].p && (!focus || !s))
                    al.push_back({4, s, s ? 0 : 8191});
        }
        if (w.H.size() < 5 && w.S[0].p && focus != 1) {
            al.push_back({5, 0, 1});
        }
        if (!w.H.empty() && focus != 1)
            al.push_back({6, 0, 0});
        bool used = false;
        for (auto &o : w.O)
            used |= w.C[(size_t)o.c].imp == 2;
        if (!used && !focus)
            al.push_back({7, 2, 0});
        if (k == depth - 1 || al.empty())
            al.push_back({8, 0, 0});
        A a = al[(size_t)mc_choose((int)al.size())];
        switch (a.op) {
        case 0: w.open(a.a, a.b); break;
        case 1: w.close(a.a); break;
        case 2: w.free_(a.a); break;
        case 3: w.alloc(a.a); break;
        case 4: w.get(a.a, (size_t)a.b); break;
        case 5: w.remote(a.a, a.b); break;
        case 6: w.put(a.a); break;
        case 7:
            if (w.P[2].up) {
                mc_op("pool 2 destroyed");
                w.P[2].destroy();
                for (auto &c : w.C)
                    if (c.imp == 2)
                        c.closed = true;
            } else {
                mc_op("pool 2 created");
                bool on = mc_faults_used() < mc_param("faults", flt);
                mc_ba_faults(false);
                w.P[2].create();
                mc_ba_faults(flt && on);
            }
            break;
        default: w.bogus(); break;
        }
        w.sync(-1, -1, -1, -1, false, 0);
        mc_state(w.hash());
    }
    mc_outcome(w.hash());
    w.finish();
    lib.done();
}
// ---- concurrent ------------------------------------------------------------
static World *g_w;
struct Live { // a pointer some thread has open
    int imp;
    uintptr_t map;
    long mapid;
    long gen;
};
static std::multiset<uintptr_t> g_hold;
static uint64_t g_seen;
static Live topen(umf_ipc_handle_t h, int imp, long gen, size_t off, size_t size) {
    mt_mark();
    void *ptr = nullptr;
    mc_op(" thread %ld: open gen %ld through pool %ld", mt_self(), gen, imp);
    umf_result_t r = umfOpenIPCHandle(g_w->P[imp].ih, h, &ptr);
    MC_CHECK(r == UMF_RESULT_SUCCESS, "ipc:open", "umfOpenIPCHandle = %d", r);
    auto &maps = g_w->P[imp].x.maps;
    auto it = maps.find((uintptr_t)ptr - off);
    MC_CHECK(it != maps.end(), "ipc:unmapped", "thread %d: open returned %p, which is not at offset %zu of an open mapping", mt_self(), ptr, off);
    MC_CHECK(it->second.h.gen == gen && it->second.h.size == size, "ipc:stale", "thread %d: open returned a mapping of gen %ld instead of %ld", mt_self(), it->second.h.gen, gen);
    g_seen = mc_mix(g_seen, (uint64_t)it->second.id * 16 + (uint64_t)mt_self());
    for (auto &m : maps) // another thread using the same memory uses this mapping
        MC_CHECK(m.first == it->first || m.second.h.gen != gen || m.second.h.prov != it->second.h.prov || !g_hold.count(m.first), "ipc:not-shared", "gen %ld is in use through two mappings", gen);
    g_hold.insert(it->first);
    return {imp, it->first, it->second.id, gen};
}
static void still(const Live &l) {
    auto &maps = g_w->P[l.imp].x.maps;
    auto it = maps.find(l.map);
    MC_CHECK(it != maps.end() && it->second.id == l.mapid, "ipc:closed-in-use", "thread %d: mapping of gen %ld was closed before this thread closed it", mt_self(), l.gen);
}
static void tclose(const Live &l, size_t off) {
    mt_mark();
    still(l);
    g_hold.erase(g_hold.find(l.map));
    mc_op(" thread %ld: close gen %ld", mt_self(), l.gen);
    umf_result_t r = umfCloseIPCHandle((void *)(l.map + off));
    MC_CHECK(r == UMF_RESULT_SUCCESS, "ipc:close", "umfCloseIPCHandle = %d", r);
}
static void oc(umf_ipc_handle_t h, int imp, int slot, size_t off) {
    Slot &s = g_w->S[(size_t)slot];
    Live l = topen(h, imp, s.gen, off, s.size);
    tclose(l, off);
}
static umf_ipc_handle_t tget(int slot, size_t off) {
    mt_mark();
    Slot &s = g_w->S[(size_t)slot];
    umf_ipc_handle_t h = nullptr;
    size_t n = 0;
    mc_op(" thread %ld: get handle of slot %ld", mt_self(), slot);
    umf_result_t r = umfGetIPCHandle(s.p + off, &h, &n);
    MC_CHECK(r == UMF_RESULT_SUCCESS, "ipc:get", "umfGetIPCHandle = %d", r);
    XIpc d;
    memcpy(&d, h->providerIpcData, sizeof d);
    MC_CHECK(d.gen == s.gen && d.base == (uintptr_t)s.p && d.size == s.size, "ipc:get-wrong", "handle describes gen %ld instead of %ld", d.gen, s.gen);
    return h;
}
static const int NT = 11;
// slots 3.. belong to threads
static void prog(int k, int me) {
    World &w = *g_w;
    auto H = [&](int i) { return w.H[(size_t)i].h; };
    switch (k) {
    case 0: oc(H(0), 1, 0, 100); break;
    case 1: oc(H(0), 2, 0, 100); break;
    case 2: oc(H(1), 1, 1, 0); break;
    case 3: oc(H(2), 2, 2, 4095); break;
    case 4: { Live a = topen(H(0), 1, w.S[0].gen, 100, 8192); Live b = topen(H(1), 1, w.S[1].gen, 0, 4096); tclose(a, 100); still(b); tclose(b, 0); break; }
    case 5: { Live a = topen(H(0), 1, w.S[0].gen, 100, 8192); Live b = topen(H(0), 1, w.S[0].gen, 100, 8192); tclose(a, 0); still(b); tclose(b, 8191); break; }
    case 6: { umf_ipc_handle_t h = tget(3, 50); umfPutIPCHandle(h); break; } // slot nobody has asked for yet
    case 7: { umf_ipc_handle_t h = tget(3, 50); oc(h, 1, 3, 50); umfPutIPCHandle(h); break; }
    case 8: { // own memory released and allocated again
        int s = 4 + me;
        umf_ipc_handle_t h = tget(s, 0);
        oc(h, 1, s, 0);
        umfPutIPCHandle(h);
        w.free_(s);
        w.alloc(s);
        h = tget(s, 7);
        oc(h, 1, s, 7);
        umfPutIPCHandle(h);
        break;
    }
    case 9: { // an own pool that comes and goes
        Pool q;
        q.x.id = 4 + me;
        q.create();
        void *ptr = nullptr;
        mt_mark();
        mc_op(" thread %ld: open through its own pool", mt_self());
        umf_result_t r = umfOpenIPCHandle(q.ih, H(0), &ptr);
        MC_CHECK(r == UMF_RESULT_SUCCESS && q.x.maps.count((uintptr_t)ptr - 100), "ipc:unmapped", "open through an own pool = %d, %p", r, ptr);
        mt_mark();
        r = umfCloseIPCHandle(ptr);
        MC_CHECK(r == UMF_RESULT_SUCCESS, "ipc:close", "umfCloseIPCHandle = %d", r);
        mc_op(" thread %ld: destroy its own pool", mt_self());
        q.destroy();
        break;
    }
    default: { Live a = topen(H(2), 1, w.S[2].gen, 4095, 4096); tclose(a, 0); oc(H(0), 2, 0, 100); break; }
    }
}
static void body_mt() {
    int nt = (int)mc_param("threads", 2);
    static const int MAXS[] = {0, 1, 2};
    World w;
    g_w = &w;
    g_hold.clear();
    g_seen = 1;
    w.max = MAXS[mc_choose(mc_param("maxes", 3) == 3 ? 3 : 2)];
    int pre = mc_choose(3); // mappings cached beforehand
    env_max(w.max);
    XLib lib;
    for (int i = 0; i < NPOOL; i++) {
        w.P[i].x.id = i;
        w.P[i].create();
    }
    w.S.push_back({0, 4096});
    w.S.push_back({0, 4096});
    w.S.push_back({0, 4096});
    w.S.push_back({0, 4096});
    for (int s = 0; s < 4 + nt; s++)
        w.alloc(s);
    w.get(0, 100);
    w.get(1, 0);
    w.get(2, 4095);
    if (pre >= 1) {
        w.open(2, 1);
        w.close(0);
    }
    if (pre >= 2) {
        w.open(0, 2);
        w.close(0);
    }
    int p[3];
    for (int i = 0; i < nt; i++) {
        p[i] = i == 0 ? mc_choose(NT) : p[i - 1] + mc_choose(NT - p[i - 1]);
        mc_op("thread %ld runs program %ld", i, p[i]);
    }
    std::vector<std::function<void()>> bodies;
    for (int i = 0; i < nt; i++)
        bodies.push_back([&, i] { prog(p[i], i); });
    mt_run(bodies, (int)mc_param("pb", 2));
    MC_CHECK(g_hold.empty(), "harness", "holds");
    for (auto &c : w.C)
        c.closed = true;
    size_t n = 0;
    for (auto &q : w.P)
        n += q.x.maps.size();
    mc_outcome(mc_mix(g_seen, n));
    mc_state(mc_mix(g_seen, n));
    w.finish();
    lib.done();
}
int main(int argc, char **argv) {
    return mc_main(argc, argv, {{"hist", body_hist, false, x_down}, {"mt", body_mt, false, x_down}});
}
