// C13: the address index against an ordered map, sequentially and concurrently.
#include "ba_wrap.hpp"
#include "lin.hpp"
#include "mc.hpp"
#include "sched.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <map>
extern "C" {
#include "critnib.h"
}
typedef std::map<uintptr_t, void *> Map;
static const uintptr_t M = ~(uintptr_t)0;
static const std::vector<std::vector<uintptr_t>> KEYS = {
    {0, 1, 2, 0x10, 0x11, 0x100, 0xF},
    {0, M, (uintptr_t)1 << 63, ((uintptr_t)1 << 63) - 1, M - 1, 0x1000},
    {0x7f0000001000, 0x7f0000002000, 0x7f0000003000, 0x7f0000010000,
     0x7f0000011000, 0x7f1000000000},
    {0x20, 0x21, 0x30, 0x2000000000, 0x2000000001, 0x2f00000000, M},
    {5, 6, 7, 8, 9, 10},
};
static void *val(uintptr_t k, int gen) {
    return (void *)((k ^ 0xabcd0000u) * 16 + 8 + (uintptr_t)gen * 0x10000001);
}
static bool ref_find(const Map &m, uintptr_t key, int dir, uintptr_t *rk,
                     void **rv) {
    Map::const_iterator it;
    switch (dir) {
    case FIND_EQ: it = m.find(key); break;
    case FIND_LE: it = m.upper_bound(key); if (it == m.begin()) return false; --it; break;
    case FIND_L: it = m.lower_bound(key); if (it == m.begin()) return false; --it; break;
    case FIND_GE: it = m.lower_bound(key); break;
    default: it = m.upper_bound(key); break;
    }
    if (it == m.end())
        return false;
    *rk = it->first;
    *rv = it->second;
    return true;
}
static const int DIRS[] = {FIND_L, FIND_LE, FIND_EQ, FIND_GE, FIND_G};
struct IterCtx {
    std::vector<std::pair<uintptr_t, void *>> got;
    size_t stop_after;
};
static int iter_cb(uintptr_t k, void *v, void *p) {
    IterCtx *c = (IterCtx *)p;
    c->got.push_back({k, v});
    return c->got.size() >= c->stop_after;
}
static void battery(critnib *c, const Map &m, const std::vector<uintptr_t> &probes) {
    for (uintptr_t p : probes) {
        auto it = m.find(p);
        void *g = critnib_get(c, p);
        MC_CHECK(g == (it == m.end() ? nullptr : it->second), "critnib:get",
                 "get(%lx) = %p, expected %p", p, g,
                 it == m.end() ? nullptr : it->second);
        for (int d : DIRS) {
            uintptr_t rk = 0, ek = 0;
            void *rv = nullptr, *ev = nullptr;
            bool e = ref_find(m, p, d, &ek, &ev);
            bool r = critnib_find(c, p, (enum find_dir_t)d, &rk, &rv) != 0;
            MC_CHECK(e == r, "critnib:find", "find(%lx,%d) found=%d expected=%d",
                     p, d, r, e);
            if (e)
                MC_CHECK(rk == ek && rv == ev, "critnib:find",
                         "find(%lx,%d) = %lx expected %lx", p, d, rk, ek);
        }
        uintptr_t ek;
        void *ev = nullptr;
        bool e = ref_find(m, p, FIND_LE, &ek, &ev);
        void *rv = critnib_find_le(c, p);
        MC_CHECK(rv == (e ? ev : nullptr), "critnib:find_le",
                 "find_le(%lx) = %p expected %p", p, rv, e ? ev : nullptr);
    }
}
static void iterate(critnib *c, const Map &m, uintptr_t lo, uintptr_t hi,
                    size_t stop) {
    IterCtx x;
    x.stop_after = stop;
    critnib_iter(c, lo, hi, iter_cb, &x);
    std::vector<std::pair<uintptr_t, void *>> e;
    for (auto &kv : m)
        if (kv.first >= lo && kv.first <= hi && e.size() < stop)
            e.push_back(kv);
    MC_CHECK(x.got == e, "critnib:iter",
             "iter(%lx,%lx) visited %zu entries, expected %zu (or order/values differ)",
             lo, hi, x.got.size(), e.size());
}
static uint64_t hash(const Map &m) {
    uint64_t h = 1;
    for (auto &kv : m)
        h = mc_mix(mc_mix(h, kv.first), (uint64_t)kv.second);
    return h;
}

static void body_seq() {
    int depth = (int)mc_param("depth", 6);
    int ks = (int)mc_param("keyset", -1);
    size_t nk = (size_t)mc_param("nkeys", 6);
    if (ks < 0)
        ks = mc_choose((int)KEYS.size());
    std::vector<uintptr_t> keys = KEYS[ks];
    if (keys.size() > nk)
        keys.resize(nk);
    std::vector<uintptr_t> probes = keys;
    for (uintptr_t k : KEYS[ks]) {
        probes.push_back(k + 1);
        probes.push_back(k - 1);
    }
    size_t live0 = mc_ba_live(), pools0 = mc_ba_pools();
    critnib *c = critnib_new();
    MC_CHECK(c, "critnib:new", "critnib_new failed");
    Map m;
    int gen = 0;
    mc_ba_faults(1);
    for (int i = 0; i < depth; i++) {
        int op = mc_choose((int)keys.size() * 2 + 1);
        if (op == (int)keys.size() * 2)
            break;
        uintptr_t k = keys[op / 2];
        bool present = m.count(k);
        int f0 = mc_faults_used();
        if (op % 2 == 0) { // toggle
            if (!present) {
                mc_op("insert key %lx", (long)k);
                int r = critnib_insert(c, k, val(k, ++gen), 0);
                if (mc_faults_used() > f0)
                    MC_CHECK(r == ENOMEM, "critnib:insert-oom",
                             "insert with failing allocation returned %d", r);
                else {
                    MC_CHECK(r == 0, "critnib:insert", "insert(%lx) = %d", k, r);
                    m[k] = val(k, gen);
                }
            } else {
                mc_op("remove key %lx", (long)k);
                void *r = critnib_remove(c, k);
                MC_CHECK(r == m[k], "critnib:remove", "remove(%lx) = %p", k, r);
                m.erase(k);
            }
        } else { // update / insert with update
            if (!present && m.empty())
                mc_prune();
            mc_op("insert-or-update key %lx", (long)k);
            int r = critnib_insert(c, k, val(k, ++gen), 1);
            if (mc_faults_used() > f0 && r) {
                MC_CHECK(r == ENOMEM, "critnib:insert-oom", "update = %d", r);
            } else {
                MC_CHECK(r == 0, "critnib:update", "update(%lx) = %d", k, r);
                m[k] = val(k, gen);
            }
        }
        // refused operations change nothing
        mc_fault_budget(0);
        for (uintptr_t q : keys)
            if (m.count(q)) {
                int r = critnib_insert(c, q, val(q, 77777), 0);
                MC_CHECK(r == EEXIST, "critnib:dup", "duplicate insert(%lx) = %d", q, r);
            }
        for (uintptr_t q : probes)
            if (!m.count(q))
                MC_CHECK(critnib_remove(c, q) == nullptr, "critnib:remove-absent",
                         "remove of absent %lx returned an entry", q);
        mc_fault_budget((int)mc_param("faults", 0) - mc_faults_used());
        mc_state(mc_mix(hash(m), ks));
        battery(c, m, probes);
        iterate(c, m, 0, M, 1000);
        for (size_t a = 0; a < keys.size(); a++)
            for (size_t b = 0; b < keys.size(); b++)
                iterate(c, m, keys[a], keys[b], 1000);
        iterate(c, m, 0, M, 1);
        iterate(c, m, 0, M, 2);
    }
    mc_ba_faults(0);
    mc_outcome(hash(m));
    critnib_delete(c);
    MC_CHECK(mc_ba_live() == live0 && mc_ba_pools() == pools0, "critnib:leak",
             "%zu blocks leaked by deletion", mc_ba_live() - live0);
}

// longer histories over few keys with heavy removal (node reuse)
static void body_churn() {
    int n = (int)mc_param("churn", 40);
    std::vector<uintptr_t> keys = KEYS[mc_choose((int)KEYS.size())];
    int pat = mc_choose(24);
    critnib *c = critnib_new();
    Map m;
    uint64_t x = (uint64_t)pat * 2654435761u + 1;
    for (int i = 0; i < n; i++) {
        x = mc_mix(x, (uint64_t)i);
        uintptr_t k = keys[x % keys.size()];
        if (m.count(k)) {
            mc_op("remove %lx", (long)k);
            MC_CHECK(critnib_remove(c, k) == m[k], "critnib:remove", "wrong value");
            m.erase(k);
        } else {
            mc_op("insert %lx", (long)k);
            MC_CHECK(critnib_insert(c, k, val(k, i), 0) == 0, "critnib:insert", "failed");
            m[k] = val(k, i);
        }
        battery(c, m, keys);
        mc_state(hash(m));
    }
    critnib_delete(c);
}

// ---------------------------------------------------------------- concurrent
struct Op {
    int kind; // 0 insert 1 remove 2 get 3 find_le 4.. find dir 9 update
    uintptr_t key;
    uint64_t call = 0, ret = 0;
    long r = 0;
    uintptr_t rk = 0;
    void *rv = nullptr;
    int gen = 0;
    int dir = 0;
};
static critnib *g_c;
static void do_op(Op &o) {
    mt_mark();
    o.call = mt_clock();
    switch (o.kind) {
    case 0: o.r = critnib_insert(g_c, o.key, val(o.key, o.gen), 0); break;
    case 9: o.r = critnib_insert(g_c, o.key, val(o.key, o.gen), 1); break;
    case 1: o.rv = critnib_remove(g_c, o.key); break;
    case 2: o.rv = critnib_get(g_c, o.key); break;
    case 3: o.rv = critnib_find_le(g_c, o.key); break;
    case 4: o.r = critnib_find(g_c, o.key, (enum find_dir_t)o.dir, &o.rk, &o.rv); break;
    }
    o.ret = mt_clock();
}
static bool ref_apply(Map &m, const Op &o) {
    uintptr_t k = 0;
    void *v = nullptr;
    switch (o.kind) {
    case 0:
        if (m.count(o.key))
            return o.r == EEXIST;
        m[o.key] = val(o.key, o.gen);
        return o.r == 0;
    case 9:
        m[o.key] = val(o.key, o.gen);
        return o.r == 0;
    case 1: {
        auto it = m.find(o.key);
        if (it == m.end())
            return o.rv == nullptr;
        bool ok = o.rv == it->second;
        m.erase(it);
        return ok;
    }
    case 2: {
        auto it = m.find(o.key);
        return o.rv == (it == m.end() ? nullptr : it->second);
    }
    case 3:
        return o.rv == (ref_find(m, o.key, FIND_LE, &k, &v) ? v : nullptr);
    case 4:
        if (!ref_find(m, o.key, o.dir, &k, &v))
            return o.r == 0;
        return o.r && o.rk == k && o.rv == v;
    }
    return false;
}
static const char *NM[] = {"insert", "remove", "get", "find_le", "find", "", "", "", "", "update"};
static void run_conc(const Map &init, std::vector<std::vector<Op>> &th,
                     const std::vector<uintptr_t> &keys, int pb) {
    mc_ba_rewind();
    g_c = critnib_new();
    Map m = init;
    for (auto &kv : m)
        critnib_insert(g_c, kv.first, kv.second, 0);
    for (auto &kv : m)
        mc_note("initial key %lx", kv.first);
    for (size_t t = 0; t < th.size(); t++)
        for (auto &o : th[t])
            mc_op("program t%ld: op kind %ld key %lx dir %ld", (long)t, o.kind,
                  (long)o.key, o.dir);
    std::vector<std::function<void()>> b;
    for (auto &v : th)
        b.push_back([&v] {
            for (auto &o : v)
                do_op(o);
        });
    mt_run(b, pb);
    Lin<Map, Op> lin;
    std::vector<Op> all;
    uint64_t oh = hash(init);
    for (auto &v : th)
        for (auto &o : v) {
            all.push_back(o);
            // exact operations must be atomic; ordered searches have the
            // interval guarantee checked below
            if (!(o.kind == 3 || (o.kind == 4 && o.dir != FIND_EQ)))
                lin.ops.push_back(o);
            oh = mc_mix(mc_mix(mc_mix(oh, o.kind * 131 + o.r), (uint64_t)o.rv), o.key);
            mc_note("%s(%lx) [%lu,%lu] -> r=%ld key=%lx val=%p", NM[o.kind], o.key,
                    (unsigned long)o.call, (unsigned long)o.ret, o.r, o.rk, o.rv);
        }
    mc_outcome(oh);
    lin.apply = ref_apply;
    Map fin;
    for (uintptr_t k : keys)
        if (void *v = critnib_get(g_c, k))
            fin[k] = v;
    lin.final_ok = [&](const Map &s) { return s == fin; };
    MC_CHECK(lin.check(m), "critnib:linearizability",
             "no sequential order explains the results");
    // Ordered searches: the answer was present at some moment of the call and
    // is not farther from the probe than a key present during the whole call.
    struct Add { uintptr_t key; void *v; uint64_t call, ret; };
    std::vector<Add> adds;
    for (auto &kv : init)
        adds.push_back({kv.first, kv.second, 0, 0});
    for (auto &o : all)
        if ((o.kind == 0 || o.kind == 9) && o.r == 0)
            adds.push_back({o.key, val(o.key, o.gen), o.call, o.ret});
    for (auto &o : all) {
        if (!(o.kind == 3 || (o.kind == 4 && o.dir != FIND_EQ)))
            continue;
        int dir = o.kind == 3 ? FIND_LE : o.dir;
        auto fits = [&](uintptr_t k) {
            return dir == FIND_LE ? k <= o.key : dir == FIND_L ? k < o.key
                   : dir == FIND_GE ? k >= o.key : k > o.key;
        };
        bool found = o.kind == 3 ? o.rv != nullptr : o.r != 0;
        uintptr_t got = o.rk;
        bool possible = !found;
        for (auto &ad : adds) {
            if (found && ad.v == o.rv && (o.kind == 3 || ad.key == o.rk) && fits(ad.key) &&
                ad.call < o.ret) {
                bool gone = false; // replaced or removed before the call
                for (auto &x : all)
                    if (x.key == ad.key && x.call > ad.ret && x.ret < o.call &&
                        ((x.kind == 1 && x.rv) || x.kind == 9))
                        gone = true;
                if (!gone) {
                    possible = true;
                    got = ad.key;
                }
            }
        }
        MC_CHECK(possible, "critnib:ordered-phantom",
                 "search at %lx (dir %d) returned an entry that was never a valid answer", o.key, dir);
        for (auto &ad : adds) {
            if (ad.ret >= o.call || !fits(ad.key))
                continue;
            bool steady = true;
            for (auto &x : all)
                if (x.kind == 1 && x.rv && x.key == ad.key && x.call < o.ret && x.ret > ad.call)
                    steady = false;
            if (!steady)
                continue;
            bool worse = !found || (dir < 0 ? got < ad.key : got > ad.key);
            MC_CHECK(!worse, "critnib:ordered-missed",
                     "search at %lx (dir %d) missed key %lx, present during the whole call",
                     o.key, dir, ad.key);
        }
    }
    battery(g_c, fin, keys);
    critnib_delete(g_c);
}
static const std::vector<std::vector<uintptr_t>> CK = {
    {0x10, 0x11, 0x20}, {0x100, 0x200, 0x1000}, {0x7000, 0x7100, 0x8000}};
// one writer with two operations, one reader
static void body_wr() {
    int pb = (int)mc_param("pb", 2);
    int wn = (int)mc_param("wops", 2), rn = (int)mc_param("rops", 1);
    const auto &keys = CK[mc_choose((int)mc_param("keysets", 1))];
    Map init;
    for (uintptr_t k : keys)
        if (mc_choose(2) == 0)
            init[k] = val(k, 0);
    std::vector<std::vector<Op>> th(2);
    for (int i = 0; i < wn; i++) {
        Op o;
        int c = mc_choose(6);
        o.kind = c / 3 == 0 ? 1 : 0;
        o.key = keys[c % 3];
        o.gen = i + 1;
        th[0].push_back(o);
    }
    for (int i = 0; i < rn; i++) {
        Op o;
        int c = mc_choose(7);
        // probes sit on and between keys
        o.key = keys[c % 3] + (c >= 3 ? 1 : 0);
        if (c == 6)
            o.key = keys[0] - 1;
        int d = mc_choose(6);
        o.kind = d == 0 ? 3 : 4;
        if (d)
            o.dir = DIRS[d - 1];
        th[1].push_back(o);
    }
    run_conc(init, th, keys, pb);
}
// two writers + one reader, one op each
static void body_wwr() {
    int pb = (int)mc_param("pb", 2);
    const auto &keys = CK[mc_choose((int)mc_param("keysets", 1))];
    Map init;
    for (uintptr_t k : keys)
        if (mc_choose(2) == 0)
            init[k] = val(k, 0);
    std::vector<std::vector<Op>> th(3);
    for (int t = 0; t < 2; t++) {
        Op o;
        int c = mc_choose(9);
        o.kind = c / 3 == 0 ? 1 : c / 3 == 1 ? 0 : 9;
        o.key = keys[c % 3];
        o.gen = t + 1;
        th[t].push_back(o);
    }
    Op o;
    static const int RK[] = {3, 4, 4, 2};
    static const int RD[] = {0, FIND_GE, FIND_L, 0};
    int d = mc_choose(4);
    o.kind = RK[d];
    o.dir = RD[d];
    o.key = keys[mc_choose(3)] + (uintptr_t)mc_choose(2);
    th[2].push_back(o);
    run_conc(init, th, keys, pb);
}
// a reader stalled while a writer churns long enough to recycle tree nodes
static void body_stall() {
    int pb = (int)mc_param("pb", 1);
    int maxn = (int)mc_param("maxchurn", 40);
    int minn = (int)mc_param("minchurn", 1);
    const auto &keys = CK[mc_choose(2)];
    int n = minn + mc_choose(maxn - minn + 1);
    int sparse = (int)mc_param("sparse", 0);
    int pat = sparse ? 1 + mc_choose(2) : mc_choose(3);
    Map init;
    for (uintptr_t k : keys)
        init[k] = val(k, 0);
    if (pat == 2)
        init.erase(keys[1]);
    std::vector<std::vector<Op>> th(2);
    Map m = init;
    for (int i = 0; i < n; i++) {
        Op o;
        int w = pat == 0 ? 0 : pat == 1 ? (i / 2) % 3 : 1 + (i / 2) % 2;
        o.key = keys[w];
        o.kind = m.count(o.key) ? 1 : 0;
        o.gen = i + 1;
        ref_apply(m, o);
        th[0].push_back(o);
    }
    Op o;
    int d = sparse ? 2 * mc_choose(4) : mc_choose(7);
    o.kind = d == 0 ? 3 : d == 6 ? 2 : 4;
    if (d && d < 6)
        o.dir = DIRS[d - 1];
    int p = mc_choose(4);
    o.key = p == 3 ? keys[2] + 1 : keys[p];
    th[1].push_back(o);
    run_conc(init, th, keys, pb);
}
int main(int argc, char **argv) {
    return mc_main(argc, argv,
                   {{"seq", body_seq},
                    {"churn", body_churn},
                    {"wr", body_wr},
                    {"wwr", body_wwr},
                    {"stall", body_stall}});
}
