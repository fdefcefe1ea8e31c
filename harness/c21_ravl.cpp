// C21: ordered tree against std::set.
#include "umfx.hpp"
#include <cerrno>
#include <cmath>
#include <set>
extern "C" {
#include "ravl.h"
}
struct Rec { // 24 bytes, copied into the nodes
    long key, a, b;
};
static long n_cmp;
static int cmp(const void *l, const void *r) {
    n_cmp++;
    long a = ((const Rec *)l)->key, b = ((const Rec *)r)->key;
    return a < b ? -1 : a > b;
}
struct Tree {
    struct ravl *t;
    bool copy;
    std::set<long> ref;
    std::map<long, Rec> store; // pointer trees: the records live here
    long inserted = 0;
    Tree(bool c) : copy(c) {
        t = c ? ravl_new_sized(cmp, sizeof(Rec)) : ravl_new(cmp);
        MC_CHECK(t, "setup:ravl", "ravl_new failed");
    }
    Rec *rec(long k) {
        Rec &r = store[k];
        r = {k, k * 7, ~k};
        return &r;
    }
    void check(ravl_node *n, long want, const char *what) {
        if (want < 0) {
            MC_CHECK(!n, "ravl:ghost", "%s returned key %ld, expected none", what, ((Rec *)ravl_data(n))->key);
            return;
        }
        MC_CHECK(n, "ravl:lost", "%s returned nothing, expected %ld", what, want);
        Rec *r = (Rec *)ravl_data(n);
        MC_CHECK(r->key == want && r->a == want * 7 && r->b == ~want, "ravl:wrong", "%s returned key %ld, expected %ld", what, r->key, want);
        if (!copy)
            MC_CHECK(r == &store[want], "ravl:identity", "%s returned another record", what);
    }
    bool insert(long k, bool fault = false) {
        mc_op("insert %ld", k);
        Rec tmp = {k, k * 7, ~k};
        bool dup = ref.count(k);
        int f0 = mc_faults_used();
        errno = 0;
        Rec copy2 = tmp;
        int r = copy ? ravl_emplace_copy(t, &tmp) : ravl_insert(t, dup ? &copy2 : rec(k));
        bool f = mc_faults_used() > f0;
        (void)fault;
        if (dup || f)
            MC_CHECK(r != 0, "ravl:dup", "insertion of %ld returned success although %s", k, dup ? "it was there" : "memory ran out");
        else
            MC_CHECK(r == 0, "ravl:insert", "insertion of %ld failed (%d)", k, r);
        if (dup && !f)
            MC_CHECK(errno == EEXIST, "ravl:errno", "errno %d for a duplicate", errno);
        if (!r) {
            ref.insert(k);
            inserted++;
        }
        return r == 0;
    }
    void remove(long k) {
        mc_op("remove %ld", k);
        Rec p = {k, 0, 0};
        ravl_node *n = ravl_find(t, &p, RAVL_PREDICATE_EQUAL);
        check(n, ref.count(k) ? k : -1, "exact search");
        if (!n)
            return;
        ravl_remove(t, n);
        ref.erase(k);
    }
    long lt(long k) { auto i = ref.lower_bound(k); return i == ref.begin() ? -1 : *--i; }
    long gt(long k) { auto i = ref.upper_bound(k); return i == ref.end() ? -1 : *i; }
    void probe(long k) {
        Rec p = {k, 0, 0};
        bool in = ref.count(k);
        n_cmp = 0;
        check(ravl_find(t, &p, RAVL_PREDICATE_EQUAL), in ? k : -1, "search =");
        double bound = inserted ? 1.4405 * std::log2((double)inserted + 1) + 2 : 0;
        MC_CHECK(n_cmp <= bound, "ravl:depth", "search took %ld comparisons after %ld insertions", n_cmp, inserted);
        check(ravl_find(t, &p, RAVL_PREDICATE_LESS), lt(k), "search <");
        check(ravl_find(t, &p, RAVL_PREDICATE_GREATER), gt(k), "search >");
        check(ravl_find(t, &p, RAVL_PREDICATE_LESS_EQUAL), in ? k : lt(k), "search <=");
        check(ravl_find(t, &p, RAVL_PREDICATE_GREATER_EQUAL), in ? k : gt(k), "search >=");
    }
    struct Walk {
        Tree *t;
        std::vector<long> v;
    };
    static void walk(void *d, void *a) { ((Walk *)a)->v.push_back(((Rec *)d)->key); }
    static void walkp(void *d, void *a) {
        Walk *w = (Walk *)a;
        if (!w->t->copy) { // callbacks get the stored data: the pointer itself
            void *p;
            memcpy(&p, d, sizeof p);
            d = p;
        }
        Rec *r = (Rec *)d;
        MC_CHECK(r->a == r->key * 7 && r->b == ~r->key, "ravl:cbdata", "callback got a corrupted record");
        w->v.push_back(r->key);
    }
    void verify(long hi) {
        std::vector<long> want(ref.begin(), ref.end());
        Walk w{this, {}};
        ravl_foreach(t, walkp, &w);
        MC_CHECK(w.v == want, "ravl:iter", "iteration visits %zu elements in another order, expected %zu", w.v.size(), want.size());
        MC_CHECK(!!ravl_empty(t) == ref.empty(), "ravl:empty", "empty reported wrongly");
        check(ravl_first(t), ref.empty() ? -1 : *ref.begin(), "first");
        check(ravl_last(t), ref.empty() ? -1 : *ref.rbegin(), "last");
        for (long k = 0; k <= hi; k++)
            probe(k);
        ravl_node *n = ravl_first(t), *prev = nullptr;
        for (long k : want) {
            check(n, k, "successor");
            ravl_node *p = ravl_node_predecessor(n);
            MC_CHECK(p == prev, "ravl:pred", "predecessor of %ld is wrong", k);
            prev = n;
            n = ravl_node_successor(n);
        }
        MC_CHECK(!n, "ravl:succ", "successor of the last element exists");
    }
    uint64_t hash() {
        uint64_t h = copy + 1;
        for (long k : ref)
            h = mc_mix(h, (uint64_t)k);
        // the shape, through the number of comparisons each search needs
        for (long k : ref) {
            Rec p = {k, 0, 0};
            n_cmp = 0;
            ravl_find(t, &p, RAVL_PREDICATE_EQUAL);
            h = mc_mix(h, (uint64_t)n_cmp);
        }
        return h;
    }
    void done(int how, size_t live0) {
        if (how == 0) {
            Walk w{this, {}};
            std::vector<long> want(ref.begin(), ref.end());
            ravl_delete_cb(t, walkp, &w);
            MC_CHECK(w.v == want, "ravl:delcb", "deletion callback called %zu times, %zu elements", w.v.size(), want.size());
        } else {
            if (how == 2) {
                ravl_clear(t);
                ref.clear();
                inserted = 0;
                verify(3);
                insert(2);
                insert(1);
                verify(3);
            }
            ravl_delete(t);
        }
        if (mc_ba_live() != live0) {
            mc_ba_dump();
            mc_fail("ravl:leak", "%ld blocks left after deletion", (long)(mc_ba_live() - live0));
        }
    }
};
static void body_hist() {
    int depth = (int)mc_param("depth", 6), nk = (int)mc_param("keys", 6);
    int faults = (int)mc_param("faults", 0);
    mc_ba_rewind();
    size_t live0 = mc_ba_live();
    Tree t(mc_choose(2));
    if (!faults)
        mc_fault_budget(0);
    for (int i = 0; i < depth; i++) {
        long k = mc_choose(nk) * 2 + 1;
        if (t.ref.count(k)) {
            if (mc_choose(2))
                t.remove(k);
            else
                t.insert(k);
        } else {
            mc_ba_faults(faults);
            t.insert(k);
            mc_ba_faults(0);
        }
        t.verify(nk * 2);
        mc_state(t.hash());
    }
    mc_outcome(t.hash());
    t.done(mc_choose(3), live0);
}
// all insertion orders, followed by removals in every order
static void body_perm() {
    int nk = (int)mc_param("keys", 7), rem = (int)mc_param("removals", 3);
    mc_fault_budget(0);
    mc_ba_rewind();
    size_t live0 = mc_ba_live();
    Tree t(nk & 1);
    std::vector<long> left;
    for (int i = 0; i < nk; i++)
        left.push_back(i * 2 + 1);
    std::vector<long> in = left;
    while (!left.empty()) {
        size_t i = (size_t)mc_choose((int)left.size());
        t.insert(left[i]);
        left.erase(left.begin() + (long)i);
    }
    t.verify(nk * 2);
    mc_state(t.hash());
    for (int r = 0; r < rem; r++) {
        size_t i = (size_t)mc_choose((int)in.size());
        t.remove(in[i]);
        in.erase(in.begin() + (long)i);
        t.verify(nk * 2);
        mc_state(t.hash());
    }
    mc_outcome(t.hash());
    t.done(0, live0);
}
// long regular runs: the depth stays logarithmic
static void body_shape() {
    int n = (int)mc_param("n", 600);
    mc_fault_budget(0);
    mc_ba_rewind();
    size_t live0 = mc_ba_live();
    Tree t(true);
    int step = 1 + mc_choose(7), mode = mc_choose(5), every = mc_choose(4);
    static const int ST[] = {1, 2, 3, 7, 101, 255, 599};
    for (int i = 0; i < n; i++) {
        long k = 0;
        int s = ST[step - 1];
        switch (mode) {
        case 0: k = i; break;
        case 1: k = n - i; break;
        case 2: k = (long)i * s % 601; break;
        case 3: k = i % 2 ? i : n * 2 - i; break;
        default: k = i % 2 ? n + i : n - i; break;
        }
        t.insert(k);
        if (every && i % (every * 2) == every)
            t.remove(every == 1 ? *t.ref.begin() : every == 2 ? *t.ref.rbegin() : *t.ref.lower_bound(*t.ref.begin() + (long)t.ref.size() / 2));
        if (i % 40 == 39 || i == n - 1)
            t.verify(n * 2 + 2);
    }
    mc_state(t.hash());
    mc_outcome(t.hash());
    t.done(0, live0);
}
int main(int argc, char **argv) {
    return mc_main(argc, argv, {{"hist", body_hist, false, x_down}, {"perm", body_perm, false, x_down}, {"shape", body_shape, false, x_down}});
}
