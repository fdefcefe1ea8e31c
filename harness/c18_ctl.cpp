// C18: control queries, over trees registered by the harness and through the
// public handles, compared with an independent walk of the same tree.
#include "umfx.hpp"
#include <climits>
#include <ctl/ctl.h>
#include <umf/providers/provider_os_memory.h>
#include <unistd.h>
// ---- handlers -------------------------------------------------------------
struct Call {
    int node, type;
    void *ctx;
    int source;
    void *arg;
    std::vector<std::pair<std::string, long>> idx; // innermost first
    bool has_extra;
    std::string extra;
    int qtype;
    std::string data; // copy of a converted argument
};
static std::vector<Call> CALLS;
static int RET = 0;
static size_t DATA_LEN[32];
template <int ID, int TYPE> static int handler(void *ctx, umf_ctl_query_source_t src, void *arg, umf_ctl_index_utlist_t *ix, const char *extra, umf_ctl_query_type_t qt) {
    Call c = {ID, TYPE, ctx, (int)src, arg, {}, extra != nullptr, extra ? extra : "", (int)qt, ""};
    for (int n = 0; ix; ix = ix->next, n++) {
        MC_CHECK(n < 64, "ctl:index", "index list does not end");
        c.idx.push_back({ix->name ? ix->name : "(null)", ix->value});
    }
    if (src == CTL_QUERY_CONFIG_INPUT && DATA_LEN[ID] && arg)
        c.data.assign((const char *)arg, DATA_LEN[ID]);
    CALLS.push_back(c);
    return RET;
}
template <int ID> static node_callback cbs(int t) {
    static const node_callback f[] = {handler<ID, 0>, handler<ID, 1>, handler<ID, 2>, handler<ID, 3>};
    return f[t];
}
static node_callback cb(int id, int t) {
    switch (id) {
#define C(i) case i: return cbs<i>(t);
        C(0) C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) C(11) C(12) C(13) C(14) C(15) C(16) C(17) C(18) C(19) C(20) C(21) C(22) C(23)
#undef C
    }
    return nullptr;
}
// ---- trees ----------------------------------------------------------------
static const ctl_argument ARG_INT = CTL_ARG_INT;
enum { R = 1, W = 2, X = 4 };
struct N {
    const char *name;
    ctl_node_type type;
    int kinds; // leaves: supported query kinds
    std::vector<N> ch;
    int id;
};
static int NID;
static std::vector<umf_ctl_node_t *> TABS;
static umf_ctl_node_t *mktab(std::vector<N> &v) {
    umf_ctl_node_t *t = (umf_ctl_node_t *)calloc(v.size() + 1, sizeof *t);
    TABS.push_back(t);
    for (size_t i = 0; i < v.size(); i++) {
        v[i].id = NID++;
        t[i].name = v[i].name;
        t[i].type = v[i].type;
        if (v[i].type == CTL_NODE_LEAF) {
            for (int k = 0; k < 3; k++)
                if (v[i].kinds & 1 << k)
                    t[i].cb[k] = cb(v[i].id, k);
            if (v[i].kinds & W)
                t[i].arg = &ARG_INT;
        } else if (v[i].type == CTL_NODE_SUBTREE)
            t[i].cb[3] = cb(v[i].id, 3);
        else
            t[i].children = mktab(v[i].ch);
    }
    return t;
}
static N leaf(const char *n, int k) { return {n, CTL_NODE_LEAF, k, {}, -1}; }
static N sub(const char *n) { return {n, CTL_NODE_SUBTREE, 0, {}, -1}; }
static N named(const char *n, std::vector<N> c) { return {n, CTL_NODE_NAMED, 0, c, -1}; }
static N indexed(const char *n, std::vector<N> c) { return {n, CTL_NODE_INDEXED, 0, c, -1}; }
static std::vector<N> TREE;
static struct ctl *CTL;
static const int NTREES = 3;
static std::vector<N> tree(int w) {
    switch (w) {
    case 0:
        return {named("t", {leaf("2a", R), leaf("a", R), leaf("ab", W), leaf("abc", R | W), leaf("x", X), named("in", {leaf("a", R | W | X), sub("s"), indexed("dx", {leaf("a", R), sub("s")})}), indexed("ix", {leaf("a", W), leaf("2a", R | W), indexed("jx", {leaf("a", R), leaf("x", X)}), leaf("s", R)}), sub("s")}), named("ta", {leaf("a", R)})};
    case 1: // names that repeat at several levels, an index in second place, a leaf as only child
        return {named("ta", {named("t", {named("t", {leaf("t", R | W)}), leaf("a", W)})}), named("t", {sub("t"), named("a", {leaf("a", X)}), named("in", {}), indexed("ix", {named("in", {sub("s"), leaf("a", R)})})})};
    default: // two trees with the same root name: the first one is reached
        return {named("in", {indexed("ix", {sub("s"), named("t", {indexed("jx", {leaf("a", R | W)})})})}), named("t", {leaf("a", R)}), named("a", {leaf("s", W), leaf("a", X)})};
    }
}
static void tree_up(int w) {
    TREE = tree(w);
    NID = 0;
    CTL = ctl_new();
    MC_CHECK(CTL, "setup:ctl", "ctl_new failed");
    for (auto &n : TREE)
        ctl_register_module_node(CTL, n.name, mktab(n.ch));
}
static void tree_down() {
    ctl_delete(CTL);
    for (auto t : TABS)
        free(t);
    TABS.clear();
}
// ---- names ----------------------------------------------------------------
struct Tok {
    std::string s;
    size_t off;
};
static std::vector<Tok> split(const std::string &n, char sep, bool *empties = nullptr) {
    std::vector<Tok> r;
    size_t i = 0;
    while (i <= n.size()) {
        size_t e = n.find(sep, i);
        if (e == std::string::npos)
            e = n.size();
        if (e > i)
            r.push_back({n.substr(i, e - i), i});
        else if (empties)
            *empties = true;
        i = e + 1;
    }
    return r;
}
// numbers of the alphabet and what they mean
static const struct {
    const char *s;
    long v;
} NUM[] = {{"3", 3}, {"-2", -2}, {"0x1F", 31}, {"0", 0}, {"2147483648", 2147483648l}};
static long number(const std::string &s) {
    for (size_t i = 0; i < sizeof NUM / sizeof *NUM; i++)
        if (s == NUM[i].s)
            return (long)i;
    return -1;
}
struct Want {
    const N *n = nullptr;  // entry reached; null: none
    bool maybe = false;    // failing is as good (empty tokens, an indexed node without its index)
    std::vector<std::pair<std::string, long>> idx; // innermost first; value is an index into NUM
    std::string extra;
};
static Want walk(const std::string &name) {
    Want w;
    bool empties = false;
    auto toks = split(name, '.', &empties);
    w.maybe = empties;
    const std::vector<N> *level = &TREE;
    const N *cur = nullptr;
    for (auto &t : toks) {
        if (cur && cur->type == CTL_NODE_SUBTREE) {
            w.extra = name.substr(t.off);
            w.n = cur;
            return w;
        }
        long num = number(t.s);
        const N *f = nullptr;
        bool by_index = false;
        if (level)
            for (auto &n : *level) {
                if (num >= 0 && n.type == CTL_NODE_INDEXED) {
                    f = &n, by_index = true;
                    break;
                }
                if (t.s == n.name) {
                    f = &n;
                    break;
                }
            }
        if (!f)
            return w.n = nullptr, w;
        if (by_index)
            w.idx.insert(w.idx.begin(), {f->name, num});
        else if (f->type == CTL_NODE_INDEXED)
            w.maybe = true;
        cur = f;
        level = f->type == CTL_NODE_NAMED || f->type == CTL_NODE_INDEXED ? &f->ch : nullptr;
    }
    w.n = cur && (cur->type == CTL_NODE_LEAF || cur->type == CTL_NODE_SUBTREE) ? cur : nullptr;
    return w;
}
static void check_call(const Want &w, const Call &c, const std::string &name, void *ctx, int src, int qt) {
    bool st = w.n->type == CTL_NODE_SUBTREE;
    MC_CHECK(c.node == w.n->id && c.type == (st ? CTL_QUERY_SUBTREE : qt), "ctl:handler", "\"%s\" reached handler %d kind %d instead of %d kind %d", name.c_str(), c.node, c.type, w.n->id, qt);
    MC_CHECK(c.ctx == ctx && c.source == src, "ctl:ctx", "\"%s\": context or source differs", name.c_str());
    bool same = c.idx.size() == w.idx.size();
    for (size_t i = 0; same && i < c.idx.size(); i++)
        same = c.idx[i].first == w.idx[i].first && c.idx[i].second == NUM[w.idx[i].second].v;
    if (!same) {
        std::string s;
        for (auto &i : c.idx)
            s += i.first + "=" + std::to_string(i.second) + " ";
        mc_fail("ctl:index", "\"%s\": %zu indexes given to the handler: %s", name.c_str(), c.idx.size(), s.c_str());
    }
    if (st) {
        MC_CHECK(c.has_extra && c.extra == w.extra, "ctl:extra", "\"%s\": subtree got \"%s\" instead of \"%s\"", name.c_str(), c.extra.c_str(), w.extra.c_str());
        MC_CHECK(c.qtype == qt, "ctl:kind", "\"%s\": subtree told query kind %d instead of %d", name.c_str(), c.qtype, qt);
    }
}
static void query(const std::string &name, int qt, int src, bool faulty) {
    static char ctxv[4];
    for (int nullarg = 0; nullarg < 2; nullarg++) {
        if (nullarg && faulty)
            break;
        Want w = walk(name);
        bool st = w.n && w.n->type == CTL_NODE_SUBTREE;
        bool ok = w.n && (st || (w.n->kinds & 1 << qt));
        if (nullarg && qt != CTL_QUERY_RUNNABLE)
            ok = ok && st;
        char text[8] = "77";
        void *arg = nullarg ? nullptr : text;
        CALLS.clear();
        RET = 0;
        if (ok && !faulty)
            RET = nullarg ? -1 : 0;
        size_t live = mc_ba_live();
        int f0 = mc_faults_used();
        mc_ba_faults(faulty);
        int r = ctl_query(CTL, ctxv + qt, (umf_ctl_query_source_t)src, name.c_str(), (umf_ctl_query_type_t)qt, arg);
        mc_ba_faults(0);
        bool failed = mc_faults_used() > f0;
        if (failed)
            mc_op("  (one metadata allocation failed)");
        if (failed && CALLS.empty() && r < 0)
            ok = false;
        if (ok && w.maybe && CALLS.empty())
            ok = false;
        MC_CHECK(CALLS.size() == (ok ? 1u : 0u), "ctl:calls", "\"%s\" kind %d source %d: %zu handlers invoked instead of %d (first: %d), result %d", name.c_str(), qt, src, CALLS.size(), ok ? 1 : 0, CALLS.empty() ? -1 : CALLS[0].node, r);
        MC_CHECK(ok ? r == RET : r < 0, "ctl:result", "\"%s\" kind %d source %d: result %d", name.c_str(), qt, src, r);
        if (ok) {
            check_call(w, CALLS[0], name, ctxv + qt, src, qt);
            bool conv = !st && src == CTL_QUERY_CONFIG_INPUT && qt == CTL_QUERY_WRITE;
            if (conv) {
                int v;
                memcpy(&v, CALLS[0].data.data(), sizeof v);
                MC_CHECK(v == 77, "ctl:arg", "\"%s\": argument \"77\" became %d", name.c_str(), v);
            } else
                MC_CHECK(CALLS[0].arg == arg, "ctl:arg", "\"%s\": another argument", name.c_str());
        }
        MC_CHECK(mc_ba_live() == live, "ctl:leak", "\"%s\" kind %d source %d: %zd blocks kept", name.c_str(), qt, src, (ssize_t)(mc_ba_live() - live));
        mc_outcome(mc_mix((uint64_t)(ok ? w.n->id : -1), (uint64_t)(qt * 2 + src)));
    }
}
static std::string LONG;
static const std::vector<const char *> &alphabet() {
    static std::vector<const char *> a;
    if (a.empty()) {
        LONG = std::string(5000, 'a');
        a = {"t", "ta", "in", "a", "ab", "abc", "x", "s", "3", "ix", "", "zz", "-2", "0x1F", "jx", "dx", LONG.c_str(), "99999999999999999999999", "2147483648", "2a", "3x", "0x", "-99999999999999999999999"};
    }
    return a;
}
static void body_names() {
    XLib lib;
    size_t live = mc_ba_live();
    tree_up((int)mc_param("tree", 0));
    for (auto &d : DATA_LEN)
        d = sizeof(int);
    auto &al = alphabet();
    long na = mc_param("alpha", 13), depth = mc_param("depth", 4);
    bool faulty = mc_param("faults", 0) > 0;
    std::string name;
    uint64_t h = 1;
    for (long d = 0; d < depth; d++) {
        int c = mc_choose((int)na + 1);
        if (c == na)
            break;
        h = mc_mix(h, (uint64_t)c);
        if (d)
            name += '.';
        name += al[(size_t)c];
    }
    // engine faults: one query per execution; otherwise all of them
    if (faulty) {
        int qt = mc_choose(3), src = mc_choose(2) + 1;
        query(name, qt, src, true);
        h = mc_mix(h, (uint64_t)(qt * 2 + src));
    } else
        for (int qt = 0; qt < 3; qt++)
            for (int src = 1; src <= 2; src++)
                query(name, qt, src, false);
    mc_op("name of %ld characters", (long)name.size());
    mc_note("name: %s", name.c_str());
    mc_state(h);
    tree_down();
    MC_CHECK(mc_ba_live() == live, "ctl:leak", "blocks kept");
    lib.done();
}
// ---- configuration text ---------------------------------------------------
struct PairArg {
    int n;
    char s[4];
};
struct TripArg {
    uint8_t a;
    long long b;
    int c;
    char s[8];
};
static const ctl_argument A_INT = CTL_ARG_INT;
static const ctl_argument A_LL = CTL_ARG_LONG_LONG;
static const ctl_argument A_BOOL = CTL_ARG_BOOLEAN;
static const ctl_argument A_STR = CTL_ARG_STRING(6);
static const ctl_argument A_U8 = {1, {{0, 1, ctl_arg_integer}, CTL_ARG_PARSER_END}};
static const ctl_argument A_PAIR = {sizeof(PairArg), {CTL_ARG_PARSER_STRUCT(PairArg, n, ctl_arg_integer), CTL_ARG_PARSER_STRUCT(PairArg, s, ctl_arg_string), CTL_ARG_PARSER_END}};
static const ctl_argument A_TRIP = {sizeof(TripArg), {CTL_ARG_PARSER_STRUCT(TripArg, s, ctl_arg_string), CTL_ARG_PARSER_STRUCT(TripArg, b, ctl_arg_integer), CTL_ARG_PARSER_STRUCT(TripArg, a, ctl_arg_integer), CTL_ARG_PARSER_STRUCT(TripArg, c, ctl_arg_boolean), CTL_ARG_PARSER_END}};
enum { K_INT, K_LL, K_BOOL, K_STR, K_U8, K_PAIR, K_TRIP, K_RO, K_SUB, NK };
static const struct {
    const char *name;
    const ctl_argument *arg;
} LEAF[NK] = {{"i", &A_INT}, {"l", &A_LL}, {"b", &A_BOOL}, {"s", &A_STR}, {"u", &A_U8}, {"p", &A_PAIR}, {"q", &A_TRIP}, {"ro", nullptr}, {"sub", nullptr}};
static umf_ctl_node_t CFG[NK + 1];
static void cfg_up() {
    memset(CFG, 0, sizeof CFG);
    for (int k = 0; k < NK; k++) {
        CFG[k].name = LEAF[k].name;
        CFG[k].type = k == K_SUB ? CTL_NODE_SUBTREE : CTL_NODE_LEAF;
        CFG[k].cb[k == K_RO ? 0 : k == K_SUB ? 3 : 1] = cb(k, k == K_RO ? 0 : k == K_SUB ? 3 : 1);
        CFG[k].arg = LEAF[k].arg;
        DATA_LEN[k] = LEAF[k].arg ? LEAF[k].arg->dest_size : 0;
    }
    CTL = ctl_new();
    ctl_register_module_node(CTL, "t", CFG);
}
enum Conv { BAD, GOOD, UNSPEC };
static Conv conv_int(const std::string &s, __int128 lo, __int128 hi, __int128 &v) {
    size_t i = 0;
    bool neg = false;
    if (s[0] == '-' || s[0] == '+')
        neg = s[i++] == '-';
    int base = 10;
    if (s.size() > i + 1 && s[i] == '0' && (s[i + 1] | 32) == 'x')
        base = 16, i += 2;
    else if (s.size() > i + 1 && s[i] == '0')
        base = 8, i++;
    v = 0;
    size_t digits = 0;
    for (; i < s.size(); i++, digits++) {
        int d = s[i] >= '0' && s[i] <= '9' ? s[i] - '0' : (s[i] | 32) >= 'a' && (s[i] | 32) <= 'f' ? (s[i] | 32) - 'a' + 10 : 99;
        if (d >= base)
            return digits || base != 10 ? UNSPEC : BAD; // something after the number
        if (v < ((__int128)1 << 100))
            v = v * base + d;
    }
    if (!digits)
        return base == 10 ? BAD : UNSPEC;
    if (neg)
        v = -v;
    if (v == (__int128)LLONG_MIN)
        return UNSPEC; // marks failed conversions
    return v >= lo && v <= hi ? GOOD : BAD;
}
static Conv conv_field(int k, const std::string &s, std::string &out) {
    __int128 v;
    Conv c;
    switch (k) {
    case K_INT:
        c = conv_int(s, INT_MIN, INT_MAX, v);
        if (c == GOOD) {
            int x = (int)v;
            out.assign((char *)&x, sizeof x);
        }
        return c;
    case K_LL:
        c = conv_int(s, LLONG_MIN, LLONG_MAX, v);
        if (c == GOOD) {
            long long x = (long long)v;
            out.assign((char *)&x, sizeof x);
        }
        return c;
    case K_U8:
        c = conv_int(s, 0, 255, v);
        if (c == GOOD)
            out.assign(1, (char)(uint8_t)v);
        return c;
    case K_BOOL: {
        std::string l;
        for (char ch : s)
            l += (char)tolower(ch);
        int x = l == "y" || l == "1" || l == "yes" ? 1 : l == "n" || l == "0" || l == "no" ? 0 : -1;
        if (x < 0)
            return strchr("yn01", l[0]) ? UNSPEC : BAD;
        out.assign((char *)&x, sizeof x);
        return GOOD;
    }
    }
    return BAD;
}
static Conv conv_str(const std::string &s, size_t cap, std::string &out) {
    if (s.size() >= cap)
        return BAD;
    out = s + std::string(cap - s.size(), '\0');
    return GOOD;
}
static Conv convert(int k, const std::string &val, std::string &out) {
    auto f = split(val, ',');
    size_t need = k == K_PAIR ? 2 : k == K_TRIP ? 4 : 1;
    bool clean = f.size() == need;
    if (clean) {
        std::string j;
        for (auto &t : f)
            j += (j.empty() ? "" : ",") + t.s;
        clean = j == val;
    }
    if (f.size() < need)
        return BAD;
    Conv c = GOOD;
    std::string o[4];
    switch (k) {
    case K_PAIR: {
        Conv a = conv_field(K_INT, f[0].s, o[0]), b = conv_str(f[1].s, 4, o[1]);
        c = a == BAD || b == BAD ? BAD : a == UNSPEC ? UNSPEC : GOOD;
        out = o[0] + o[1];
        break;
    }
    case K_TRIP: {
        Conv a = conv_str(f[0].s, 8, o[0]), b = conv_field(K_LL, f[1].s, o[1]), d = conv_field(K_U8, f[2].s, o[2]), e = conv_field(K_BOOL, f[3].s, o[3]);
        c = a == BAD || b == BAD || d == BAD || e == BAD ? BAD : b == UNSPEC || d == UNSPEC || e == UNSPEC ? UNSPEC : GOOD;
        TripArg t;
        memset(&t, 0, sizeof t);
        if (c == GOOD) {
            memcpy(t.s, o[0].data(), 8);
            memcpy(&t.b, o[1].data(), 8);
            memcpy(&t.a, o[2].data(), 1);
            memcpy(&t.c, o[3].data(), 4);
        }
        out.assign((char *)&t, sizeof t);
        break;
    }
    case K_STR:
        c = conv_str(f[0].s, 6, out);
        break;
    default:
        c = conv_field(k, f[0].s, out);
    }
    return !clean && c == GOOD ? UNSPEC : c;
}
// compares only the fields (not padding)
static bool same_arg(int k, const std::string &a, const std::string &b) {
    if (k != K_TRIP)
        return a == b;
    TripArg x, y;
    memcpy(&x, a.data(), sizeof x), memcpy(&y, b.data(), sizeof y);
    return x.a == y.a && x.b == y.b && x.c == y.c && !memcmp(x.s, y.s, 8);
}
// loads `text` and compares what was applied with the reference reading
static char CTXV;
static void load(const std::string &text, bool with_ctx, int ret, int (*loader)(void *, const std::string &), bool fault = false) {
    struct Exp {
        int k;
        std::string data;
    };
    std::vector<Exp> exp;
    int want = 0;
    for (auto &it : split(text, ';')) {
        bool e = false;
        auto nv = split(it.s, '=', &e);
        if (nv.size() == 2 && e)
            mc_prune(); // stray separators around a good assignment
        if (nv.size() != 2) {
            want = -1;
            break;
        }
        int k = -1;
        for (int i = 0; i < NK; i++)
            if (nv[0].s == std::string("t.") + LEAF[i].name)
                k = i;
        std::string extra;
        if (nv[0].s.compare(0, 6, "t.sub.") == 0)
            k = K_SUB;
        else if (k < 0 && nv[0].s.find("..") != std::string::npos)
            mc_prune();
        if (k < 0 || k == K_RO) {
            if (with_ctx) {
                want = -1;
                break;
            }
            continue;
        }
        std::string data;
        Conv c = k == K_SUB ? GOOD : convert(k, nv[1].s, data);
        if (c == UNSPEC)
            mc_prune();
        if (c == BAD) {
            if (with_ctx) {
                want = -1;
                break;
            }
            continue;
        }
        exp.push_back({k, data});
        if (ret < 0 && with_ctx) {
            want = -1;
            break;
        }
    }
    CALLS.clear();
    RET = ret;
    size_t live = mc_ba_live();
    int f0 = mc_faults_used();
    mc_ba_faults(fault);
    int r = loader(with_ctx ? &CTXV : nullptr, text);
    mc_ba_faults(0);
    RET = 0;
    MC_CHECK(mc_ba_live() == live, "ctl:leak", "configuration \"%s\": %zd blocks kept", text.c_str(), (ssize_t)(mc_ba_live() - live));
    if (mc_faults_used() > f0) {
        // what was applied is right and in order; an error unless failures are skipped
        MC_CHECK(r != 0 || !with_ctx, "ctl:fault", "configuration \"%s\" succeeded although an allocation failed", text.c_str());
        size_t j = 0;
        for (auto &c : CALLS) {
            while (j < exp.size() && !(exp[j].k == c.node && (c.node == K_SUB || same_arg(c.node, exp[j].data, c.data))))
                j++;
            MC_CHECK(j++ < exp.size() && (!with_ctx || j == (size_t)(&c - &CALLS[0]) + 1), "ctl:fault", "configuration \"%s\": wrong assignment applied after a failure", text.c_str());
        }
        return;
    }
    MC_CHECK((r == 0) == (want == 0), "ctl:config-result", "configuration \"%s\" (context %d): result %d, expected %d", text.c_str(), with_ctx, r, want);
    MC_CHECK(CALLS.size() == exp.size(), "ctl:config-calls", "configuration \"%s\" (context %d): %zu assignments applied instead of %zu", text.c_str(), with_ctx, CALLS.size(), exp.size());
    for (size_t i = 0; i < exp.size(); i++) {
        MC_CHECK(CALLS[i].node == exp[i].k, "ctl:config-order", "configuration \"%s\": assignment %zu went to entry %d instead of %d", text.c_str(), i, CALLS[i].node, exp[i].k);
        MC_CHECK(CALLS[i].ctx == (with_ctx ? &CTXV : nullptr) && CALLS[i].source == CTL_QUERY_CONFIG_INPUT, "ctl:ctx", "configuration \"%s\": context or source", text.c_str());
        if (exp[i].k == K_SUB)
            MC_CHECK(CALLS[i].type == 3 && CALLS[i].qtype == CTL_QUERY_WRITE, "ctl:kind", "configuration \"%s\": subtree told kind %d", text.c_str(), CALLS[i].qtype);
        else
            MC_CHECK(same_arg(exp[i].k, exp[i].data, CALLS[i].data), "ctl:convert", "configuration \"%s\": assignment %zu was converted wrongly", text.c_str(), i);
    }
    uint64_t o = (uint64_t)(r == 0);
    for (auto &e : exp)
        o = mc_mix(o, (uint64_t)e.k);
    mc_outcome(o);
}
static int load_string(void *ctx, const std::string &t) { return ctl_load_config_from_string(CTL, ctx, t.c_str()); }
static std::string FILE_TEXT;
static int load_file(void *ctx, const std::string &) {
    int fd = memfd_create("cfg", 0);
    size_t done = 0;
    while (done < FILE_TEXT.size()) {
        ssize_t w = write(fd, FILE_TEXT.data() + done, FILE_TEXT.size() - done);
        if (w <= 0)
            mc_fail("setup:file", "cannot write the file");
        done += (size_t)w;
    }
    char p[40];
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    int r = ctl_load_config_from_file(CTL, ctx, p);
    close(fd);
    return r;
}
static void body_config() {
    XLib lib;
    size_t live = mc_ba_live();
    cfg_up();
    static const char *al[] = {"t.i", "t.s", "t.b", "=", ";", "7", "-12", "yes", "t.p", "t.sub.y", ",", "t.ro", "t.none", "2147483648", "toolong", "."};
    long depth = mc_param("depth", 5), na = mc_param("alpha", 12);
    std::string text;
    uint64_t h = 3;
    for (long d = 0; d < depth; d++) {
        int c = mc_choose((int)na + 1);
        if (c == na)
            break;
        text += al[c];
        h = mc_mix(h, (uint64_t)c);
    }
    mc_note("configuration: %s", text.c_str());
    mc_op("configuration of %ld characters", (long)text.size());
    bool fault = mc_param("faults", 0) > 0;
    if (fault)
        load(text, mc_choose(2), 0, load_string, true);
    else
        for (int c = 0; c < 2; c++)
            load(text, c, 0, load_string);
    mc_state(h);
    ctl_delete(CTL);
    MC_CHECK(mc_ba_live() == live, "ctl:leak", "blocks kept");
    lib.done();
}
// whole items: longer texts, good and bad ones in every position
static void body_items() {
    XLib lib;
    size_t live = mc_ba_live();
    cfg_up();
    static const char *al[] = {"t.i=5", "t.s=abc", "t.b=n", "t.i=-2147483648", "t.p=4,ab", "t.q=word,-9000000000,200,Y", "t.u=255", "t.l=0x7fffffffffffffff",
                               "t.sub.q.r=z", "t.i=2147483648", "t.s=123456", "t.u=256", "t.ro=1", "t.none=2", "t.i", "t.p=4", "t.q=word,1,300,0", "t.i==", "=", "", "t=1", "t.b=x", "t.i=1=2"};
    long depth = mc_param("depth", 3);
    int na = (int)(sizeof al / sizeof *al);
    std::string text;
    uint64_t h = 3;
    for (long d = 0; d < depth; d++) {
        int c = mc_choose(na + 1);
        if (c == na)
            break;
        text += std::string(d ? ";" : "") + al[c];
        h = mc_mix(h, (uint64_t)c);
    }
    mc_note("configuration: %s", text.c_str());
    mc_op("configuration of %ld characters", (long)text.size());
    if (mc_param("faults", 0) > 0)
        load(text, mc_choose(2), 0, load_string, true);
    else
        for (int c = 0; c < 2; c++)
            for (int ret = -1; ret < 2; ret++)
                load(text, c, ret, load_string);
    mc_state(h);
    ctl_delete(CTL);
    MC_CHECK(mc_ba_live() == live, "ctl:leak", "blocks kept");
    lib.done();
}
// one argument conversion per execution
static void body_conv() {
    XLib lib;
    size_t live = mc_ba_live();
    cfg_up();
    std::vector<std::string> vals = {"0", "1", "-1", "+5", "-0", "y", "Y", "n", "N", "yes", "no", "x", "z", "-", "+", "2", "127", "128", "255", "256", "-128", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "-9223372036854775807", "-9223372036854775809", "18446744073709551616", "99999999999999999999999999", "0x10", "0xFF", "0x100", "0x7fffffff", "0x80000000", "0xFFFFFFFFFFFFFFFF", "010", "0377", "0400", "abc", "abcd", "abcde", "abcdef", "abcdefg", "abcdefgh", "a", std::string(300, 'q')};
    int k = mc_choose(K_RO), n = k == K_PAIR ? 2 : k == K_TRIP ? 4 : 1;
    std::string v;
    if (k == K_TRIP) { // one field varies
        static const char *good[] = {"w", "1", "2", "y"};
        int f = mc_choose(4), c = mc_choose((int)vals.size());
        for (int i = 0; i < 4; i++)
            v += (i ? "," : "") + (i == f ? vals[(size_t)c] : std::string(good[i]));
        v.resize(v.size() - 0);
    } else
        for (int i = 0; i < n; i++)
            v += (i ? "," : "") + vals[(size_t)mc_choose((int)vals.size())];
    std::string text = std::string("t.") + LEAF[k].name + "=" + v;
    mc_note("configuration: %s", text.c_str());
    mc_op("conversion to kind %ld", k);
    load(text, true, 0, load_string);
    mc_state(std::hash<std::string>()(text));
    ctl_delete(CTL);
    MC_CHECK(mc_ba_live() == live, "ctl:leak", "blocks kept");
    lib.done();
}
// files: comments, white space, sizes
static void body_file() {
    XLib lib;
    size_t live = mc_ba_live();
    cfg_up();
    int how = mc_choose(3);
    if (how < 2) {
        static const char *al[] = {"t.i=5", ";", "\n", " ", "#", "t.s=a#b", "\t", "t.none=1", "t.", "\r\n", "b=y"};
        long depth = mc_param("depth", 5);
        int na = (int)(sizeof al / sizeof *al);
        uint64_t h = 9;
        FILE_TEXT.clear();
        for (long d = 0; d < depth; d++) {
            int c = mc_choose(na + 1);
            if (c == na)
                break;
            FILE_TEXT += al[c];
            h = mc_mix(h, (uint64_t)c);
        }
        mc_state(h);
        std::string text;
        bool com = false;
        for (char ch : FILE_TEXT)
            if (ch == '#')
                com = true;
            else if (ch == '\n')
                com = false;
            else if (!com && !strchr(" \t\r\v\f", ch))
                text += ch;
        mc_op("file of %ld characters", (long)FILE_TEXT.size());
        mc_note("file: %s", FILE_TEXT.c_str());
        load(text, how, 0, load_file);
    } else {
        size_t size = (1u << 20) - 2 + (size_t)mc_choose(5);
        std::string head = "t.i=5;t.s=abc";
        FILE_TEXT = head + (mc_choose(2) ? "#" : " ");
        FILE_TEXT.resize(size, ' ');
        mc_op("file of %ld characters", (long)size);
        if (size <= 1 << 20)
            load(head, true, 0, load_file);
        else {
            CALLS.clear();
            int r = load_file(&CTXV, "");
            MC_CHECK(r != 0 && CALLS.empty() && mc_ba_live() > 0, "ctl:file-size", "file of %zu bytes was read", size);
        }
        MC_CHECK(ctl_load_config_from_file(CTL, &CTXV, "/nonexistent/x") != 0, "ctl:file", "a missing file was loaded");
        mc_state(size);
    }
    ctl_delete(CTL);
    MC_CHECK(mc_ba_live() == live, "ctl:leak", "blocks kept");
    lib.done();
}
// ---- public entry points --------------------------------------------------
struct Rec {
    int who;
    void *obj;
    std::string name;
    void *arg;
    int qt;
};
static std::vector<Rec> RECS;
static umf_result_t OPRET;
extern "C" {
static umf_result_t prov_ctl(void *p, int, const char *name, void *arg, umf_ctl_query_type_t qt) {
    RECS.push_back({0, p, name ? name : "(null)", arg, (int)qt});
    return OPRET;
}
static umf_result_t pool_ctl(void *p, int, const char *name, void *arg, umf_ctl_query_type_t qt) {
    RECS.push_back({1, p, name ? name : "(null)", arg, (int)qt});
    return OPRET;
}
}
static umf_result_t call(int qt, const char *n, void *c, void *a) { return qt == 0 ? umfCtlGet(n, c, a) : qt == 1 ? umfCtlSet(n, c, a) : umfCtlExec(n, c, a); }
static void body_public() {
    XLib lib;
    static const umf_result_t codes[] = {UMF_RESULT_SUCCESS, UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC, UMF_RESULT_ERROR_INVALID_ARGUMENT, UMF_RESULT_ERROR_NOT_SUPPORTED, UMF_RESULT_ERROR_UNKNOWN};
    bool is_pool = mc_choose(2), has = mc_choose(2), owner2 = mc_choose(2);
    bool faulty = mc_param("faults", 0) > 0;
    XProv x[2];
    x[1].id = 1;
    umf_memory_provider_ops_t po = XP_OPS;
    if (has)
        po.ctl = prov_ctl;
    umf_memory_pool_ops_t lo = PP_OPS;
    if (has)
        lo.ctl = pool_ctl;
    umf_memory_provider_handle_t p[2];
    umf_memory_pool_handle_t l[2];
    PPool pp[2];
    for (int i = 0; i < 2; i++) {
        MC_CHECK(umfMemoryProviderCreate(&po, &x[i], &p[i]) == UMF_RESULT_SUCCESS, "setup:prov", "provider");
        MC_CHECK(umfPoolCreate(&lo, p[i], &pp[i], 0, &l[i]) == UMF_RESULT_SUCCESS, "setup:pool", "pool");
    }
    void *ctx = is_pool ? (void *)l[owner2] : (void *)p[owner2];
    static const char *al[] = {"umf", "provider", "pool", "by_handle", "x", "5", "", "umfx", "default"};
    long depth = mc_param("depth", 5);
    std::string name;
    std::vector<std::string> toks;
    uint64_t h = (uint64_t)(is_pool + 2 * has + 4 * owner2);
    for (long d = 0; d < depth; d++) {
        int c = mc_choose((int)(sizeof al / sizeof *al) + 1);
        if (c == (int)(sizeof al / sizeof *al))
            break;
        name += std::string(d ? "." : "") + al[c];
        h = mc_mix(h, (uint64_t)c);
    }
    bool empties = false;
    auto tk = split(name, '.', &empties);
    bool reach = tk.size() >= 3 && tk[0].s == "umf" && (tk[1].s == "provider" || tk[1].s == "pool") && tk[2].s == "by_handle";
    if (reach && (tk[1].s == "pool") != is_pool)
        mc_prune(); // the handle is not of the kind the name says
    std::string extra = tk.size() > 3 ? name.substr(tk[3].off) : "";
    mc_note("name: %s", name.c_str());
    int arg;
    for (int qt = 0; qt < 3; qt++)
        for (umf_result_t code : codes) {
            RECS.clear();
            OPRET = code;
            size_t live = mc_ba_live();
            int f0 = mc_faults_used();
            mc_ba_faults(faulty);
            umf_result_t r = call(qt, name.c_str(), ctx, &arg);
            mc_ba_faults(0);
            mc_op("query kind %ld of %ld tokens = %ld", qt, (long)tk.size(), r);
            bool want = reach && has;
            if (want && RECS.empty() && (empties || mc_faults_used() > f0))
                want = false;
            MC_CHECK(RECS.size() == (want ? 1u : 0u), "ctlapi:calls", "\"%s\": %zu operations called, expected %d", name.c_str(), RECS.size(), want);
            MC_CHECK((r == UMF_RESULT_SUCCESS) == (want && code == UMF_RESULT_SUCCESS), "ctlapi:result", "\"%s\": result %d, the operation returned %d", name.c_str(), r, code);
            if (want) {
                Rec &c = RECS[0];
                void *obj = is_pool ? ctx : (void *)&x[owner2];
                MC_CHECK(c.who == (int)is_pool && c.obj == obj, "ctlapi:object", "\"%s\" reached another object", name.c_str());
                MC_CHECK(c.name == extra && c.arg == &arg && c.qt == qt, "ctlapi:args", "\"%s\": operation got \"%s\" kind %d", name.c_str(), c.name.c_str(), c.qt);
            }
            MC_CHECK(mc_ba_live() == live, "ctl:leak", "\"%s\": blocks kept", name.c_str());
        }
    if (!faulty) {
        RECS.clear();
        for (int qt = 0; qt < 3; qt++)
            MC_CHECK(call(qt, nullptr, ctx, &arg) == UMF_RESULT_ERROR_INVALID_ARGUMENT && call(qt, name.c_str(), nullptr, &arg) == UMF_RESULT_ERROR_INVALID_ARGUMENT && call(qt, name.c_str(), ctx, nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT && RECS.empty(), "ctlapi:null", "a null argument was accepted");
    }
    mc_state(h);
    mc_outcome(reach + 2 * has);
    for (int i = 0; i < 2; i++) {
        umfPoolDestroy(l[i]);
        umfMemoryProviderDestroy(p[i]);
    }
    lib.done();
}
// the system-memory provider's own tree
static void body_os() {
    XLib lib;
    umf_os_memory_provider_params_handle_t pp = nullptr;
    MC_CHECK(umfOsMemoryProviderParamsCreate(&pp) == UMF_RESULT_SUCCESS, "setup:params", "params");
    int vis = mc_choose(2);
    umfOsMemoryProviderParamsSetVisibility(pp, vis ? UMF_MEM_MAP_SHARED : UMF_MEM_MAP_PRIVATE);
    umf_memory_provider_handle_t p = nullptr;
    MC_CHECK(umfMemoryProviderCreate(umfOsMemoryProviderOps(), pp, &p) == UMF_RESULT_SUCCESS, "setup:prov", "provider");
    umfOsMemoryProviderParamsDestroy(pp);
    size_t A = 0, P = 0;
    void *b1 = nullptr, *b2 = nullptr;
    MC_CHECK(umfMemoryProviderAlloc(p, 4096, 0, &b1) == UMF_RESULT_SUCCESS && umfMemoryProviderAlloc(p, 8192, 0, &b2) == UMF_RESULT_SUCCESS, "setup:alloc", "alloc");
    umfMemoryProviderFree(p, b1, 4096);
    A = 8192, P = 12288;
    static const char *al[] = {"stats", "params", "ipc_enabled", "allocated_memory", "peak_memory", "reset", "umf", "provider", "by_handle", "3"};
    std::string rest;
    uint64_t h = (uint64_t)vis;
    for (long d = 0; d < mc_param("depth", 4); d++) {
        int c = mc_choose(11);
        if (c == 10)
            break;
        rest += std::string(".") + al[c];
        h = mc_mix(h, (uint64_t)c);
    }
    std::string name = "umf.provider.by_handle" + rest;
    mc_note("name: %s", name.c_str());
    for (int qt = 0; qt < 3; qt++) {
        uint64_t v = 0xabcdabcdabcdabcdull;
        size_t live = mc_ba_live();
        umf_result_t r = call(qt, name.c_str(), p, &v);
        mc_op("query kind %ld = %ld", qt, r);
        MC_CHECK(mc_ba_live() == live, "ctl:leak", "\"%s\": blocks kept", name.c_str());
        bool ok = false;
        if (qt == 0 && rest == ".params.ipc_enabled") {
            ok = true;
            MC_CHECK((int)v == vis, "ctlos:ipc", "ipc_enabled is %d", (int)v);
        } else if (qt == 0 && rest == ".stats.allocated_memory") {
            ok = true;
            MC_CHECK(v == A, "ctlos:alloc", "allocated_memory is %zu", (size_t)v);
        } else if (qt == 0 && rest == ".stats.peak_memory") {
            ok = true;
            MC_CHECK(v == P, "ctlos:peak", "peak_memory is %zu", (size_t)v);
        } else if (qt == 2 && rest == ".stats.reset")
            ok = true, P = A;
        MC_CHECK((r == UMF_RESULT_SUCCESS) == ok, "ctlos:result", "\"%s\" kind %d = %d", name.c_str(), qt, r);
    }
    uint64_t v = 0;
    MC_CHECK(umfCtlGet("umf.provider.by_handle.stats.peak_memory", p, &v) == UMF_RESULT_SUCCESS && v == P, "ctlos:peak", "peak_memory is %zu instead of %zu", (size_t)v, P);
    mc_state(h);
    umfMemoryProviderFree(p, b2, 8192);
    umfMemoryProviderDestroy(p);
    lib.done();
}
// first queries of several threads, each on its own or on the same provider
static void body_mt() {
    XLib lib;
    umf_os_memory_provider_params_handle_t pp[2] = {};
    umf_memory_provider_handle_t p[2] = {};
    for (int i = 0; i < 2; i++) {
        umfOsMemoryProviderParamsCreate(&pp[i]);
        umfOsMemoryProviderParamsSetVisibility(pp[i], i ? UMF_MEM_MAP_SHARED : UMF_MEM_MAP_PRIVATE);
        MC_CHECK(umfMemoryProviderCreate(umfOsMemoryProviderOps(), pp[i], &p[i]) == UMF_RESULT_SUCCESS, "setup:prov", "provider");
    }
    int nt = (int)mc_param("threads", 2);
    std::vector<std::function<void()>> th;
    std::vector<int> k;
    for (int i = 0; i < nt; i++)
        k.push_back(mc_choose(4) + 4 * (i ? mc_choose(2) : 0));
    for (int i = 0; i < nt; i++)
        th.push_back([&, i] {
            umf_memory_provider_handle_t q = p[k[(size_t)i] / 4];
            size_t v = 77;
            umf_result_t r = UMF_RESULT_SUCCESS;
            switch (k[(size_t)i] % 4) {
            case 0:
                r = umfCtlGet("umf.provider.by_handle.params.ipc_enabled", q, &v);
                MC_CHECK(r == UMF_RESULT_SUCCESS && (int)v == k[(size_t)i] / 4, "ctlmt:ipc", "ipc_enabled: result %d value %zu", r, v);
                break;
            case 1:
                r = umfCtlGet("umf.provider.by_handle.stats.peak_memory", q, &v);
                MC_CHECK(r == UMF_RESULT_SUCCESS && v == 0, "ctlmt:peak", "peak: result %d value %zu", r, v);
                break;
            case 2:
                r = umfCtlExec("umf.provider.by_handle.stats.reset", q, &v);
                MC_CHECK(r == UMF_RESULT_SUCCESS, "ctlmt:reset", "reset: result %d", r);
                break;
            case 3:
                r = umfCtlGet("umf.provider.by_handle.stats.nothing", q, &v);
                MC_CHECK(r != UMF_RESULT_SUCCESS && v == 77, "ctlmt:unknown", "unknown name: result %d", r);
            }
        });
    mt_run(th, (int)mc_param("pb", 2));
    uint64_t h = 1;
    for (int i = 0; i < nt; i++)
        h = mc_mix(h, (uint64_t)k[(size_t)i]);
    mc_state(h);
    mc_outcome(h);
    for (int i = 0; i < 2; i++) {
        umfMemoryProviderDestroy(p[i]);
        umfOsMemoryProviderParamsDestroy(pp[i]);
    }
    lib.done();
}
int main(int argc, char **argv) {
    return mc_main(argc, argv, {{"names", body_names, false, x_down}, {"config", body_config, false, x_down}, {"items", body_items, false, x_down}, {"conv", body_conv, false, x_down}, {"file", body_file, false, x_down}, {"public", body_public, false, x_down}, {"os", body_os, false, x_down}, {"mt", body_mt, true, x_down}});
}
