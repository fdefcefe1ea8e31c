// C19: every public call reaches exactly one callback of the object addressed,
// with its arguments and result intact; failures are attributed per thread.
#include "umfx.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <thread>
#include <umf/pools/pool_disjoint.h>
#include <umf/pools/pool_proxy.h>
#include <umf/providers/provider_devdax_memory.h>
#include <umf/providers/provider_file_memory.h>
#include <umf/providers/provider_fixed_memory.h>
#include <umf/providers/provider_os_memory.h>
// ---- recording provider ---------------------------------------------------
enum {
    P_ALLOC, P_FREE, P_NATIVE, P_RECPAGE, P_MINPAGE, P_NAME, P_LAZY, P_FORCE, P_SPLIT, P_MERGE,
    P_IPCSIZE, P_IPCGET, P_IPCPUT, P_IPCOPEN, P_IPCCLOSE, NP
};
static const char *PN[] = {"alloc", "free", "native_error", "recommended_page", "min_page", "name", "purge_lazy", "purge_force", "split", "merge", "ipc_size", "ipc_get", "ipc_put", "ipc_open", "ipc_close"};
struct Rec {
    int op;
    void *obj;
    uintptr_t a[4];
};
struct RProv {
    int id = 0;
    int n_init = 0, n_fini = 0;
    char tag[8];
};
// what the next callback answers; per thread so that threads do not disturb each other
struct Ans {
    umf_result_t code = UMF_RESULT_SUCCESS;
    uintptr_t value = 0;
};
static __thread Ans ANS;
static __thread Rec LOG[16];
static __thread int NLOG;
static void rec(int op, void *o, uintptr_t a = 0, uintptr_t b = 0, uintptr_t c = 0, uintptr_t d = 0) {
    mt_mark();
    if (NLOG < 16)
        LOG[NLOG] = {op, o, {a, b, c, d}};
    NLOG++;
}
#define U(x) ((uintptr_t)(x))
static umf_result_t INIT_CODE;
static RProv *INIT_GOT;
static int INITS;
extern "C" {
static umf_result_t r_init(void *params, void **p) {
    INITS++;
    INIT_GOT = (RProv *)params;
    if (INIT_CODE != UMF_RESULT_SUCCESS)
        return INIT_CODE;
    if (params)
        ((RProv *)params)->n_init++;
    *p = params;
    return UMF_RESULT_SUCCESS;
}
static void r_fini(void *p) { ((RProv *)p)->n_fini++; }
static umf_result_t r_alloc(void *p, size_t s, size_t al, void **ptr) {
    rec(P_ALLOC, p, s, al, U(ptr));
    if (ANS.code == UMF_RESULT_SUCCESS)
        *ptr = (void *)ANS.value;
    return ANS.code;
}
static umf_result_t r_free(void *p, void *q, size_t s) { return rec(P_FREE, p, U(q), s), ANS.code; }
static void r_native(void *p, const char **m, int32_t *e) {
    rec(P_NATIVE, p, U(m), U(e));
    if (m)
        *m = ((RProv *)p)->tag;
    if (e)
        *e = 1000 + ((RProv *)p)->id;
}
static umf_result_t r_rec(void *p, size_t s, size_t *o) {
    rec(P_RECPAGE, p, s, U(o));
    if (ANS.code == UMF_RESULT_SUCCESS)
        *o = ANS.value;
    return ANS.code;
}
static umf_result_t r_min(void *p, void *q, size_t *o) {
    rec(P_MINPAGE, p, U(q), U(o));
    if (ANS.code == UMF_RESULT_SUCCESS)
        *o = ANS.value;
    return ANS.code;
}
static const char *r_name(void *p) { return rec(P_NAME, p), ((RProv *)p)->tag; }
static umf_result_t r_lazy(void *p, void *q, size_t s) { return rec(P_LAZY, p, U(q), s), ANS.code; }
static umf_result_t r_force(void *p, void *q, size_t s) { return rec(P_FORCE, p, U(q), s), ANS.code; }
static umf_result_t r_split(void *p, void *q, size_t t, size_t f) { return rec(P_SPLIT, p, U(q), t, f), ANS.code; }
static umf_result_t r_merge(void *p, void *l, void *h, size_t t) { return rec(P_MERGE, p, U(l), U(h), t), ANS.code; }
static umf_result_t r_isz(void *p, size_t *s) {
    rec(P_IPCSIZE, p, U(s));
    if (ANS.code == UMF_RESULT_SUCCESS)
        *s = ANS.value;
    return ANS.code;
}
static umf_result_t r_iget(void *p, const void *q, size_t s, void *d) { return rec(P_IPCGET, p, U(q), s, U(d)), ANS.code; }
static umf_result_t r_iput(void *p, void *d) { return rec(P_IPCPUT, p, U(d)), ANS.code; }
static umf_result_t r_iopen(void *p, void *d, void **q) {
    rec(P_IPCOPEN, p, U(d), U(q));
    if (ANS.code == UMF_RESULT_SUCCESS)
        *q = (void *)ANS.value;
    return ANS.code;
}
static umf_result_t r_iclose(void *p, void *q, size_t s) { return rec(P_IPCCLOSE, p, U(q), s), ANS.code; }
static umf_result_t r_ctl(void *, int, const char *, void *, umf_ctl_query_type_t) { return ANS.code; }
}
// callbacks by bit: 0-7 mandatory, 8-9 purge, 10-11 split/merge, 12-16 ipc, 17 ctl
enum { NCB = 18 };
static umf_memory_provider_ops_t table(unsigned m) {
    umf_memory_provider_ops_t o;
    memset(&o, 0, sizeof o);
    o.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
    int b = 0;
#define F(f, fn) \
    if (m & 1u << b++) \
    o.f = fn
    F(initialize, r_init); F(finalize, r_fini); F(alloc, r_alloc); F(free, r_free); F(get_last_native_error, r_native); F(get_recommended_page_size, r_rec); F(get_min_page_size, r_min); F(get_name, r_name);
    F(ext.purge_lazy, r_lazy); F(ext.purge_force, r_force); F(ext.allocation_split, r_split); F(ext.allocation_merge, r_merge);
    F(ipc.get_ipc_handle_size, r_isz); F(ipc.get_ipc_handle, r_iget); F(ipc.put_ipc_handle, r_iput); F(ipc.open_ipc_handle, r_iopen); F(ipc.close_ipc_handle, r_iclose);
    F(ctl, r_ctl);
#undef F
    return o;
}
static const unsigned ALLCB = (1u << NCB) - 1;
static unsigned bit_of(int op) {
    static const int b[] = {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16};
    return 1u << b[op];
}
static const umf_result_t CODES[] = {UMF_RESULT_SUCCESS, UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC, UMF_RESULT_ERROR_INVALID_ARGUMENT, UMF_RESULT_ERROR_INVALID_ALIGNMENT, UMF_RESULT_ERROR_NOT_SUPPORTED, UMF_RESULT_ERROR_USER_SPECIFIC, UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE, UMF_RESULT_ERROR_OUT_OF_RESOURCES, UMF_RESULT_ERROR_UNKNOWN};
static const int NCODES = sizeof CODES / sizeof *CODES;
// Calls `op` of provider h with variant v of its arguments (0: valid; others
// invalid) and checks everything except last-failed. Returns 1 if the provider
// failed, 0 if it succeeded, -1 if the call was refused before reaching it.
static int NBAD[NP] = {2, 1, 0, 2, 2, 1, 2, 2, 5, 7, 2, 3, 2, 3, 2};
static int call(int op, umf_memory_provider_handle_t h, RProv *x, unsigned mask, umf_result_t code, int v) {
    static char buf[64];
    void *p1 = buf + 8, *p2 = buf + 24;
    size_t out = 0xdead;
    void *pout = (void *)0xdead;
    ANS = {code, 0x123450};
    NLOG = 0;
    umf_result_t r = UMF_RESULT_SUCCESS;
    umf_result_t bad = UMF_RESULT_ERROR_INVALID_ARGUMENT;
    Rec want = {op, x, {}};
    bool has_code = true, present = mask & bit_of(op);
    umf_memory_provider_handle_t q = v == 1 ? nullptr : h;
    auto args = [&](uintptr_t a = 0, uintptr_t b = 0, uintptr_t c = 0, uintptr_t d = 0) { want.a[0] = a, want.a[1] = b, want.a[2] = c, want.a[3] = d; };
    switch (op) {
    case P_ALLOC: {
        size_t s = v ? 7 : 100, al = 64;
        args(s, al, U(v == 2 ? nullptr : &pout));
        r = umfMemoryProviderAlloc(q, s, al, v == 2 ? nullptr : &pout);
        break;
    }
    case P_FREE:
        args(U(p1), 33);
        r = umfMemoryProviderFree(q, p1, 33);
        break;
    case P_NATIVE: {
        const char *m = nullptr;
        int32_t e = 0;
        umfMemoryProviderGetLastNativeError(q, &m, &e);
        args(U(&m), U(&e));
        has_code = false;
        MC_CHECK(m == x->tag && e == 1000 + x->id, "disp:native", "native error of another provider");
        break;
    }
    case P_RECPAGE:
        args(55, U(v == 2 ? nullptr : &out));
        r = umfMemoryProviderGetRecommendedPageSize(q, 55, v == 2 ? nullptr : &out);
        break;
    case P_MINPAGE:
        args(U(p1), U(v == 2 ? nullptr : &out));
        r = umfMemoryProviderGetMinPageSize(q, p1, v == 2 ? nullptr : &out);
        break;
    case P_NAME: {
        const char *n = umfMemoryProviderGetName(q);
        has_code = false;
        MC_CHECK(n == (v ? nullptr : x->tag), "disp:name", "name of another provider");
        break;
    }
    case P_LAZY:
        args(U(p1), 16);
        r = umfMemoryProviderPurgeLazy(q, v == 2 ? nullptr : p1, 16);
        break;
    case P_FORCE:
        args(U(p1), 16);
        r = umfMemoryProviderPurgeForce(q, v == 2 ? nullptr : p1, 16);
        break;
    case P_SPLIT: {
        size_t t = v == 3 ? 0 : 24, f = v == 4 ? 0 : v == 5 ? 24 : 8;
        args(U(p1), t, f);
        r = umfMemoryProviderAllocationSplit(q, v == 2 ? nullptr : p1, t, f);
        break;
    }
    case P_MERGE: {
        void *lo = v == 2 ? nullptr : v == 5 || v == 6 ? p2 : p1, *hi = v == 3 ? nullptr : v == 5 ? p1 : p2;
        size_t t = v == 4 ? 0 : v == 7 ? 16 : 40;
        args(U(lo), U(hi), t);
        r = umfMemoryProviderAllocationMerge(q, lo, hi, t);
        break;
    }
    case P_IPCSIZE:
        args(U(v == 2 ? nullptr : &out));
        r = umfMemoryProviderGetIPCHandleSize(q, v == 2 ? nullptr : &out);
        break;
    case P_IPCGET:
        args(U(p1), 5, U(p2));
        r = umfMemoryProviderGetIPCHandle(q, v == 2 ? nullptr : p1, 5, v == 3 ? nullptr : p2);
        break;
    case P_IPCPUT:
        args(U(p2));
        r = umfMemoryProviderPutIPCHandle(q, v == 2 ? nullptr : p2);
        break;
    case P_IPCOPEN:
        args(U(p2), U(&pout));
        r = umfMemoryProviderOpenIPCHandle(q, v == 2 ? nullptr : p2, v == 3 ? nullptr : &pout);
        break;
    case P_IPCCLOSE:
        args(U(p1), 16);
        r = umfMemoryProviderCloseIPCHandle(q, v == 2 ? nullptr : p1, 16);
        break;
    }
    int n = NLOG;
    if (v) {
        MC_CHECK(n == 0, "disp:invalid", "%s with invalid arguments (%d) reached the provider", PN[op], v);
        MC_CHECK(!has_code || r == bad, "disp:invalid", "%s with invalid arguments (%d) = %d", PN[op], v, r);
        return -1;
    }
    MC_CHECK(n == (present ? 1 : 0), "disp:calls", "%s made %d callbacks", PN[op], n);
    if (present) {
        MC_CHECK(LOG[0].op == op, "disp:callback", "%s reached callback %s", PN[op], PN[LOG[0].op]);
        MC_CHECK(LOG[0].obj == x, "disp:object", "%s reached another provider", PN[op]);
        MC_CHECK(!memcmp(LOG[0].a, want.a, sizeof want.a), "disp:args", "%s: arguments %lx %lx %lx became %lx %lx %lx", PN[op], (long)want.a[0], (long)want.a[1], (long)want.a[2], (long)LOG[0].a[0], (long)LOG[0].a[1], (long)LOG[0].a[2]);
    }
    umf_result_t wantc = !has_code ? UMF_RESULT_SUCCESS : present ? code : UMF_RESULT_ERROR_NOT_SUPPORTED;
    MC_CHECK(r == wantc, "disp:result", "%s = %d although the callback returned %d", PN[op], r, wantc);
    if (wantc == UMF_RESULT_SUCCESS && present) {
        if (op == P_ALLOC || op == P_IPCOPEN)
            MC_CHECK(pout == (void *)0x123450, "disp:out", "%s: result pointer %p", PN[op], pout);
        if (op == P_RECPAGE || op == P_MINPAGE || op == P_IPCSIZE)
            MC_CHECK(out == 0x123450, "disp:out", "%s: result %zx", PN[op], out);
    }
    return r != UMF_RESULT_SUCCESS;
}
// every subset of callbacks
static void body_tables() {
    XLib lib;
    unsigned m = 0;
    // high bits are one choice each so that every subset is one execution
    int hi = mc_choose(1 << 9), lo = mc_choose(1 << 9);
    m = (unsigned)hi << 9 | (unsigned)lo;
    int how = mc_param("how", 0); // 0: plain, 1: initialize fails
    INIT_CODE = how ? CODES[1 + m % (NCODES - 1)] : UMF_RESULT_SUCCESS;
    umf_memory_provider_ops_t o = table(m);
    RProv x;
    memset(x.tag, 0, 8);
    umf_memory_provider_handle_t h = (umf_memory_provider_handle_t)0x10;
    unsigned ipc = m >> 12 & 31;
    bool valid = (m & 255) == 255 && !(m >> 10 & 1) == !(m >> 11 & 1) && (ipc == 0 || ipc == 31);
    INITS = 0;
    umf_result_t r = umfMemoryProviderCreate(&o, &x, &h);
    if (!valid) {
        MC_CHECK(r == UMF_RESULT_ERROR_INVALID_ARGUMENT, "create:accepted", "table %x: result %d", m, r);
        MC_CHECK(INITS == 0, "create:init", "initialize called for a refused table");
    } else if (how) {
        MC_CHECK(r == INIT_CODE, "create:result", "initialize returned %d, creation %d", INIT_CODE, r);
        MC_CHECK(INITS == 1 && x.n_fini == 0, "create:init", "initialize %d, finalize %d", INITS, x.n_fini);
    } else {
        MC_CHECK(r == UMF_RESULT_SUCCESS && h, "create:refused", "table %x refused: %d", m, r);
        MC_CHECK(INITS == 1 && INIT_GOT == &x && x.n_fini == 0, "create:init", "initialize called %d times", INITS);
        for (int op = 0; op < NP; op++)
            for (umf_result_t c : {UMF_RESULT_SUCCESS, UMF_RESULT_ERROR_USER_SPECIFIC}) {
                call(op, h, &x, m, c, 0);
                mc_op("call %ld", op);
            }
        int arg;
        ANS = {UMF_RESULT_SUCCESS, 0};
        MC_CHECK((umfCtlGet("umf.provider.by_handle.x", h, &arg) == UMF_RESULT_SUCCESS) == !!(m >> 17), "create:ctl", "control query");
        umfMemoryProviderDestroy(h);
        MC_CHECK(x.n_init == 1 && x.n_fini == 1, "create:fini", "finalize called %d times", x.n_fini);
    }
    if (m == ALLCB && !how) {
        MC_CHECK(umfMemoryProviderCreate(nullptr, &x, &h) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfMemoryProviderCreate(&o, &x, nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "create:null", "null arguments accepted");
        umfMemoryProviderDestroy(nullptr);
        o.version = 1;
        MC_CHECK(umfMemoryProviderCreate(&o, &x, &h) == UMF_RESULT_SUCCESS, "create:version", "another version refused");
        umfMemoryProviderDestroy(h);
    }
    mc_op("table %lx valid %ld", m, valid);
    mc_state(m);
    mc_outcome(valid);
    lib.done();
}
// histories of calls on two providers, with last-failed tracked
static void body_calls() {
    XLib lib;
    RProv x[2];
    umf_memory_provider_handle_t h[2];
    INIT_CODE = UMF_RESULT_SUCCESS;
    static const unsigned masks[] = {ALLCB, ALLCB & ~(0x1ffu << 8)};
    umf_memory_provider_ops_t o[2] = {table(masks[0]), table(masks[1])};
    for (int i = 0; i < 2; i++) {
        x[i].id = i;
        snprintf(x[i].tag, sizeof x[i].tag, "prov%d", i);
        MC_CHECK(umfMemoryProviderCreate(&o[i], &x[i], &h[i]) == UMF_RESULT_SUCCESS, "setup:prov", "provider");
    }
    // a known starting point for this thread
    call(P_FREE, h[1], &x[1], masks[1], UMF_RESULT_ERROR_UNKNOWN, 0);
    int last = 1;
    MC_CHECK(umfGetLastFailedMemoryProvider() == h[1], "last:set", "last failed provider");
    long depth = mc_param("depth", 2), ncodes = mc_param("codes", NCODES);
    uint64_t s = 1;
    for (long d = 0; d < depth; d++) {
        int op = mc_choose(NP), i = mc_choose(2), v = op == P_NATIVE ? 0 : mc_choose(1 + NBAD[op]);
        umf_result_t code = v || op == P_NATIVE || op == P_NAME ? UMF_RESULT_SUCCESS : CODES[mc_choose((int)ncodes)];
        mc_op("call %ld on provider %ld, argument variant %ld, code %ld", op, i, v, code);
        int r = call(op, h[i], &x[i], masks[i], code, v);
        if (r == 1)
            last = i;
        MC_CHECK(umfGetLastFailedMemoryProvider() == h[last], "last:failed", "after %s (variant %d, code %d) on provider %d the last failed provider is %s, expected provider %d", PN[op], v, code, i, umfGetLastFailedMemoryProvider() == h[0] ? "0" : umfGetLastFailedMemoryProvider() == h[1] ? "1" : "another", last);
        s = mc_mix(s, (uint64_t)(op * 64 + i * 32 + v) * 16 + (uint64_t)code % 16);
        mc_outcome((uint64_t)(op * 4 + r + 1));
        mc_state(s);
    }
    for (int i = 0; i < 2; i++) {
        umfMemoryProviderDestroy(h[i]);
        MC_CHECK(x[i].n_init == 1 && x[i].n_fini == 1, "create:fini", "finalize called %d times", x[i].n_fini);
    }
    lib.done();
}
// ---- recording pool -------------------------------------------------------
enum { L_MALLOC, L_ALIGNED, L_CALLOC, L_REALLOC, L_USABLE, L_FREE, L_LASTERR, L_SETTAG, L_GETTAG, L_GETPROV, L_UMFFREE, L_BYPTR, L_UMFFREE_NONE, NL };
static const char *LN[] = {"malloc", "aligned_malloc", "calloc", "realloc", "usable_size", "free", "last_error", "set_tag", "get_tag", "get_provider", "umfFree", "umfPoolByPtr", "umfFree of a foreign pointer"};
struct RPool {
    umf_memory_provider_handle_t prov = nullptr;
    void *blk = nullptr;
    int n_init = 0, n_fini = 0;
    int *fini_order = nullptr; // finalised before its provider
    XProv *up = nullptr;
};
static umf_result_t PINIT_CODE;
extern "C" {
static umf_result_t l_init(umf_memory_provider_handle_t h, void *params, void **pool) {
    RPool *p = (RPool *)params;
    p->n_init++;
    p->prov = h;
    if (PINIT_CODE != UMF_RESULT_SUCCESS)
        return PINIT_CODE;
    *pool = p;
    return UMF_RESULT_SUCCESS;
}
static void l_fini(void *q) {
    RPool *p = (RPool *)q;
    p->n_fini++;
    if (p->up)
        MC_CHECK(p->up->n_fini == 0, "pool:order", "the provider was finalised before its pool");
    if (p->blk)
        umfMemoryProviderFree(p->prov, p->blk, 4096);
}
static void *l_malloc(void *p, size_t s) { return rec(L_MALLOC, p, s), (void *)ANS.value; }
static void *l_aligned(void *p, size_t s, size_t a) { return rec(L_ALIGNED, p, s, a), (void *)ANS.value; }
static void *l_calloc(void *p, size_t n, size_t s) { return rec(L_CALLOC, p, n, s), (void *)ANS.value; }
static void *l_realloc(void *p, void *q, size_t s) { return rec(L_REALLOC, p, U(q), s), (void *)ANS.value; }
static size_t l_usable(void *p, void *q) { return rec(L_USABLE, p, U(q)), ANS.value; }
static umf_result_t l_free(void *p, void *q) { return rec(L_FREE, p, U(q)), ANS.code; }
static umf_result_t l_err(void *p) { return rec(L_LASTERR, p), ANS.code; }
}
static umf_memory_pool_ops_t l_ops() {
    umf_memory_pool_ops_t o;
    memset(&o, 0, sizeof o);
    o.version = UMF_POOL_OPS_VERSION_CURRENT;
    o.initialize = l_init, o.finalize = l_fini, o.malloc = l_malloc, o.calloc = l_calloc, o.realloc = l_realloc, o.aligned_malloc = l_aligned, o.malloc_usable_size = l_usable, o.free = l_free, o.get_last_allocation_error = l_err;
    return o;
}
static umf_memory_pool_ops_t LOPS = l_ops();
struct Tags {
    uintptr_t tag[2] = {0, 0};
};
static void pcall(int op, umf_memory_pool_handle_t h, int i, RPool *x, umf_memory_provider_handle_t up, bool tracked, bool null, int ans, Tags &t) {
    static const uintptr_t vals[] = {0x7000, 0, 0x7fffffffffffff00ull, 1};
    ANS = {CODES[ans % NCODES], vals[ans % 4]};
    NLOG = 0;
    Rec want = {op, x, {}};
    int ncb = 1;
    umf_memory_pool_handle_t q = null ? nullptr : h;
    uintptr_t r = 0, wr = ANS.value;
    void *inside = (char *)x->blk + 100;
    switch (op) {
    case L_MALLOC: r = U(umfPoolMalloc(q, 77)), want.a[0] = 77; break;
    case L_ALIGNED: r = U(umfPoolAlignedMalloc(q, 77, 256)), want.a[0] = 77, want.a[1] = 256; break;
    case L_CALLOC: r = U(umfPoolCalloc(q, 3, 9)), want.a[0] = 3, want.a[1] = 9; break;
    case L_REALLOC: r = U(umfPoolRealloc(q, inside, 9)), want.a[0] = U(inside), want.a[1] = 9; break;
    case L_USABLE: r = umfPoolMallocUsableSize(q, inside), want.a[0] = U(inside); break;
    case L_FREE: r = umfPoolFree(q, inside), want.a[0] = U(inside), wr = ANS.code; break;
    case L_LASTERR: r = umfPoolGetLastAllocationError(q), wr = ANS.code; break;
    case L_SETTAG: {
        void *old = (void *)0xbad;
        r = umfPoolSetTag(q, (void *)vals[ans % 4], ans & 4 ? nullptr : &old);
        ncb = 0, wr = 0;
        if (!null) {
            MC_CHECK(ans & 4 || U(old) == t.tag[i], "pool:tag", "old tag %p, expected %lx", old, (long)t.tag[i]);
            t.tag[i] = vals[ans % 4];
        }
        break;
    }
    case L_GETTAG: {
        void *g = (void *)0xbad;
        r = umfPoolGetTag(q, &g);
        ncb = 0, wr = 0;
        if (!null) {
            MC_CHECK(U(g) == t.tag[i], "pool:tag", "tag %p, expected %lx", g, (long)t.tag[i]);
            MC_CHECK(umfPoolGetTag(q, nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "pool:null", "null tag pointer accepted");
        }
        break;
    }
    case L_GETPROV: {
        umf_memory_provider_handle_t g = nullptr;
        r = umfPoolGetMemoryProvider(q, &g);
        ncb = 0, wr = 0;
        if (!null) {
            MC_CHECK(g == up, "pool:provider", "another provider");
            MC_CHECK(umfPoolGetMemoryProvider(q, nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "pool:null", "null provider pointer accepted");
        }
        break;
    }
    case L_UMFFREE:
        if (null)
            inside = nullptr;
        r = umfFree(inside), want.a[0] = U(inside);
        want.op = L_FREE;
        ncb = tracked && !null;
        wr = ncb ? ANS.code : 0;
        null = false;
        break;
    case L_UMFFREE_NONE: {
        static char out[8];
        r = umfFree(null ? (char *)x->blk + 4096 : out);
        ncb = 0, wr = 0, null = false;
        break;
    }
    case L_BYPTR:
        for (size_t off : {(size_t)0, (size_t)100, (size_t)4095})
            MC_CHECK(umfPoolByPtr((char *)x->blk + off) == (tracked ? h : nullptr), "pool:byptr", "owner of +%zu", off);
        MC_CHECK(umfPoolByPtr((char *)x->blk + 4096) != h && umfPoolByPtr((char *)x->blk - 1) != h && umfPoolByPtr(nullptr) == nullptr, "pool:byptr", "owner of a foreign pointer");
        r = wr = 0, ncb = 0, null = false;
        break;
    }
    if (null) {
        ncb = 0;
        wr = op < L_FREE ? 0 : UMF_RESULT_ERROR_INVALID_ARGUMENT;
    }
    MC_CHECK(NLOG == ncb, "pool:calls", "%s made %d callbacks instead of %d", LN[op], NLOG, ncb);
    if (ncb) {
        MC_CHECK(LOG[0].op == want.op, "pool:callback", "%s reached callback %s", LN[op], LN[LOG[0].op]);
        MC_CHECK(LOG[0].obj == x, "pool:object", "%s reached another pool", LN[op]);
        MC_CHECK(!memcmp(LOG[0].a, want.a, sizeof want.a), "pool:args", "%s: arguments %lx %lx became %lx %lx", LN[op], (long)want.a[0], (long)want.a[1], (long)LOG[0].a[0], (long)LOG[0].a[1]);
    }
    MC_CHECK(r == wr, "pool:result", "%s (null %d) = %lx instead of %lx", LN[op], null, (long)r, (long)wr);
}
static void body_pools() {
    XLib lib;
    PINIT_CODE = UMF_RESULT_SUCCESS;
    XProv up[2];
    RPool x[2];
    umf_memory_provider_handle_t ph[2];
    umf_memory_pool_handle_t h[2];
    bool tracked[2];
    Tags t;
    int cfg = mc_choose(4);
    for (int i = 0; i < 2; i++) {
        up[i].id = i;
        ph[i] = x_provider(&up[i]);
        tracked[i] = !(cfg >> i & 1);
        MC_CHECK(umfPoolCreate(&LOPS, ph[i], &x[i], tracked[i] ? 0 : UMF_POOL_CREATE_FLAG_DISABLE_TRACKING, &h[i]) == UMF_RESULT_SUCCESS, "setup:pool", "pool");
        MC_CHECK(umfMemoryProviderAlloc(x[i].prov, 4096, 0, &x[i].blk) == UMF_RESULT_SUCCESS, "setup:alloc", "alloc");
    }
    uint64_t s = (uint64_t)cfg;
    for (long d = 0; d < mc_param("depth", 2); d++) {
        int op = mc_choose(NL), i = mc_choose(2);
        bool null = mc_choose(2);
        if (op == L_BYPTR && null)
            mc_prune();
        int ans = null || op == L_GETTAG || op == L_GETPROV || op >= L_BYPTR ? 0 : mc_choose((int)mc_param("answers", NCODES));
        mc_op("pool call %ld on pool %ld, null handle %ld, answer %ld", op, i, null, ans);
        pcall(op, h[i], i, &x[i], ph[i], tracked[i], null, ans, t);
        s = mc_mix(s, (uint64_t)(op * 64 + i * 32 + null * 16 + ans));
        mc_state(s);
        mc_outcome((uint64_t)(op * 2 + null));
    }
    for (int i = 0; i < 2; i++) {
        umfPoolDestroy(h[i]);
        MC_CHECK(x[i].n_init == 1 && x[i].n_fini == 1 && up[i].n_fini == 0, "pool:fini", "pool finalised %d times, provider %d", x[i].n_fini, up[i].n_fini);
        umfMemoryProviderDestroy(ph[i]);
    }
    lib.done();
}
// creation and destruction of pools: flags, failures, ownership
static void body_create() {
    XLib lib;
    bool faulty = mc_param("faults", 0) > 0;
    PINIT_CODE = CODES[mc_choose(NCODES)];
    unsigned flags = (unsigned)mc_choose(4);
    bool second = !(flags & UMF_POOL_CREATE_FLAG_OWN_PROVIDER) && mc_choose(2);
    XProv up;
    umf_memory_provider_handle_t ph = x_provider(&up);
    RPool x[2];
    umf_memory_pool_handle_t h[2] = {};
    int made = 0;
    for (int i = 0; i < 1 + second; i++) {
        x[i].up = &up;
        size_t live = mc_ba_live();
        int f0 = mc_faults_used();
        mc_ba_faults(faulty), mc_mutex_faults(faulty);
        umf_result_t r = umfPoolCreate(&LOPS, ph, &x[i], flags, &h[i]);
        mc_ba_faults(0), mc_mutex_faults(0);
        bool failed = mc_faults_used() > f0;
        mc_op("create with flags %ld, initialize code %ld = %ld", flags, PINIT_CODE, r);
        if (failed)
            MC_CHECK(r != UMF_RESULT_SUCCESS, "pool:create-fault", "creation succeeded although an internal step failed");
        else
            MC_CHECK(r == PINIT_CODE, "pool:create-result", "creation = %d, initialize returned %d", r, PINIT_CODE);
        MC_CHECK(x[i].n_fini == 0 && (failed || x[i].n_init == 1), "pool:init", "initialize %d finalize %d", x[i].n_init, x[i].n_fini);
        MC_CHECK(up.n_fini == 0, "pool:own", "the provider was finalised by a failed creation or by a creation");
        if (r != UMF_RESULT_SUCCESS) {
            MC_CHECK(mc_ba_live() == live, "pool:leak", "failed creation keeps %zd blocks", (ssize_t)(mc_ba_live() - live));
            break;
        }
        made++;
        if (flags & UMF_POOL_CREATE_FLAG_DISABLE_TRACKING)
            MC_CHECK(x[i].prov == ph, "pool:untracked", "the pool was given another provider");
        MC_CHECK(umfMemoryProviderAlloc(x[i].prov, 4096, 0, &x[i].blk) == UMF_RESULT_SUCCESS, "pool:use", "the provider given to the pool does not allocate");
        MC_CHECK(!strcmp(umfMemoryProviderGetName(x[i].prov), "model"), "pool:name", "name of the provider");
    }
    bool first = made == 2 && mc_choose(2);
    for (int k = 0; k < made; k++) {
        int i = first ? made - 1 - k : k;
        umfPoolDestroy(h[i]);
        MC_CHECK(x[i].n_fini == 1, "pool:fini", "finalize called %d times", x[i].n_fini);
        if (!(flags & UMF_POOL_CREATE_FLAG_OWN_PROVIDER))
            MC_CHECK(up.n_fini == 0, "pool:own", "a provider the pool does not own was finalised");
    }
    bool owned = made && (flags & UMF_POOL_CREATE_FLAG_OWN_PROVIDER);
    MC_CHECK(up.n_fini == (owned ? 1 : 0), "pool:own", "provider finalised %d times", up.n_fini);
    MC_CHECK(up.live.empty(), "pool:mem", "memory left in the provider");
    if (!owned) {
        // it still works
        void *p = nullptr;
        MC_CHECK(umfMemoryProviderAlloc(ph, 4096, 0, &p) == UMF_RESULT_SUCCESS && umfMemoryProviderFree(ph, p, 4096) == UMF_RESULT_SUCCESS, "pool:prov-dead", "provider unusable afterwards");
        for (auto bad : {0, 1, 2}) {
            umf_memory_pool_handle_t z = nullptr;
            RPool y;
            MC_CHECK(umfPoolCreate(bad == 0 ? nullptr : &LOPS, bad == 1 ? nullptr : ph, &y, flags, bad == 2 ? nullptr : &z) == UMF_RESULT_ERROR_INVALID_ARGUMENT && !y.n_init, "pool:null", "null argument %d accepted", bad);
        }
        umfMemoryProviderDestroy(ph);
        MC_CHECK(up.n_fini == 1, "prov:fini", "provider finalised %d times", up.n_fini);
    }
    mc_state(mc_mix(flags * 2 + second, (uint64_t)PINIT_CODE));
    mc_outcome((uint64_t)made);
    lib.done();
}
// the built-in proxy pool: requests and failures pass through unchanged
static void body_proxy() {
    XLib lib;
    XProv up[2];
    umf_memory_provider_handle_t ph[2];
    umf_memory_pool_handle_t h[2];
    for (int i = 0; i < 2; i++) {
        up[i].id = i;
        up[i].faults = FA_ALLOC | FA_FREE;
        up[i].code = CODES[1 + mc_choose(NCODES - 1)];
        ph[i] = x_provider(&up[i]);
        MC_CHECK(umfPoolCreate(umfProxyPoolOps(), ph[i], nullptr, 0, &h[i]) == UMF_RESULT_SUCCESS, "setup:pool", "pool");
        if (i == 0)
            up[1].code = up[0].code;
    }
    std::vector<std::pair<int, void *>> live;
    umf_result_t err = UMF_RESULT_SUCCESS;
    bool err_known = false;
    uint64_t s = 1;
    for (long d = 0; d < mc_param("depth", 3); d++) {
        int k = mc_choose(6), i = mc_choose(2);
        if (k == 2 && live.empty())
            mc_prune();
        long nf = up[i].n_fail, na = up[i].n_alloc;
        switch (k) {
        case 0:
        case 1: {
            size_t size = 100, al = k ? 8192 : 0;
            void *p = k ? umfPoolAlignedMalloc(h[i], size, al) : umfPoolMalloc(h[i], size);
            bool ok = up[i].n_fail == nf;
            MC_CHECK((p != nullptr) == ok && up[i].n_alloc == na + ok, "proxy:result", "pointer %p although the provider %s", p, ok ? "succeeded" : "failed");
            MC_CHECK(up[i].last_size == size && up[i].last_align == al, "proxy:args", "provider asked for %zu/%zu", up[i].last_size, up[i].last_align);
            err_known = !ok;
            err = up[i].code;
            if (ok)
                live.push_back({i, p});
            break;
        }
        case 2: {
            auto b = live.back();
            live.pop_back();
            i = b.first;
            nf = up[i].n_fail;
            umf_result_t r = mc_choose(2) ? umfPoolFree(h[i], b.second) : umfFree(b.second);
            MC_CHECK((r == UMF_RESULT_SUCCESS) == (up[i].n_fail == nf) && (r == UMF_RESULT_SUCCESS || r == up[i].code), "proxy:free", "free = %d", r);
            if (r != UMF_RESULT_SUCCESS)
                live.push_back(b);
            break;
        }
        default: {
            void *p = (void *)1;
            size_t u = 0;
            if (k == 3)
                p = umfPoolCalloc(h[i], 1, 8);
            else if (k == 4)
                p = umfPoolRealloc(h[i], live.empty() ? nullptr : live.back().second, 8);
            else
                u = umfPoolMallocUsableSize(h[i], live.empty() ? nullptr : live.back().second);
            MC_CHECK(k == 5 ? u == 0 : p == nullptr, "proxy:unsupported", "an unsupported operation gave a result");
            err = UMF_RESULT_ERROR_NOT_SUPPORTED;
            err_known = k != 5;
        }
        }
        if (up[i].n_fail > nf) {
            umf_memory_provider_handle_t l = umfGetLastFailedMemoryProvider();
            const char *m = nullptr;
            int32_t e = 0;
            MC_CHECK(l && umfMemoryProviderGetName(l) && !strcmp(umfMemoryProviderGetName(l), "model"), "last:pool", "the last failed provider has another name");
            umfMemoryProviderGetLastNativeError(l, &m, &e);
            MC_CHECK(e == 42 && m && !strcmp(m, "model provider error"), "last:pool", "native error %d through the last failed provider", e);
        }
        if (err_known)
            MC_CHECK(umfPoolGetLastAllocationError(h[i]) == err, "proxy:error", "last allocation error %d, expected %d", umfPoolGetLastAllocationError(h[i]), err);
        mc_op("proxy pool %ld call %ld", i, k);
        s = mc_mix(s, (uint64_t)(k * 2 + i + (up[i].n_fail > nf) * 32));
        mc_state(s);
    }
    for (int i = 0; i < 2; i++)
        up[i].faults = 0;
    for (auto &b : live)
        umfPoolFree(h[b.first], b.second);
    for (int i = 0; i < 2; i++) {
        umfPoolDestroy(h[i]);
        umfMemoryProviderDestroy(ph[i]);
    }
    lib.done();
}
// threads: attribution is per thread, tags are exchanged atomically
static void body_mt() {
    XLib lib;
    INIT_CODE = PINIT_CODE = UMF_RESULT_SUCCESS;
    RProv x[2];
    umf_memory_provider_handle_t h[2];
    umf_memory_provider_ops_t o = table(ALLCB);
    for (int i = 0; i < 2; i++) {
        x[i].id = i;
        MC_CHECK(umfMemoryProviderCreate(&o, &x[i], &h[i]) == UMF_RESULT_SUCCESS, "setup:prov", "provider");
    }
    int nt = (int)mc_param("threads", 2), len = (int)mc_param("len", 2);
    std::vector<std::vector<int>> prog((size_t)nt);
    for (auto &p : prog)
        for (int k = 0; k < len; k++)
            p.push_back(mc_choose(6));
    for (int i = 1; i < nt; i++)
        if (prog[(size_t)i] < prog[(size_t)i - 1])
            mc_prune();
    std::vector<std::function<void()>> th;
    for (int i = 0; i < nt; i++)
        th.push_back([&, i] {
            umf_memory_provider_handle_t want = umfGetLastFailedMemoryProvider();
            MC_CHECK(want == nullptr, "last:new-thread", "a thread that made no call has a last failed provider");
            for (int k : prog[(size_t)i]) {
                int p = k & 1;
                switch (k >> 1) {
                case 0: // a failure
                    call(i ? P_FREE : P_ALLOC, h[p], &x[p], ALLCB, UMF_RESULT_ERROR_OUT_OF_RESOURCES, 0);
                    want = h[p];
                    break;
                case 1:
                    call(i ? P_ALLOC : P_MINPAGE, h[p], &x[p], ALLCB, UMF_RESULT_SUCCESS, 0);
                    break;
                case 2:
                    call(P_SPLIT, h[p], &x[p], ALLCB, UMF_RESULT_SUCCESS, 3);
                    break;
                }
                MC_CHECK(umfGetLastFailedMemoryProvider() == want, "last:thread", "thread %d: last failed provider changed by others or by a successful call", i);
            }
        });
    mt_run(th, (int)mc_param("pb", 2));
    uint64_t s = 1;
    for (auto &p : prog)
        for (int k : p)
            s = mc_mix(s, (uint64_t)k);
    mc_state(s);
    mc_outcome(s);
    for (int i = 0; i < 2; i++)
        umfMemoryProviderDestroy(h[i]);
    lib.done();
}
static void body_tags() {
    XLib lib;
    PINIT_CODE = UMF_RESULT_SUCCESS;
    XProv up;
    umf_memory_provider_handle_t ph = x_provider(&up);
    RPool x;
    umf_memory_pool_handle_t h;
    MC_CHECK(umfPoolCreate(&LOPS, ph, &x, 0, &h) == UMF_RESULT_SUCCESS, "setup:pool", "pool");
    int nt = (int)mc_param("threads", 2);
    std::vector<std::vector<uintptr_t>> got((size_t)nt);
    std::vector<std::function<void()>> th;
    for (int i = 0; i < nt; i++)
        th.push_back([&, i] {
            for (int k = 0; k < 2; k++) {
                void *old = nullptr, *g = nullptr;
                umfPoolSetTag(h, (void *)(uintptr_t)(10 * (i + 1) + k), &old);
                got[(size_t)i].push_back(U(old));
                umfPoolGetTag(h, &g);
                MC_CHECK(U(g) >= 10, "pool:tag", "tag %p", g);
            }
        });
    mt_run(th, (int)mc_param("pb", 2));
    // every tag was replaced exactly once, except the one left over
    std::multiset<uintptr_t> seen;
    for (auto &v : got)
        for (auto t : v)
            seen.insert(t);
    void *g = nullptr;
    umfPoolGetTag(h, &g);
    seen.insert(U(g));
    MC_CHECK(seen.count(0) == 1, "pool:tag", "the initial tag was returned %zu times", seen.count(0));
    for (int i = 0; i < nt; i++)
        for (int k = 0; k < 2; k++)
            MC_CHECK(seen.count((uintptr_t)(10 * (i + 1) + k)) == 1, "pool:tag", "a tag was returned %zu times", seen.count((uintptr_t)(10 * (i + 1) + k)));
    mc_outcome(U(g));
    mc_state(U(g));
    umfPoolDestroy(h);
    umfMemoryProviderDestroy(ph);
    lib.done();
}
// what a thread is told about its latest failure is not changed by failures of others
static void body_errors() {
    int kind = mc_choose(6), nt = (int)mc_param("threads", 2);
    enum { OS, FIXED, FIL, DAX, DISJ, PROXY };
    enum { NOTHING, HUGE, LAZY, FORCE, FREE, NOPS };
    XLib lib;
    static char *mem = (char *)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    umf_memory_provider_handle_t ph = nullptr;
    umf_memory_pool_handle_t pool = nullptr;
    XProv up;
    int fd = -1;
    char path[64];
    if (kind == OS) {
        umf_os_memory_provider_params_handle_t p;
        MC_CHECK(!umfOsMemoryProviderParamsCreate(&p), "setup:params", "parameters");
        MC_CHECK(!umfMemoryProviderCreate(umfOsMemoryProviderOps(), p, &ph), "setup:prov", "provider");
        umfOsMemoryProviderParamsDestroy(p);
    } else if (kind == FIXED) {
        umf_fixed_memory_provider_params_handle_t p;
        MC_CHECK(!umfFixedMemoryProviderParamsCreate(&p, mem, 1 << 20), "setup:params", "parameters");
        MC_CHECK(!umfMemoryProviderCreate(umfFixedMemoryProviderOps(), p, &ph), "setup:prov", "provider");
        umfFixedMemoryProviderParamsDestroy(p);
    } else if (kind == FIL) {
        fd = memfd_create("c19", 0);
        snprintf(path, sizeof path, "/proc/self/fd/%d", fd);
        umf_file_memory_provider_params_handle_t p;
        MC_CHECK(!umfFileMemoryProviderParamsCreate(&p, path), "setup:params", "parameters");
        MC_CHECK(!umfMemoryProviderCreate(umfFileMemoryProviderOps(), p, &ph), "setup:prov", "provider");
        umfFileMemoryProviderParamsDestroy(p);
    } else if (kind == DAX) {
        umf_devdax_memory_provider_params_handle_t p;
        MC_CHECK(!umfDevDaxMemoryProviderParamsCreate(&p, "/dev/zero", 1 << 22), "setup:params", "parameters");
        if (umfMemoryProviderCreate(umfDevDaxMemoryProviderOps(), p, &ph)) { // no such mappings here
            umfDevDaxMemoryProviderParamsDestroy(p);
            lib.done();
            mc_prune();
        }
        umfDevDaxMemoryProviderParamsDestroy(p);
    } else {
        ph = x_provider(&up);
        if (kind == DISJ) {
            umf_disjoint_pool_params_handle_t p;
            MC_CHECK(!umfDisjointPoolParamsCreate(&p), "setup:params", "parameters");
            MC_CHECK(!umfPoolCreate(umfDisjointPoolOps(), ph, p, 0, &pool), "setup:pool", "pool");
            umfDisjointPoolParamsDestroy(p);
        } else
            MC_CHECK(!umfPoolCreate(umfProxyPoolOps(), ph, nullptr, 0, &pool), "setup:pool", "pool");
    }
    struct Told {
        int r = -1, code = 0;
        std::string msg;
        bool operator==(const Told &o) const { return r == o.r && code == o.code && msg == o.msg; }
    };
    auto run = [&](int op) {
        Told t;
        void *q = nullptr;
        if (ph && !pool) {
            switch (op) {
            case HUGE: if (kind != FIL) t.r = umfMemoryProviderAlloc(ph, (size_t)1 << 60, 0, &q); break; // (a file would be grown)
            case LAZY: t.r = umfMemoryProviderPurgeLazy(ph, (void *)0x1000, 0x1000); break;
            case FORCE: t.r = umfMemoryProviderPurgeForce(ph, (void *)0x1000, 0x1000); break;
            case FREE: if (kind == OS) t.r = umfMemoryProviderFree(ph, (void *)0x1001, 0x1000); break;
            }
            mt_mark();
            const char *m = nullptr;
            int32_t e = -7;
            umfMemoryProviderGetLastNativeError(ph, &m, &e);
            t.code = e, t.msg = m ? m : "(none)";
            return t;
        }
        switch (op) {
        case HUGE: q = umfPoolMalloc(pool, (size_t)1 << 45); break;
        case LAZY: q = umfPoolAlignedMalloc(pool, 64, 24); break;
        case FORCE: q = umfPoolCalloc(pool, 1, 64); break;
        case FREE: q = umfPoolRealloc(pool, nullptr, 64); break;
        }
        mt_mark();
        t.r = q != nullptr, t.code = umfPoolGetLastAllocationError(pool);
        if (q)
            umfPoolFree(pool, q), t.code = 0; // not specified after a success
        return t;
    };
    int prog[3];
    Told want[NOPS], got[3];
    for (int i = 0; i < nt; i++) {
        prog[i] = mc_choose(NOPS);
        if (i && prog[i] < prog[i - 1])
            mc_prune();
    }
    for (int k = 0; k < NOPS; k++) // each alone in a thread of its own
        std::thread([&, k] { want[k] = run(k); }).join();
    mc_op("object %ld: %ld and %ld", kind, prog[0], prog[1]);
    std::vector<std::function<void()>> th;
    for (int i = 0; i < nt; i++)
        th.push_back([&, i] { got[i] = run(prog[i]); });
    mt_run(th, (int)mc_param("pb", 2));
    uint64_t s = (uint64_t)kind;
    for (int i = 0; i < nt; i++) {
        Told &w = want[prog[i]];
        MC_CHECK(got[i] == w, "last:error", "object %d, operation %d: told %d, %d '%.60s' instead of %d, %d '%.60s'", kind, prog[i], got[i].r, got[i].code, got[i].msg.c_str(), w.r, w.code, w.msg.c_str());
        s = mc_mix(s, (uint64_t)prog[i] * 100 + (uint64_t)w.code);
    }
    mc_state(s), mc_outcome(s);
    if (pool)
        umfPoolDestroy(pool);
    umfMemoryProviderDestroy(ph);
    if (fd >= 0)
        close(fd);
    lib.done();
}
static void setup() {
    x_arena(1), x_down();
}
int main(int argc, char **argv) {
    return mc_main(argc, argv, {{"tables", body_tables, false, setup}, {"calls", body_calls, false, setup}, {"pools", body_pools, false, setup}, {"create", body_create, false, setup}, {"proxy", body_proxy, false, setup}, {"mt", body_mt, true, setup}, {"errors", body_errors, true, setup}, {"tags", body_tags, false, setup}});
}
