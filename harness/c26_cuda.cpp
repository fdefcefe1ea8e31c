// C26: CUDA provider over a model of the driver.
#include "umfx.hpp"
#include <algorithm>
#include <umf/providers/provider_cuda.h>
#include "cuda.h"
extern "C" {
void *__real_utils_open_library(const char *, int);
void *__real_utils_get_symbol_addr(void *, const char *, const char *);
int __real_utils_close_library(void *);
}
// ---- the driver ----------------------------------------------------------------------
enum { K_HOST, K_DEV, K_SHARED };
enum { P_GET = 1, P_SET, P_CALL }; // which call was refused
struct GBlk {
    int kind;
    size_t size;
    unsigned flags;
};
struct Ref { // refusals of one call of the provider, in order
    CUresult pre, call, post;
};
struct Cu {
    bool missing_lib = false;
    std::string missing;
    int opened = 0;
    CUcontext cur[8];  // current context of each thread
    CUcontext want;    // context of the provider
    int device = 1;    // current device
    size_t gran = 0x1000, rec = 0x200000, place = 0x1000;
    uintptr_t top = 0x520000000000;
    std::map<uintptr_t, GBlk> live;
    std::map<uintptr_t, int> maps;
    int faults = 0, codes = 1;
    bool nameless = false; // the driver does not know the code
    bool lost = false;     // a release was refused
    int asked_dev = -1;    // device of the latest query
    int calls[8] = {0};    // driver calls that do something, since the start of the operation
    Ref ref[8];
};
static Cu G;
static const CUresult CODES[] = {CUDA_ERROR_UNKNOWN, CUDA_ERROR_OUT_OF_MEMORY, CUDA_ERROR_INVALID_VALUE, CUDA_ERROR_DEINITIALIZED, CUDA_ERROR_INVALID_HANDLE, CUDA_ERROR_INVALID_CONTEXT};
static int me() { return mt_self() < 0 ? 0 : mt_self(); }
static void start() { G.ref[me()] = {CUDA_SUCCESS, CUDA_SUCCESS, CUDA_SUCCESS}, G.calls[me()] = 0; }
static CUresult done(int what, CUresult r) {
    if (r) {
        Ref &f = G.ref[me()];
        (what == P_CALL ? f.call : G.calls[me()] ? f.post : f.pre) = r;
    }
    return r;
}
static CUresult refuse(int what, const char *name) {
    mt_mark();
    MC_CHECK(G.opened > 0, "cu:unloaded", "%s called while the library is not held", name);
    if (!G.faults || !mc_fault())
        return CUDA_SUCCESS;
    int k = G.codes > 1 ? mc_choose(G.codes) : me() % 2 * 5; // else each thread has its own code
    mc_op("  refused with code %ld of the list", k);
    return done(what, CODES[k]);
}
static CUresult g_getctx(CUcontext *c) {
    if (CUresult r = refuse(P_GET, "cuCtxGetCurrent")) {
        *c = (CUcontext)0xbad;
        return r;
    }
    *c = G.cur[me()];
    return CUDA_SUCCESS;
}
static CUresult g_setctx(CUcontext c) {
    MC_CHECK(c != (CUcontext)0xbad, "cu:context", "context set which the driver did not give");
    if (CUresult r = refuse(P_SET, "cuCtxSetCurrent"))
        return r;
    G.cur[me()] = c;
    return CUDA_SUCCESS;
}
static CUresult g_getdev(CUdevice *d) {
    if (CUresult r = refuse(P_CALL, "cuCtxGetDevice")) {
        *d = 55;
        return r;
    }
    if (!G.cur[me()])
        return done(P_CALL, CUDA_ERROR_INVALID_CONTEXT);
    *d = G.device;
    return CUDA_SUCCESS;
}
static CUresult g_gran(size_t *g, const CUmemAllocationProp *p, CUmemAllocationGranularity_flags o) {
    MC_CHECK(p && p->type == CU_MEM_ALLOCATION_TYPE_PINNED && p->location.type == CU_MEM_LOCATION_TYPE_DEVICE && !p->requestedHandleTypes && !p->win32HandleMetaData, "cu:desc", "malformed properties");
    G.asked_dev = p->location.id;
    if (CUresult r = refuse(P_CALL, "cuMemGetAllocationGranularity"))
        return r;
    *g = o == CU_MEM_ALLOC_GRANULARITY_MINIMUM ? G.gran : G.rec;
    return CUDA_SUCCESS;
}
static void ctx_ok(const char *what) {
    MC_CHECK(G.cur[me()] == G.want, "cu:context", "%s called with context %p current", what, (void *)G.cur[me()]);
    G.calls[me()]++;
}
static CUresult g_alloc(int kind, size_t n, unsigned fl, uintptr_t *out) {
    ctx_ok("allocation");
    if (CUresult r = refuse(P_CALL, "allocation"))
        return r;
    if (n == 0)
        return done(P_CALL, CUDA_ERROR_INVALID_VALUE);
    if (n > (size_t)1 << 40)
        return done(P_CALL, CUDA_ERROR_OUT_OF_MEMORY);
    uintptr_t a = (G.top + 0x1fff) / 0x2000 * 0x2000 + (G.place == 0x1000 ? 0 : G.place);
    G.top = a + n + 0x1000;
    G.live[a] = {kind, n, fl};
    mc_op("  driver: alloc kind %ld size %lx -> %lx", kind, (long)n, (long)a);
    *out = a;
    return CUDA_SUCCESS;
}
static CUresult g_dev(CUdeviceptr *p, size_t n) {
    uintptr_t a = 0;
    CUresult r = g_alloc(K_DEV, n, 0, &a);
    if (!r)
        *p = a;
    return r;
}
static CUresult g_managed(CUdeviceptr *p, size_t n, unsigned fl) {
    uintptr_t a = 0;
    CUresult r = g_alloc(K_SHARED, n, fl, &a);
    if (!r)
        *p = a;
    return r;
}
static CUresult g_host(void **p, size_t n, unsigned fl) {
    uintptr_t a = 0;
    CUresult r = g_alloc(K_HOST, n, fl, &a);
    if (!r)
        *p = (void *)a;
    return r;
}
static CUresult g_release(uintptr_t p, bool host) {
    ctx_ok("free");
    auto it = G.live.find(p);
    MC_CHECK(it != G.live.end(), "cu:free", "release of %lx, which is not an allocation", (long)p);
    MC_CHECK((it->second.kind == K_HOST) == host, "cu:free-kind", "memory of kind %d released by the call for %s memory", it->second.kind, host ? "host" : "device");
    if (CUresult r = refuse(P_CALL, "free")) {
        G.lost = true;
        return r;
    }
    G.live.erase(it);
    mc_op("  driver: free %lx", (long)p);
    return CUDA_SUCCESS;
}
static CUresult g_free(CUdeviceptr p) { return g_release((uintptr_t)p, false); }
static CUresult g_freehost(void *p) { return g_release((uintptr_t)p, true); }
static CUresult g_ename(CUresult e, const char **s) {
    static char buf[32];
    if (G.nameless) {
        *s = nullptr;
        return CUDA_ERROR_INVALID_VALUE;
    }
    snprintf(buf, sizeof buf, "CUDA_NAME_%d", (int)e);
    *s = buf;
    return CUDA_SUCCESS;
}
static std::string longmsg(int e) { return "text of " + std::to_string(e) + std::string(mc_param("longmsg", 0) ? 1200 : 0, '.'); }
static CUresult g_estr(CUresult e, const char **s) {
    static std::string buf;
    if (G.nameless) {
        *s = nullptr;
        return CUDA_ERROR_INVALID_VALUE;
    }
    buf = longmsg((int)e);
    *s = buf.c_str();
    return CUDA_SUCCESS;
}
struct GIpc {
    uintptr_t p;
    long check;
};
static CUresult g_ipcget(CUipcMemHandle *h, CUdeviceptr p) {
    G.calls[me()]++;
    MC_CHECK(G.live.count((uintptr_t)p), "cu:ipcget", "export of %llx, which is not an allocation", p);
    if (CUresult r = refuse(P_CALL, "cuIpcGetMemHandle"))
        return r;
    memset(h, 0, sizeof *h);
    GIpc i = {(uintptr_t)p, 0x5e1f};
    memcpy(h, &i, sizeof i);
    memcpy(h->reserved + CU_IPC_HANDLE_SIZE - 8, &i.check, 8);
    return CUDA_SUCCESS;
}
static CUresult g_ipcopen(CUdeviceptr *p, CUipcMemHandle h, unsigned fl) {
    ctx_ok("open");
    GIpc i;
    long e;
    memcpy(&i, &h, sizeof i);
    memcpy(&e, h.reserved + CU_IPC_HANDLE_SIZE - 8, 8);
    MC_CHECK(i.check == 0x5e1f && e == 0x5e1f, "cu:ipc", "damaged handle reaches the driver");
    MC_CHECK(fl == CU_IPC_MEM_LAZY_ENABLE_PEER_ACCESS, "cu:ipc", "handle opened with flags %x", fl);
    if (CUresult r = refuse(P_CALL, "cuIpcOpenMemHandle"))
        return r;
    uintptr_t a = G.top = (G.top + 0xffff) / 0x10000 * 0x10000;
    G.top += 0x100000;
    G.maps[a] = 1;
    mc_op("  driver: opened handle at %lx", (long)a);
    *p = a;
    return CUDA_SUCCESS;
}
static CUresult g_ipcclose(CUdeviceptr p) {
    G.calls[me()]++;
    MC_CHECK(G.maps.count((uintptr_t)p), "cu:ipcclose", "close of %llx, which is not open", p);
    if (CUresult r = refuse(P_CALL, "cuIpcCloseMemHandle"))
        return r;
    G.maps.erase((uintptr_t)p);
    return CUDA_SUCCESS;
}
static const struct {
    const char *n;
    void *f;
} SYMS[] = {{"cuMemGetAllocationGranularity", (void *)g_gran}, {"cuMemAlloc_v2", (void *)g_dev}, {"cuMemHostAlloc", (void *)g_host}, {"cuMemAllocManaged", (void *)g_managed}, {"cuMemFree_v2", (void *)g_free},
            {"cuMemFreeHost", (void *)g_freehost}, {"cuGetErrorName", (void *)g_ename}, {"cuGetErrorString", (void *)g_estr}, {"cuCtxGetCurrent", (void *)g_getctx}, {"cuCtxGetDevice", (void *)g_getdev},
            {"cuCtxSetCurrent", (void *)g_setctx}, {"cuIpcGetMemHandle", (void *)g_ipcget}, {"cuIpcOpenMemHandle_v2", (void *)g_ipcopen}, {"cuIpcCloseMemHandle", (void *)g_ipcclose}};
enum { S_N = 14 };
extern "C" {
void *__wrap_utils_open_library(const char *n, int f) {
    mt_mark();
    if (!strstr(n, "libcuda"))
        return __real_utils_open_library(n, f);
    if (G.missing_lib)
        return nullptr;
    G.opened++;
    return &G;
}
int __wrap_utils_close_library(void *h) {
    mt_mark();
    if (h != &G)
        return __real_utils_close_library(h);
    MC_CHECK(--G.opened >= 0, "cu:close", "library closed twice");
    return 0;
}
void *__wrap_utils_get_symbol_addr(void *h, const char *s, const char *l) {
    mt_mark();
    if (h != &G)
        return __real_utils_get_symbol_addr(h, s, l);
    MC_CHECK(G.opened > 0, "cu:unloaded", "symbol looked up in a closed library");
    if (G.missing == s)
        return nullptr;
    for (auto &y : SYMS)
        if (!strcmp(s, y.n))
            return y.f;
    return nullptr;
}
}
// ---- providers --------------------------------------------------------------------------
static const CUcontext C1 = (CUcontext)0xc1, C2 = (CUcontext)0xc2;
enum { DFLT, NONE, GIVEN }; // how context and device are chosen
struct Cfg {
    int type, ctx, dev;
    unsigned flags;
};
static umf_result_t make(const Cfg &c, umf_memory_provider_handle_t *h, bool *ctx = nullptr, bool *dev = nullptr) {
    umf_cuda_memory_provider_params_handle_t p = nullptr;
    *h = nullptr;
    umf_result_t r = umfCUDAMemoryProviderParamsCreate(&p);
    if (r != UMF_RESULT_SUCCESS)
        return r;
    MC_CHECK(p != nullptr, "cu:params", "success without parameters");
    // what the driver answered to the questions about the current context and device
    Ref &f = G.ref[me()];
    if (ctx)
        *ctx = c.ctx == GIVEN || (c.ctx == DFLT && !f.pre && G.cur[me()]);
    if (dev)
        *dev = c.dev == GIVEN || (c.dev == DFLT && !f.call);
    start();
    if (c.ctx != DFLT)
        MC_CHECK(umfCUDAMemoryProviderParamsSetContext(p, c.ctx == GIVEN ? C1 : nullptr) == 0, "cu:set", "setting the context failed");
    if (c.dev != DFLT)
        MC_CHECK(umfCUDAMemoryProviderParamsSetDevice(p, c.dev == GIVEN ? 3 : -1) == 0, "cu:set", "setting the device failed");
    if (c.type)
        MC_CHECK(umfCUDAMemoryProviderParamsSetMemoryType(p, (umf_usm_memory_type_t)c.type) == 0, "cu:set", "setting the type failed");
    if (c.flags)
        MC_CHECK(umfCUDAMemoryProviderParamsSetAllocFlags(p, c.flags) == 0, "cu:set", "setting the flags failed");
    r = umfMemoryProviderCreate(umfCUDAMemoryProviderOps(), p, h);
    // the caller may reuse them
    umfCUDAMemoryProviderParamsSetMemoryType(p, UMF_MEMORY_TYPE_UNKNOWN);
    umfCUDAMemoryProviderParamsSetContext(p, (CUcontext)0xbad);
    umfCUDAMemoryProviderParamsSetAllocFlags(p, 77);
    umfCUDAMemoryProviderParamsDestroy(p);
    return r;
}
static int kind_of(int type) { return type == UMF_MEMORY_TYPE_HOST ? K_HOST : type == UMF_MEMORY_TYPE_DEVICE ? K_DEV : K_SHARED; }
static unsigned flags_of(const Cfg &c) { return c.type == UMF_MEMORY_TYPE_DEVICE ? 0 : c.type == UMF_MEMORY_TYPE_SHARED && !c.flags ? CU_MEM_ATTACH_GLOBAL : c.flags; }
static umf_result_t expect_of(CUresult c) {
    switch (c) {
    case CUDA_SUCCESS: return UMF_RESULT_SUCCESS;
    case CUDA_ERROR_OUT_OF_MEMORY: return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    case CUDA_ERROR_INVALID_VALUE:
    case CUDA_ERROR_INVALID_HANDLE: return UMF_RESULT_ERROR_INVALID_ARGUMENT;
    case CUDA_ERROR_DEINITIALIZED: return UMF_RESULT_ERROR_OUT_OF_RESOURCES;
    default: return UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;
    }
}
static void g_begin() {
    int opened = G.opened;
    G = Cu();
    G.opened = opened;
    for (auto &c : G.cur)
        c = C1;
    G.want = C1;
    for (auto &r : G.ref)
        r = {CUDA_SUCCESS, CUDA_SUCCESS, CUDA_SUCCESS};
}
// an answer of the provider, given what the driver refused
static void check_result(umf_memory_provider_handle_t h, umf_result_t r, const char *what) {
    Ref f = G.ref[me()];
    CUresult c = f.pre ? f.pre : f.call;
    if (!c && f.post)
        return; // done, but the context of the caller could not be set again
    if (!c) {
        MC_CHECK(r == UMF_RESULT_SUCCESS, "cu:failed", "%s failed with %d although nothing was refused", what, r);
        return;
    }
    MC_CHECK(r == expect_of(c), "cu:code", "%s returned %d after the driver answered %d", what, r, c);
    if (h && r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC)
        for (int i = 0; i < 2; i++) {
            G.nameless = i == 1;
            const char *msg = nullptr;
            int32_t e = 0;
            umfMemoryProviderGetLastNativeError(h, &msg, &e);
            G.nameless = false;
            MC_CHECK(e == (int32_t)c, "cu:native", "native error %d after the driver answered %d", e, c);
            MC_CHECK(msg != nullptr, "cu:message", "no message");
            if (i)
                continue;
            std::string m = msg, t = longmsg(c), n = "CUDA_NAME_" + std::to_string((int)c);
            MC_CHECK(m.find(n) == 0 && m.find(t.substr(0, 500)) != std::string::npos, "cu:message", "message %.80s", msg);
        }
}
// ---- scenario: creation ------------------------------------------------------------------
static void body_create() {
    g_begin();
    Cfg c;
    static const int types[] = {UMF_MEMORY_TYPE_UNKNOWN, UMF_MEMORY_TYPE_HOST, UMF_MEMORY_TYPE_DEVICE, UMF_MEMORY_TYPE_SHARED, 17};
    c.type = types[mc_choose(5)];
    c.ctx = mc_choose(3);
    c.dev = mc_choose(3);
    c.flags = (unsigned)mc_choose(2) * 2;
    G.cur[0] = mc_choose(2) ? C1 : nullptr;
    CUcontext cur0 = G.cur[0];
    G.faults = (int)mc_param("flt", 0);
    G.codes = 6;
    XLib lib;
    mc_ba_faults((int)mc_param("mflt", 0));
    umf_memory_provider_handle_t h = nullptr;
    mc_op("create type %ld context %ld device %ld flags %ld", c.type, c.ctx, c.dev, c.flags);
    start();
    bool hctx = true, hdev = true;
    umf_result_t r = make(c, &h, &hctx, &hdev);
    mc_ba_faults(0);
    mc_op("create = %ld", r);
    bool ok = hctx && hdev && (c.type == UMF_MEMORY_TYPE_HOST || c.type == UMF_MEMORY_TYPE_DEVICE || c.type == UMF_MEMORY_TYPE_SHARED);
    MC_CHECK((r == UMF_RESULT_SUCCESS) == (h != nullptr), "cu:handle", "result %d with handle %p", r, (void *)h);
    if (mc_param("mflt", 0)) {
        MC_CHECK(ok || r, "cu:accepted", "invalid combination accepted");
        MC_CHECK(r != UMF_RESULT_SUCCESS || !mc_faults_used(), "cu:mem", "creation succeeded without memory");
        if (r && ok)
            MC_CHECK(r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY && mc_faults_used(), "cu:mem", "creation returned %d", r);
    } else if (!ok)
        MC_CHECK(r == UMF_RESULT_ERROR_INVALID_ARGUMENT, "cu:accepted", "invalid combination gives %d", r);
    else
        MC_CHECK(r == expect_of(G.ref[0].call), "cu:code", "creation returned %d after the driver answered %d", r, G.ref[0].call);
    MC_CHECK(G.cur[0] == cur0, "cu:restore", "creation changed the current context");
    G.faults = 0;
    if (h) {
        int dev = c.dev == GIVEN ? 3 : G.device;
        MC_CHECK(G.asked_dev == dev, "cu:device", "device %d asked for its granularity", G.asked_dev);
        size_t pg = 0, rp = 0;
        MC_CHECK(umfMemoryProviderGetMinPageSize(h, nullptr, &pg) == UMF_RESULT_SUCCESS && pg == G.gran && G.asked_dev == dev, "cu:page", "minimum page size %zx", pg);
        MC_CHECK(umfMemoryProviderGetRecommendedPageSize(h, 100, &rp) == UMF_RESULT_SUCCESS && rp == G.rec && G.asked_dev == dev, "cu:page", "recommended page size %zx", rp);
        void *p = nullptr;
        MC_CHECK(umfMemoryProviderAlloc(h, 100, 0, &p) == UMF_RESULT_SUCCESS && G.live.count((uintptr_t)p), "cu:alloc", "allocation failed");
        GBlk b = G.live[(uintptr_t)p];
        MC_CHECK(b.kind == kind_of(c.type) && b.flags == flags_of(c) && b.size == 100, "cu:args", "kind %d flags %x size %zx", b.kind, b.flags, b.size);
        MC_CHECK(umfMemoryProviderFree(h, p, 100) == UMF_RESULT_SUCCESS, "cu:free", "free failed");
        MC_CHECK(G.cur[0] == cur0, "cu:restore", "the current context is changed");
        umfMemoryProviderDestroy(h);
    }
    MC_CHECK(G.live.empty(), "cu:leak", "%zu allocations left", G.live.size());
    lib.done();
    MC_CHECK(G.opened == 0, "cu:held", "library still held after the last teardown");
    uint64_t o = ((((uint64_t)c.type * 3 + (uint64_t)c.ctx) * 3 + (uint64_t)c.dev) * 3 + (uint64_t)c.flags) * 2 + (cur0 != nullptr);
    mc_state(o);
    mc_outcome(mc_mix(o, (uint64_t)r + 1));
}
// ---- scenario: histories --------------------------------------------------------------------
struct Blk {
    uintptr_t p;
    size_t n;
};
struct Exp {
    std::vector<char> data;
    uintptr_t p;
};
static void body_hist() {
    g_begin();
    int cfg = (int)mc_param("cfg", 0), depth = (int)mc_param("depth", 4), np = (int)mc_param("provs", 1);
    static const Cfg CF[] = {{UMF_MEMORY_TYPE_DEVICE, GIVEN, GIVEN, 2}, {UMF_MEMORY_TYPE_HOST, DFLT, GIVEN, 0}, {UMF_MEMORY_TYPE_SHARED, GIVEN, DFLT, 0}, {UMF_MEMORY_TYPE_HOST, GIVEN, DFLT, 4}, {UMF_MEMORY_TYPE_SHARED, DFLT, DFLT, 2}};
    XLib lib;
    umf_memory_provider_handle_t h[2] = {nullptr, nullptr};
    Cfg cf[2] = {CF[cfg], CF[(cfg + 1) % 5]};
    for (int i = 0; i < np; i++)
        MC_CHECK(make(cf[i], &h[i]) == UMF_RESULT_SUCCESS, "setup:create", "creation failed");
    G.faults = (int)mc_param("flt", 0);
    G.codes = (int)mc_param("codes", 2);
    bool full = mc_param("full", 0);
    struct P {
        std::vector<Blk> live;
        std::vector<Exp> exp;
        std::vector<uintptr_t> open;
    } w[2];
    std::vector<std::pair<size_t, size_t>> req;
    if (full) {
        for (size_t n : {(size_t)0, (size_t)1, (size_t)4096, (size_t)-1})
            for (size_t a : {(size_t)0, (size_t)1, (size_t)0x800, (size_t)0x1000, (size_t)0x1001, (size_t)0x2000, (size_t)1 << 63})
                req.push_back({n, a});
    } else
        req = {{100, 0}, {0x1800, 0x1000}, {300, 0x2000}};
    uint64_t sh = 5;
    CUcontext mine = C1; // current context of the caller
    for (int d = 0; d < depth; d++) {
        int k = np > 1 ? mc_choose(np) : 0;
        P &p = w[k];
        Cfg &c = cf[k];
        int na = (int)req.size(), nl = (int)p.live.size(), ne = (int)p.exp.size(), no = (int)p.open.size();
        int op = mc_choose(na + nl * 2 + ne * 2 + no + 5);
        start();
        size_t before = G.live.size(), maps0 = G.maps.size();
        bool lost0 = G.lost;
        umf_result_t r;
        if (op < na) {
            size_t n = req[(size_t)op].first, al = req[(size_t)op].second;
            void *q = nullptr;
            r = umfMemoryProviderAlloc(h[k], n, al, &q);
            mc_op("alloc %lx align %lx = %ld", (long)n, (long)al, r);
            Ref f = G.ref[0];
            if (al > G.gran) {
                MC_CHECK(r == UMF_RESULT_ERROR_NOT_SUPPORTED && !G.calls[0], "cu:align", "alignment %zx gives %d", al, r);
            } else if (!f.pre && al && G.place % al && G.calls[0] == 2) { // misplaced, so it was given back
                MC_CHECK(r == UMF_RESULT_ERROR_INVALID_ALIGNMENT, "cu:align", "misaligned block gives %d", r);
                MC_CHECK(G.live.size() == before || G.lost, "cu:leak", "a misaligned block stays allocated");
            } else if (!f.pre && !f.call && al & (al - 1)) {
                MC_CHECK(r || (uintptr_t)q % al == 0, "cu:align", "block %p for alignment %zx", q, al);
            } else
                check_result(h[k], r, "allocation");
            if (r)
                MC_CHECK(G.live.size() == before || G.lost || (f.post && G.calls[0] == 1 && al && G.place % al), "cu:leak", "a failed allocation leaves memory");
            else {
                auto it = G.live.find((uintptr_t)q);
                MC_CHECK(it != G.live.end() && G.live.size() == before + 1, "cu:alloc", "block %p is not the allocation made", q);
                MC_CHECK(!al || (uintptr_t)q % al == 0, "cu:align", "block %p for alignment %zx", q, al);
                GBlk b = it->second;
                MC_CHECK(b.kind == kind_of(c.type) && b.size == n && b.flags == flags_of(c), "cu:args", "kind %d size %zx flags %x", b.kind, b.size, b.flags);
                p.live.push_back({(uintptr_t)q, n});
            }
        } else if ((op -= na) < nl * 2) {
            size_t i = (size_t)op / 2;
            Blk b = p.live[i];
            if (op % 2 == 0) {
                r = umfMemoryProviderFree(h[k], (void *)b.p, b.n);
                mc_op("free %lx = %ld", (long)b.p, r);
                check_result(h[k], r, "free");
                bool gone = !G.live.count(b.p);
                MC_CHECK(gone == (!G.ref[0].pre && !G.ref[0].call) && G.live.size() == before - gone, "cu:free", "block released: %d", gone);
                if (!gone)
                    G.lost = lost0; // still ours
                else {
                    p.live.erase(p.live.begin() + (long)i);
                    p.exp.erase(std::remove_if(p.exp.begin(), p.exp.end(), [&](Exp &e) { return e.p == b.p; }), p.exp.end());
                }
            } else {
                if (ne >= 2)
                    mc_prune();
                size_t sz = 0;
                MC_CHECK(umfMemoryProviderGetIPCHandleSize(h[k], &sz) == UMF_RESULT_SUCCESS && sz >= sizeof(CUipcMemHandle), "cu:ipcsize", "handle size %zu", sz);
                Exp e{std::vector<char>(sz), b.p};
                r = umfMemoryProviderGetIPCHandle(h[k], (void *)b.p, b.n, e.data.data());
                mc_op("export %lx = %ld", (long)b.p, r);
                check_result(h[k], r, "export");
                if (!r) {
                    GIpc i2;
                    memcpy(&i2, e.data.data(), sizeof i2);
                    MC_CHECK(i2.p == b.p, "cu:ipcget", "handle of another block");
                    p.exp.push_back(e);
                }
            }
        } else if ((op -= nl * 2) < ne * 2) {
            Exp &e = p.exp[(size_t)op / 2];
            if (op % 2 == 0) {
                r = umfMemoryProviderPutIPCHandle(h[k], e.data.data());
                mc_op("put = %ld", r);
                check_result(h[k], r, "put");
                p.exp.erase(p.exp.begin() + op / 2);
            } else {
                void *q = nullptr;
                std::vector<char> copy = e.data;
                r = umfMemoryProviderOpenIPCHandle(h[k], copy.data(), &q);
                mc_op("open = %ld", r);
                check_result(h[k], r, "open");
                MC_CHECK(copy == e.data, "cu:ipcdata", "opening changed the handle");
                if (!r) {
                    MC_CHECK(G.maps.count((uintptr_t)q) && G.maps.size() == maps0 + 1, "cu:ipcopen", "opened at %p, which is not open", q);
                    p.open.push_back((uintptr_t)q);
                } else
                    MC_CHECK(G.maps.size() == maps0, "cu:ipcopen", "a failed open leaves a mapping");
            }
        } else if ((op -= ne * 2) < no) {
            r = umfMemoryProviderCloseIPCHandle(h[k], (void *)p.open[(size_t)op], 100);
            mc_op("close = %ld", r);
            check_result(h[k], r, "close");
            MC_CHECK((r == UMF_RESULT_SUCCESS) == !G.maps.count(p.open[(size_t)op]), "cu:ipcclose", "wrong mapping closed");
            if (!r)
                p.open.erase(p.open.begin() + op);
        } else if ((op -= no) < 3) { // the caller works in another context
            CUcontext to = op == 0 ? C1 : op == 1 ? C2 : nullptr;
            if (to == mine)
                mc_prune();
            G.cur[0] = mine = to;
            mc_op("caller's context is %lx", (long)(uintptr_t)to);
        } else if (op == 3) { // the driver places blocks differently
            if (!full && d + 1 == depth)
                mc_prune();
            G.place = G.place == 0x1000 ? 0x400 : 0x1000;
            mc_op("blocks are placed at %lx", (long)G.place);
        } else {
            size_t pg = 0, rp = 0;
            r = umfMemoryProviderGetMinPageSize(h[k], nullptr, &pg);
            check_result(h[k], r, "page size");
            MC_CHECK(r || pg == G.gran, "cu:page", "minimum page size %zx", pg);
            start();
            r = umfMemoryProviderGetRecommendedPageSize(h[k], 100, &rp);
            check_result(h[k], r, "page size");
            MC_CHECK(r || rp == G.rec, "cu:page", "recommended page size %zx", rp);
            static char dummy[64];
            start();
            umf_result_t a = umfMemoryProviderPurgeLazy(h[k], dummy, 64), b = umfMemoryProviderPurgeForce(h[k], dummy, 64), e = umfMemoryProviderAllocationSplit(h[k], dummy, 64, 32);
            MC_CHECK(a && b && e && !G.calls[0], "cu:unsupported", "a service that does not exist succeeded");
            MC_CHECK(umfMemoryProviderFree(h[k], nullptr, 0) == UMF_RESULT_SUCCESS && !G.calls[0], "cu:free-null", "releasing nothing failed");
            const char *msg = nullptr;
            int32_t ne2 = 0;
            umfMemoryProviderGetLastNativeError(h[k], &msg, &ne2);
            MC_CHECK(msg && strlen(msg) < 5000, "cu:message", "no message");
        }
        if (!G.ref[0].post)
            MC_CHECK(G.cur[0] == mine, "cu:restore", "the caller's context is %p instead of %p", (void *)G.cur[0], (void *)mine);
        G.cur[0] = mine;
        size_t total = 0, maps = 0;
        for (int i = 0; i < np; i++)
            total += w[i].live.size(), maps += w[i].open.size();
        MC_CHECK(G.lost || G.ref[0].post ? G.live.size() >= total : G.live.size() == total, "cu:count", "%zu allocations for %zu blocks", G.live.size(), total);
        if (G.ref[0].post && G.live.size() != total)
            G.lost = true;
        MC_CHECK(G.maps.size() == maps, "cu:count", "%zu open handles for %zu", G.maps.size(), maps);
        sh = mc_mix(sh, (uint64_t)total * 100 + maps * 10 + (uint64_t)w[0].exp.size());
        sh = mc_mix(sh, (uint64_t)(uintptr_t)mine + G.place);
        for (int i = 0; i < np; i++)
            for (auto &b : w[i].live)
                sh = mc_mix(sh, b.n);
        mc_state(sh);
    }
    mc_outcome(sh);
    // everything can still be released
    G.faults = 0;
    bool lost = G.lost;
    for (int k = 0; k < np; k++) {
        for (uintptr_t q : w[k].open)
            MC_CHECK(umfMemoryProviderCloseIPCHandle(h[k], (void *)q, 100) == UMF_RESULT_SUCCESS, "cu:after", "close failed");
        for (auto &e : w[k].exp)
            MC_CHECK(umfMemoryProviderPutIPCHandle(h[k], e.data.data()) == UMF_RESULT_SUCCESS, "cu:after", "put failed");
        for (auto &b : w[k].live)
            MC_CHECK(umfMemoryProviderFree(h[k], (void *)b.p, b.n) == UMF_RESULT_SUCCESS, "cu:after", "free failed");
        umfMemoryProviderDestroy(h[k]);
    }
    MC_CHECK(lost || G.live.empty(), "cu:leak", "%zu allocations of the driver left", G.live.size());
    MC_CHECK(G.maps.empty(), "cu:leak", "handles left");
    lib.done();
    MC_CHECK(G.opened == 0, "cu:held", "library still held after the last teardown");
}
// ---- scenario: answers of the library over its life times -------------------------------------
static void body_load() {
    g_begin();
    int eras = (int)mc_param("eras", 2);
    uint64_t o = 1;
    for (int e = 0; e < eras; e++) {
        int a = mc_choose(S_N + 2); // all there, no library, one symbol missing
        G.missing_lib = a == 1;
        G.missing = a >= 2 ? SYMS[a - 2].n : "";
        XLib lib;
        start();
        umf_memory_provider_handle_t h = nullptr, h2 = nullptr;
        umf_result_t r = make({UMF_MEMORY_TYPE_DEVICE, GIVEN, GIVEN, 0}, &h);
        mc_op("life %ld: answer %ld: create = %ld", e, a, r);
        if (a == 0)
            MC_CHECK(r == UMF_RESULT_SUCCESS, "cu:load", "creation failed with %d although everything is there", r);
        else
            MC_CHECK(r == UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE && !h, "cu:load", "creation returned %d with an incomplete library", r);
        if (h) {
            void *p = nullptr;
            MC_CHECK(umfMemoryProviderAlloc(h, 100, 0, &p) == UMF_RESULT_SUCCESS && umfMemoryProviderFree(h, p, 100) == UMF_RESULT_SUCCESS, "cu:load", "allocation or free failed");
            MC_CHECK(make({UMF_MEMORY_TYPE_HOST, DFLT, DFLT, 0}, &h2) == UMF_RESULT_SUCCESS, "cu:load", "second provider failed");
            umfMemoryProviderDestroy(h2);
            MC_CHECK(G.opened >= 1, "cu:held", "library not held while up");
            umfMemoryProviderDestroy(h);
        } else if (mc_choose(2)) { // a second attempt in the same life
            r = make({UMF_MEMORY_TYPE_HOST, DFLT, DFLT, 0}, &h2);
            MC_CHECK(r == UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE && !h2, "cu:load", "second attempt returned %d", r);
        }
        lib.done();
        MC_CHECK(G.opened == 0, "cu:held", "library held %d times after the last teardown", G.opened);
        o = o * 64 + (uint64_t)a;
        mc_state(o);
    }
    mc_outcome(o);
}
// ---- scenario: several threads -----------------------------------------------------------------
static void body_mt() {
    g_begin();
    int nt = (int)mc_param("threads", 2), shared = (int)mc_param("shared", 0);
    XLib lib;
    umf_memory_provider_handle_t common = nullptr;
    start();
    if (shared)
        MC_CHECK(make({UMF_MEMORY_TYPE_DEVICE, GIVEN, GIVEN, 0}, &common) == UMF_RESULT_SUCCESS, "setup:create", "creation failed");
    G.faults = (int)mc_param("flt", 0);
    G.codes = 1;
    std::vector<std::function<void()>> th;
    for (int i = 0; i < nt; i++)
        th.push_back([&, i] {
            umf_memory_provider_handle_t h = common;
            G.cur[me()] = i % 2 ? C2 : C1;
            CUcontext mine = G.cur[me()];
            bool hurt = false;
            if (!h) {
                start();
                umf_result_t r = make({i % 2 ? UMF_MEMORY_TYPE_HOST : UMF_MEMORY_TYPE_DEVICE, GIVEN, GIVEN, 0}, &h);
                mc_op("thread %ld: create = %ld", i, r);
                MC_CHECK((r == UMF_RESULT_SUCCESS) == (h != nullptr), "cu:handle", "result without handle");
                mt_mark();
                MC_CHECK(r == expect_of(G.ref[me()].call), "cu:rejected", "thread %d: creation failed with %d", i, r);
                if (!h)
                    return;
            }
            start();
            void *p = nullptr;
            umf_result_t r = umfMemoryProviderAlloc(h, 100 + (size_t)i, 0, &p);
            mc_op("thread %ld: alloc = %ld", i, r);
            mt_mark();
            check_result(h, r, "allocation");
            hurt |= G.ref[me()].post != 0;
            MC_CHECK(hurt || G.cur[me()] == mine, "cu:restore", "thread %d: context changed", i);
            G.cur[me()] = mine;
            if (!r) {
                start();
                MC_CHECK(G.live.count((uintptr_t)p) && G.live[(uintptr_t)p].size == 100 + (size_t)i, "cu:alloc", "thread %d: wrong block", i);
                r = umfMemoryProviderFree(h, p, 100 + (size_t)i);
                mt_mark();
                check_result(h, r, "free");
                if (G.ref[me()].pre)
                    G.lost = true;
                mc_op("thread %ld: free = %ld", i, r);
                MC_CHECK(G.ref[me()].post || G.cur[me()] == mine, "cu:restore", "thread %d: context changed", i);
            } else if (hurt)
                G.lost = true;
            if (!common)
                umfMemoryProviderDestroy(h);
        });
    mt_run(th, (int)mc_param("pb", 2));
    if (common)
        umfMemoryProviderDestroy(common);
    MC_CHECK(G.live.empty() || G.lost, "cu:leak", "%zu allocations left", G.live.size());
    lib.done();
    MC_CHECK(G.opened == 0, "cu:held", "library still held");
    uint64_t h = 1;
    for (int i = 0; i < nt; i++)
        h = mc_mix(h, (uint64_t)G.ref[i].pre * 1000 + G.ref[i].call);
    mc_outcome(h);
    mc_state(h);
}
static void setup() { x_arena(), x_down(); }
int main(int c, char **v) {
    return mc_main(c, v, {{"create", body_create, false, setup}, {"hist", body_hist, false, setup}, {"load", body_load, false, setup}, {"mt", body_mt, false, setup}});
}
