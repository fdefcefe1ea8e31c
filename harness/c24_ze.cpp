// C24: Level Zero provider over a model of the GPU run time.
#include "umfx.hpp"
#include <algorithm>
#include <umf/providers/provider_level_zero.h>
#include "ze_api.h"
extern "C" {
void *__real_utils_open_library(const char *, int);
void *__real_utils_get_symbol_addr(void *, const char *, const char *);
int __real_utils_close_library(void *);
}
// ---- the run time -------------------------------------------------------------------
enum { K_HOST, K_DEV, K_SHARED };
enum { CALL_NONE, CALL_ALLOC, CALL_FREE, CALL_FREEEXT, CALL_RESIDENT, CALL_PROPS, CALL_DEVPROPS, CALL_IPCGET, CALL_IPCPUT, CALL_IPCOPEN, CALL_IPCCLOSE };
struct GBlk {
    int kind;
    size_t size, align;
    ze_device_handle_t dev;
    uint32_t ordinal;
    bool relaxed;
    std::vector<ze_device_handle_t> resident;
    int gets = 0; // exported handles not put back
};
struct Call {
    int what;
    uintptr_t p;
    size_t n;
    ze_device_handle_t dev;
    int policy;
};
struct Gpu {
    bool missing_lib = false;
    std::string missing;    // symbol that is not there
    int opened = 0, loads = 0;
    long era = 0;           // which copy of the library is loaded
    ze_context_handle_t ctx = (ze_context_handle_t)0xc1;
    size_t max_alloc = 1 << 20;
    size_t page[3] = {4096, 65536, 2097152};
    uintptr_t top = 0x510000000000;
    std::map<uintptr_t, GBlk> live;
    std::map<uintptr_t, int> maps; // opened handles
    std::vector<Call> log;
    int faults = 0, codes = 1;
    bool lost_free = false; // a release was refused
    std::map<int, int> fds; // duplicated descriptors
    int next_fd = 1000, pid = 77, dup_faults = 0;
    long refused[8] = {0};  // per thread: latest code of a refusal
};
static Gpu G;
static const ze_result_t CODES[] = {ZE_RESULT_ERROR_DEVICE_LOST, ZE_RESULT_ERROR_OUT_OF_HOST_MEMORY, ZE_RESULT_ERROR_OUT_OF_DEVICE_MEMORY, ZE_RESULT_ERROR_INVALID_ARGUMENT};
static int me() { return mt_self() < 0 ? 0 : mt_self(); }
static ze_result_t refuse(const char *what) {
    mt_mark();
    MC_CHECK(G.opened > 0, "ze:unloaded", "%s called while the library is not held", what);
    if (!G.faults || !mc_fault())
        return ZE_RESULT_SUCCESS;
    int k = G.codes > 1 ? mc_choose(G.codes) : me() % 2 * 2; // else each thread has its own code
    mc_op("  refused with code %ld of the list", k);
    G.refused[me()] = CODES[k];
    return CODES[k];
}
static ze_result_t done(ze_result_t r) {
    if (r)
        G.refused[me()] = r;
    return r;
}
static void ctx_ok(ze_context_handle_t c) { MC_CHECK(c == G.ctx, "ze:context", "call with context %p", (void *)c); }
static bool relaxed(const void *next) {
    if (!next)
        return false;
    auto *d = (const ze_relaxed_allocation_limits_exp_desc_t *)next;
    MC_CHECK(d->stype == ZE_STRUCTURE_TYPE_RELAXED_ALLOCATION_LIMITS_EXP_DESC && !d->pNext && d->flags == ZE_RELAXED_ALLOCATION_LIMITS_EXP_FLAG_MAX_SIZE, "ze:desc", "malformed extension of the allocation descriptor");
    return true;
}
static ze_result_t g_alloc(int kind, ze_device_handle_t dev, uint32_t ord, bool rel, size_t n, size_t al, void **out) {
    if (ze_result_t r = refuse("allocation"))
        return r;
    if (al & (al - 1))
        return done(ZE_RESULT_ERROR_UNSUPPORTED_ALIGNMENT);
    if (n == 0 || n > (size_t)1 << 40 || (kind != K_HOST && n > G.max_alloc && !rel))
        return done(ZE_RESULT_ERROR_UNSUPPORTED_SIZE);
    size_t pg = std::max(G.page[kind], al ? al : 1);
    uintptr_t a = (G.top + pg - 1) / pg * pg;
    G.top = a + (n + G.page[kind] - 1) / G.page[kind] * G.page[kind] + 4096;
    G.live[a] = {kind, n, al, dev, ord, rel, {}, 0};
    G.log.push_back({CALL_ALLOC, a, n, dev, 0});
    mc_op("  runtime: alloc kind %ld size %lx -> %lx", kind, (long)n, (long)a);
    *out = (void *)a;
    return ZE_RESULT_SUCCESS;
}
static void host_desc(const ze_host_mem_alloc_desc_t *h) { MC_CHECK(h && h->stype == ZE_STRUCTURE_TYPE_HOST_MEM_ALLOC_DESC && !h->flags && !h->pNext, "ze:desc", "malformed host descriptor"); }
static void dev_desc(const ze_device_mem_alloc_desc_t *d) { MC_CHECK(d && d->stype == ZE_STRUCTURE_TYPE_DEVICE_MEM_ALLOC_DESC && !d->flags, "ze:desc", "malformed device descriptor"); }
static ze_result_t g_host(ze_context_handle_t c, const ze_host_mem_alloc_desc_t *h, size_t n, size_t al, void *out) {
    ctx_ok(c), host_desc(h);
    return g_alloc(K_HOST, nullptr, 0, false, n, al, (void **)out);
}
static ze_result_t g_dev(ze_context_handle_t c, const ze_device_mem_alloc_desc_t *d, size_t n, size_t al, ze_device_handle_t dev, void *out) {
    ctx_ok(c), dev_desc(d);
    return g_alloc(K_DEV, dev, d->ordinal, relaxed(d->pNext), n, al, (void **)out);
}
static ze_result_t g_shared(ze_context_handle_t c, const ze_device_mem_alloc_desc_t *d, const ze_host_mem_alloc_desc_t *h, size_t n, size_t al, ze_device_handle_t dev, void *out) {
    ctx_ok(c), dev_desc(d), host_desc(h);
    return g_alloc(K_SHARED, dev, d->ordinal, relaxed(d->pNext), n, al, (void **)out);
}
static ze_result_t g_release(void *p, int policy, int what) {
    auto it = G.live.find((uintptr_t)p);
    MC_CHECK(it != G.live.end(), "ze:free", "release of %p, which is not an allocation", p);
    if (ze_result_t r = refuse("free")) {
        G.lost_free = true;
        return r;
    }
    G.log.push_back({what, (uintptr_t)p, it->second.size, nullptr, policy});
    G.live.erase(it);
    mc_op("  runtime: free %lx policy %ld", (long)p, policy);
    return ZE_RESULT_SUCCESS;
}
static ze_result_t g_free(ze_context_handle_t c, void *p) {
    ctx_ok(c);
    return g_release(p, 0, CALL_FREE);
}
static ze_result_t g_free_ext(ze_context_handle_t c, ze_memory_free_ext_desc_t *d, void *p) {
    ctx_ok(c);
    MC_CHECK(d && d->stype == ZE_STRUCTURE_TYPE_MEMORY_FREE_EXT_DESC && !d->pNext, "ze:desc", "malformed free descriptor");
    return g_release(p, (int)d->freePolicy, CALL_FREEEXT);
}
static ze_result_t g_resident(ze_context_handle_t c, ze_device_handle_t dev, void *p, size_t n) {
    ctx_ok(c);
    auto it = G.live.find((uintptr_t)p);
    MC_CHECK(it != G.live.end() && it->second.size == n, "ze:resident", "residency of %p size %zu, which is not an allocation", p, n);
    if (ze_result_t r = refuse("residency"))
        return r;
    it->second.resident.push_back(dev);
    G.log.push_back({CALL_RESIDENT, (uintptr_t)p, n, dev, 0});
    return ZE_RESULT_SUCCESS;
}
static ze_result_t g_devprops(ze_device_handle_t dev, ze_device_properties_t *p) {
    MC_CHECK(dev && p->stype == ZE_STRUCTURE_TYPE_DEVICE_PROPERTIES && !p->pNext, "ze:desc", "malformed device properties");
    if (ze_result_t r = refuse("device properties"))
        return r;
    p->maxMemAllocSize = G.max_alloc;
    return ZE_RESULT_SUCCESS;
}
static ze_result_t g_props(ze_context_handle_t c, const void *p, ze_memory_allocation_properties_t *o, ze_device_handle_t *dev) {
    ctx_ok(c);
    MC_CHECK(o && o->stype == ZE_STRUCTURE_TYPE_MEMORY_ALLOCATION_PROPERTIES && !o->pNext, "ze:desc", "malformed allocation properties");
    if (ze_result_t r = refuse("properties")) {
        o->pageSize = 0xbad;
        return r;
    }
    auto it = G.live.upper_bound((uintptr_t)p);
    if (it == G.live.begin() || (--it, (uintptr_t)p - it->first >= it->second.size)) {
        o->type = ZE_MEMORY_TYPE_UNKNOWN;
        o->pageSize = 0;
        return ZE_RESULT_SUCCESS;
    }
    o->pageSize = G.page[it->second.kind];
    if (dev)
        *dev = it->second.dev;
    return ZE_RESULT_SUCCESS;
}
struct GIpc { // what the run time stores in its handle
    int fd;
    uintptr_t p;
    long check;
};
static ze_result_t g_ipcget(ze_context_handle_t c, const void *p, ze_ipc_mem_handle_t *h) {
    ctx_ok(c);
    MC_CHECK(G.live.count((uintptr_t)p), "ze:ipcget", "export of %p, which is not an allocation", p);
    if (ze_result_t r = refuse("ipc get"))
        return r;
    memset(h, 0, sizeof *h);
    GIpc i = {40, (uintptr_t)p, 0x5e1f};
    memcpy(h, &i, sizeof i);
    memcpy(h->data + ZE_MAX_IPC_HANDLE_SIZE - 8, &i.check, 8);
    G.live[(uintptr_t)p].gets++;
    return ZE_RESULT_SUCCESS;
}
static GIpc g_decode(const ze_ipc_mem_handle_t &h) {
    GIpc i;
    memcpy(&i, &h, sizeof i);
    long e;
    memcpy(&e, h.data + ZE_MAX_IPC_HANDLE_SIZE - 8, 8);
    MC_CHECK(i.check == 0x5e1f && e == 0x5e1f, "ze:ipc", "damaged handle reaches the run time");
    return i;
}
static ze_result_t g_ipcput(ze_context_handle_t c, ze_ipc_mem_handle_t h) {
    ctx_ok(c);
    GIpc i = g_decode(h);
    MC_CHECK(i.fd == 40 && G.live.count(i.p) && G.live[i.p].gets > 0, "ze:ipcput", "handle put back that is not outstanding");
    if (ze_result_t r = refuse("ipc put"))
        return r;
    G.live[i.p].gets--;
    return ZE_RESULT_SUCCESS;
}
static ze_device_handle_t g_want_dev;
static ze_result_t g_ipcopen(ze_context_handle_t c, ze_device_handle_t dev, ze_ipc_mem_handle_t h, ze_ipc_memory_flags_t fl, void **out) {
    ctx_ok(c);
    GIpc i = g_decode(h);
    MC_CHECK(dev == g_want_dev, "ze:ipcopen", "handle opened for device %p", (void *)dev);
    if (G.dup_faults >= 0 && i.fd != 40)
        MC_CHECK(G.fds.count(i.fd), "ze:ipcfd", "handle opened with descriptor %d, which is not open here", i.fd);
    if (ze_result_t r = refuse("ipc open"))
        return r;
    uintptr_t a = G.top = (G.top + 0xffff) / 0x10000 * 0x10000;
    G.top += 0x100000;
    G.maps[a] = i.fd;
    mc_op("  runtime: opened handle at %lx flags %ld", (long)a, fl);
    *out = (void *)a;
    return ZE_RESULT_SUCCESS;
}
static ze_result_t g_ipcclose(ze_context_handle_t c, void *p) {
    ctx_ok(c);
    MC_CHECK(G.maps.count((uintptr_t)p), "ze:ipcclose", "close of %p, which is not open", p);
    if (ze_result_t r = refuse("ipc close"))
        return r;
    G.maps.erase((uintptr_t)p);
    return ZE_RESULT_SUCCESS;
}
static int SYM_ASKED = 0;
static const char *const SYMS[] = {"zeMemAllocHost", "zeMemAllocDevice", "zeMemAllocShared", "zeMemFree", "zeMemGetIpcHandle", "zeMemPutIpcHandle", "zeMemOpenIpcHandle", "zeMemCloseIpcHandle", "zeContextMakeMemoryResident", "zeDeviceGetProperties", "zeMemFreeExt", "zeMemGetAllocProperties"};
enum { S_PUT = 5, S_FREEEXT = 10, S_N = 12 };
static int close_fd(int fd) {
    MC_CHECK(G.fds.count(fd), "ze:closefd", "descriptor %d closed, which is not open", fd);
    G.fds.erase(fd);
    return 0;
}
extern "C" {
void *__wrap_utils_open_library(const char *n, int f) {
    mt_mark();
    if (!strstr(n, "ze_loader"))
        return __real_utils_open_library(n, f);
    G.loads++;
    if (G.missing_lib)
        return nullptr;
    G.opened++;
    return &G;
}
int __wrap_utils_close_library(void *h) {
    mt_mark();
    if (h != &G)
        return __real_utils_close_library(h);
    MC_CHECK(--G.opened >= 0, "ze:close", "library closed twice");
    return 0;
}
void *__wrap_utils_get_symbol_addr(void *h, const char *s, const char *l) {
    mt_mark();
    if (h != &G)
        return __real_utils_get_symbol_addr(h, s, l);
    MC_CHECK(G.opened > 0, "ze:unloaded", "symbol looked up in a closed library");
    SYM_ASKED++;
    if (G.missing == s)
        return nullptr;
    void *f[] = {(void *)g_host, (void *)g_dev, (void *)g_shared, (void *)g_free, (void *)g_ipcget, (void *)g_ipcput, (void *)g_ipcopen, (void *)g_ipcclose, (void *)g_resident, (void *)g_devprops, (void *)g_free_ext, (void *)g_props};
    for (int i = 0; i < S_N; i++)
        if (!strcmp(s, SYMS[i]))
            return f[i];
    return nullptr; // an entry point this run time does not have
}
int __wrap_utils_getpid(void) { return G.pid; }
umf_result_t __wrap_utils_duplicate_fd(int pid, int fd, int *out) {
    MC_CHECK(pid == 77 && fd == 40, "ze:dup", "descriptor %d of process %d duplicated", fd, pid);
    if (G.dup_faults > 0 && mc_fault()) {
        mc_op("  descriptor not duplicated");
        return UMF_RESULT_ERROR_NOT_SUPPORTED;
    }
    *out = G.next_fd++;
    G.fds[*out] = fd;
    return UMF_RESULT_SUCCESS;
}
int __wrap_utils_close_fd(int fd) { return close_fd(fd); }
}
// ---- providers ------------------------------------------------------------------------
static ze_device_handle_t DEV[3] = {(ze_device_handle_t)0xd0, (ze_device_handle_t)0xd1, (ze_device_handle_t)0xd2};
struct Cfg {
    int type; // umf type
    int dev;  // -1: none
    int nres;
    int policy;
    uint32_t ord;
};
static umf_result_t make(const Cfg &c, umf_memory_provider_handle_t *h, bool ctx = true) {
    umf_level_zero_memory_provider_params_handle_t p = nullptr;
    umf_result_t r = umfLevelZeroMemoryProviderParamsCreate(&p);
    if (r != UMF_RESULT_SUCCESS)
        return r;
    if (ctx)
        MC_CHECK(umfLevelZeroMemoryProviderParamsSetContext(p, G.ctx) == 0, "ze:set", "setting the context failed");
    ze_device_handle_t res[3] = {DEV[2], DEV[0], DEV[1]};
    MC_CHECK(umfLevelZeroMemoryProviderParamsSetDevice(p, c.dev < 0 ? nullptr : DEV[c.dev]) == 0 && umfLevelZeroMemoryProviderParamsSetMemoryType(p, (umf_usm_memory_type_t)c.type) == 0 &&
                 umfLevelZeroMemoryProviderParamsSetResidentDevices(p, c.nres ? res : nullptr, (uint32_t)c.nres) == 0 && umfLevelZeroMemoryProviderParamsSetDeviceOrdinal(p, c.ord) == 0 &&
                 umfLevelZeroMemoryProviderParamsSetFreePolicy(p, (umf_level_zero_memory_provider_free_policy_t)c.policy) == 0,
             "ze:set", "setting a parameter failed");
    *h = nullptr;
    r = umfMemoryProviderCreate(umfLevelZeroMemoryProviderOps(), p, h);
    // the caller may reuse all of it
    res[0] = res[1] = res[2] = (ze_device_handle_t)0xbad;
    umfLevelZeroMemoryProviderParamsSetMemoryType(p, UMF_MEMORY_TYPE_UNKNOWN);
    umfLevelZeroMemoryProviderParamsDestroy(p);
    return r;
}
static int kind_of(int type) { return type == UMF_MEMORY_TYPE_HOST ? K_HOST : type == UMF_MEMORY_TYPE_DEVICE ? K_DEV : K_SHARED; }
static bool valid(const Cfg &c, bool ctx) {
    if (!ctx)
        return false;
    if (c.type == UMF_MEMORY_TYPE_HOST)
        return c.dev < 0;
    if (c.type == UMF_MEMORY_TYPE_DEVICE || c.type == UMF_MEMORY_TYPE_SHARED)
        return c.dev >= 0;
    return false;
}
static umf_result_t expect_of(long code) {
    return code == ZE_RESULT_SUCCESS ? UMF_RESULT_SUCCESS : code == ZE_RESULT_ERROR_OUT_OF_HOST_MEMORY ? UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY : code == ZE_RESULT_ERROR_INVALID_ARGUMENT ? UMF_RESULT_ERROR_INVALID_ARGUMENT : UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;
}
static void g_begin() {
    int opened = G.opened;
    G = Gpu();
    G.opened = opened;
}
// an answer of the provider after the run time refused with code (0: it did not)
static void check_result(umf_memory_provider_handle_t h, umf_result_t r, long code, const char *what) {
    if (!code) {
        MC_CHECK(r == UMF_RESULT_SUCCESS, "ze:failed", "%s failed with %d although nothing was refused", what, r);
        return;
    }
    MC_CHECK(r == expect_of(code), "ze:code", "%s returned %d after the run time answered %lx", what, r, code);
    if (h && r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC) {
        const char *msg = "untouched";
        int32_t e = 0;
        umfMemoryProviderGetLastNativeError(h, &msg, &e);
        MC_CHECK(e == (int32_t)code, "ze:native", "native error %x after the run time answered %lx", e, code);
        MC_CHECK(!msg || strcmp(msg, "untouched"), "ze:message", "no message returned");
    }
}
// ---- scenario: creation --------------------------------------------------------------
static void body_create() {
    g_begin();
    Cfg c;
    static const int types[] = {UMF_MEMORY_TYPE_UNKNOWN, UMF_MEMORY_TYPE_HOST, UMF_MEMORY_TYPE_DEVICE, UMF_MEMORY_TYPE_SHARED, 17};
    c.type = types[mc_choose(5)];
    c.dev = mc_choose(2) - 1;
    c.nres = mc_choose(3);
    c.policy = mc_choose(3);
    c.ord = (uint32_t)mc_choose(2) * 3;
    bool ctx = mc_choose(2) == 0;
    G.faults = (int)mc_param("flt", 0);
    G.codes = 4;
    XLib lib;
    mc_ba_faults((int)mc_param("mflt", 0));
    umf_memory_provider_handle_t h = nullptr;
    mc_op("create type %ld device %ld resident %ld policy %ld", c.type, c.dev, c.nres, c.policy);
    umf_result_t r = make(c, &h, ctx);
    mc_ba_faults(0);
    mc_op("create = %ld", r);
    bool ok = valid(c, ctx), hurt = mc_faults_used() > 0;
    MC_CHECK(ok || r != UMF_RESULT_SUCCESS, "ze:accepted", "invalid combination accepted");
    MC_CHECK(!ok || hurt || r == UMF_RESULT_SUCCESS, "ze:rejected", "valid combination rejected with %d", r);
    MC_CHECK((r == UMF_RESULT_SUCCESS) == (h != nullptr), "ze:handle", "result %d with handle %p", r, (void *)h);
    if (r != UMF_RESULT_SUCCESS && ok && G.refused[0] && !G.lost_free)
        MC_CHECK(r == expect_of(G.refused[0]), "ze:code", "creation returned %d after the run time answered %lx", r, G.refused[0]);
    if (r != UMF_RESULT_SUCCESS && !ok && !hurt && (!ctx || ((c.type == UMF_MEMORY_TYPE_HOST) == (c.dev >= 0))))
        MC_CHECK(r == UMF_RESULT_ERROR_INVALID_ARGUMENT, "ze:reason", "invalid combination rejected with %d", r);
    G.faults = 0;
    if (h) {
        size_t pg = 0, rp = 0;
        MC_CHECK(umfMemoryProviderGetMinPageSize(h, nullptr, &pg) == UMF_RESULT_SUCCESS && pg == G.page[kind_of(c.type)], "ze:page", "minimum page size %zx", pg);
        MC_CHECK(umfMemoryProviderGetRecommendedPageSize(h, 100, &rp) == UMF_RESULT_SUCCESS && rp >= pg, "ze:page", "recommended page size %zx", rp);
        umfMemoryProviderDestroy(h);
    }
    MC_CHECK(G.live.empty() || G.lost_free, "ze:leak", "%zu allocations of the run time left", G.live.size());
    lib.done();
    MC_CHECK(G.opened == 0, "ze:held", "library still held after the last teardown");
    uint64_t o = ((((uint64_t)c.type * 2 + (uint64_t)(c.dev + 1)) * 3 + (uint64_t)c.nres) * 3 + (uint64_t)c.policy) * 2 + ctx;
    mc_state(mc_mix(o, c.ord + 1));
    mc_outcome(mc_mix(o, (uint64_t)r + 1));
}
// ---- scenario: histories ---------------------------------------------------------------
struct Blk {
    uintptr_t p;
    size_t n;
};
struct Exp { // exported handle
    size_t blk;
    std::vector<char> data;
    uintptr_t p;
};
static void body_hist() {
    g_begin();
    int cfg = (int)mc_param("cfg", 0), depth = (int)mc_param("depth", 4), np = (int)mc_param("provs", 1);
    static const Cfg CF[] = {{UMF_MEMORY_TYPE_DEVICE, 1, 2, 0, 3}, {UMF_MEMORY_TYPE_HOST, -1, 0, 1, 0}, {UMF_MEMORY_TYPE_SHARED, 0, 3, 2, 1}, {UMF_MEMORY_TYPE_DEVICE, 2, 0, 0, 0}, {UMF_MEMORY_TYPE_SHARED, 1, 0, 0, 0}, {UMF_MEMORY_TYPE_HOST, -1, 1, 0, 0}};
    static const int ZPOL[] = {0, ZE_DRIVER_MEMORY_FREE_POLICY_EXT_FLAG_BLOCKING_FREE, ZE_DRIVER_MEMORY_FREE_POLICY_EXT_FLAG_DEFER_FREE};
    if (mc_param("noput", 0))
        G.missing = "zeMemPutIpcHandle";
    XLib lib;
    umf_memory_provider_handle_t h[2] = {nullptr, nullptr};
    Cfg cf[2] = {CF[cfg], CF[(cfg + 1) % 6]};
    for (int i = 0; i < np; i++)
        MC_CHECK(make(cf[i], &h[i]) == UMF_RESULT_SUCCESS, "setup:create", "creation failed");
    G.faults = (int)mc_param("flt", 0);
    G.codes = (int)mc_param("codes", 2);
    G.dup_faults = G.faults;
    struct P {
        std::vector<Blk> live;
        std::vector<Exp> exp;
        std::vector<uintptr_t> open;
    } w[2];
    std::vector<std::pair<size_t, size_t>> req;
    if (mc_param("full", 0)) {
        for (size_t n : {(size_t)0, (size_t)1, (size_t)4096, (size_t)(1 << 20), (size_t)(1 << 20) + 1, (size_t)-1})
            for (size_t a : {(size_t)0, (size_t)8, (size_t)64, (size_t)65536, (size_t)3})
                req.push_back({n, a});
    } else
        req = {{100, 0}, {1 << 20, 64}, {(1 << 20) + 1, 0}};
    uint64_t sh = 5;
    for (int d = 0; d < depth; d++) {
        int k = np > 1 ? mc_choose(np) : 0;
        P &p = w[k];
        Cfg &c = cf[k];
        g_want_dev = c.dev < 0 ? nullptr : DEV[c.dev];
        int na = (int)req.size(), nl = (int)p.live.size(), ne = (int)p.exp.size(), no = (int)p.open.size();
        int per = 3; // free, page size, export
        int op = mc_choose(na + nl * per + ne * 3 + no + 1);
        G.log.clear();
        G.refused[0] = 0;
        size_t before = G.live.size();
        umf_result_t r;
        if (op < na) {
            void *q = (void *)0x1;
            r = umfMemoryProviderAlloc(h[k], req[(size_t)op].first, req[(size_t)op].second, &q);
            size_t n = req[(size_t)op].first, al = req[(size_t)op].second;
            mc_op("alloc %lx align %lx = %ld", (long)n, (long)al, r);
            if (r == UMF_RESULT_ERROR_INVALID_ARGUMENT && !G.refused[0] && (al & (al - 1)))
                ; // found out without asking
            else if (r == UMF_RESULT_SUCCESS && n == 0 && !q)
                ;
            else
                check_result(h[k], r, G.refused[0], "allocation");
            if (r != UMF_RESULT_SUCCESS)
                MC_CHECK(G.live.size() == before || G.lost_free, "ze:leak", "a failed allocation leaves %zu allocations of the run time", G.live.size() - before);
            else if (q) {
                auto it = G.live.find((uintptr_t)q);
                MC_CHECK(it != G.live.end() && G.live.size() == before + 1, "ze:alloc", "block %p is not the allocation made", q);
                GBlk &g = it->second;
                MC_CHECK(g.kind == kind_of(c.type) && g.size == n && g.align == al, "ze:args", "kind %d size %zx alignment %zx asked for", g.kind, g.size, g.align);
                if (g.kind != K_HOST)
                    MC_CHECK(g.dev == g_want_dev && g.ordinal == c.ord && g.relaxed == (n > G.max_alloc), "ze:args", "device %p ordinal %u relaxed %d", (void *)g.dev, g.ordinal, g.relaxed);
                ze_device_handle_t want[3] = {DEV[2], DEV[0], DEV[1]};
                std::vector<ze_device_handle_t> a(want, want + c.nres), b = g.resident;
                std::sort(a.begin(), a.end()), std::sort(b.begin(), b.end());
                MC_CHECK(a == b, "ze:residency", "block made resident on %zu devices instead of %zu", b.size(), a.size());
                p.live.push_back({(uintptr_t)q, n});
            }
        } else if ((op -= na) < nl * per) {
            size_t i = (size_t)(op / per);
            Blk b = p.live[i];
            if (op % per == 0) {
                for (auto &e : p.exp)
                    if (e.p == b.p)
                        mc_prune();
                r = umfMemoryProviderFree(h[k], (void *)b.p, b.n);
                mc_op("free %lx = %ld", (long)b.p, r);
                check_result(h[k], r, G.refused[0], "free");
                if (r == UMF_RESULT_SUCCESS) {
                    MC_CHECK(!G.live.count(b.p) && G.live.size() == before - 1, "ze:free", "block not released");
                    MC_CHECK(G.log.size() == 1 && G.log[0].policy == ZPOL[c.policy], "ze:policy", "released with policy %d", G.log.empty() ? -1 : G.log[0].policy);
                    p.live.erase(p.live.begin() + (long)i);
                } else
                    MC_CHECK(G.live.count(b.p), "ze:free", "block released by a refused free");
            } else if (op % per == 1) {
                size_t pg = 0;
                r = umfMemoryProviderGetMinPageSize(h[k], (void *)b.p, &pg);
                mc_op("page size = %ld, %lx", r, (long)pg);
                check_result(h[k], r, G.refused[0], "page size");
                MC_CHECK(r || pg == G.page[kind_of(c.type)], "ze:page", "page size %zx", pg);
            } else {
                if (ne >= 2)
                    mc_prune();
                size_t sz = 0;
                MC_CHECK(umfMemoryProviderGetIPCHandleSize(h[k], &sz) == UMF_RESULT_SUCCESS && sz >= sizeof(ze_ipc_mem_handle_t), "ze:ipcsize", "handle size %zu", sz);
                Exp e{i, std::vector<char>(sz), b.p};
                r = umfMemoryProviderGetIPCHandle(h[k], (void *)b.p, b.n, e.data.data());
                mc_op("export %lx = %ld", (long)b.p, r);
                check_result(h[k], r, G.refused[0], "export");
                if (!r)
                    p.exp.push_back(e);
            }
        } else if ((op -= nl * per) < ne * 3) {
            Exp &e = p.exp[(size_t)op / 3];
            if (op % 3 == 0) {
                r = umfMemoryProviderPutIPCHandle(h[k], e.data.data());
                mc_op("put = %ld", r);
                check_result(h[k], r, G.refused[0], "put");
                if (!r) {
                    if (G.missing.empty())
                        MC_CHECK(G.live[e.p].gets == (int)std::count_if(p.exp.begin(), p.exp.end(), [&](Exp &x) { return x.p == e.p; }) - 1, "ze:ipcput", "handle not put back");
                    p.exp.erase(p.exp.begin() + op / 3);
                }
            } else {
                G.pid = op % 3 == 1 ? 77 : 78; // here or in another process
                void *q = nullptr;
                std::vector<char> copy = e.data;
                size_t maps0 = G.maps.size(), used = (size_t)mc_faults_used();
                r = umfMemoryProviderOpenIPCHandle(h[k], copy.data(), &q);
                mc_op("open in process %ld = %ld", G.pid, r);
                if (G.refused[0] || (size_t)mc_faults_used() == used)
                    check_result(h[k], r, G.refused[0], "open");
                else
                    MC_CHECK(r != UMF_RESULT_SUCCESS, "ze:failed", "open succeeded without a descriptor");
                MC_CHECK(G.fds.empty(), "ze:fd-leak", "%zu descriptors left open", G.fds.size());
                MC_CHECK(copy == e.data, "ze:ipcdata", "opening changed the handle");
                if (!r) {
                    MC_CHECK(G.maps.count((uintptr_t)q) && G.maps.size() == maps0 + 1, "ze:ipcopen", "opened at %p, which is not open", q);
                    MC_CHECK((G.maps[(uintptr_t)q] == 40) == (G.pid == 77), "ze:ipcopen", "handle opened with descriptor %d", G.maps[(uintptr_t)q]);
                    p.open.push_back((uintptr_t)q);
                } else
                    MC_CHECK(G.maps.size() == maps0, "ze:ipcopen", "a failed open leaves a mapping");
                G.pid = 77;
            }
        } else if ((op -= ne * 3) < no) {
            r = umfMemoryProviderCloseIPCHandle(h[k], (void *)p.open[(size_t)op], 100);
            mc_op("close = %ld", r);
            check_result(h[k], r, G.refused[0], "close");
            MC_CHECK((r == UMF_RESULT_SUCCESS) == !G.maps.count(p.open[(size_t)op]), "ze:ipcclose", "wrong mapping closed");
            if (!r)
                p.open.erase(p.open.begin() + op);
        } else { // services that do not exist must not reach the run time
            static char dummy[64];
            umf_result_t a = umfMemoryProviderPurgeLazy(h[k], dummy, 64), b = umfMemoryProviderPurgeForce(h[k], dummy, 64), e = umfMemoryProviderAllocationSplit(h[k], dummy, 64, 32);
            MC_CHECK(a && b && e && G.log.empty(), "ze:unsupported", "a service that does not exist succeeded");
            MC_CHECK(umfMemoryProviderFree(h[k], nullptr, 0) == UMF_RESULT_SUCCESS, "ze:free-null", "releasing nothing failed");
            size_t pg = 0;
            MC_CHECK(umfMemoryProviderGetMinPageSize(h[k], nullptr, &pg) == UMF_RESULT_SUCCESS && pg == G.page[kind_of(c.type)], "ze:page", "minimum page size %zx", pg);
        }
        size_t total = 0, maps = 0;
        for (int i = 0; i < np; i++)
            total += w[i].live.size(), maps += w[i].open.size();
        MC_CHECK(G.lost_free ? G.live.size() >= total : G.live.size() == total, "ze:count", "%zu allocations for %zu blocks", G.live.size(), total);
        MC_CHECK(G.maps.size() == maps, "ze:count", "%zu open handles for %zu", G.maps.size(), maps);
        sh = mc_mix(sh, (uint64_t)total * 100 + maps * 10 + (uint64_t)w[0].exp.size());
        for (int i = 0; i < np; i++)
            for (auto &b : w[i].live)
                sh = mc_mix(sh, b.n);
        mc_state(sh);
    }
    mc_outcome(sh);
    // everything can still be released
    G.faults = G.dup_faults = 0;
    bool lost = G.lost_free;
    for (int k = 0; k < np; k++) {
        for (uintptr_t q : w[k].open)
            MC_CHECK(umfMemoryProviderCloseIPCHandle(h[k], (void *)q, 100) == UMF_RESULT_SUCCESS, "ze:after", "close failed");
        for (auto &e : w[k].exp)
            MC_CHECK(umfMemoryProviderPutIPCHandle(h[k], e.data.data()) == UMF_RESULT_SUCCESS, "ze:after", "put failed");
        for (auto &b : w[k].live)
            MC_CHECK(umfMemoryProviderFree(h[k], (void *)b.p, b.n) == UMF_RESULT_SUCCESS, "ze:after", "free failed");
        umfMemoryProviderDestroy(h[k]);
    }
    MC_CHECK(lost || G.live.empty(), "ze:leak", "%zu allocations of the run time left", G.live.size());
    MC_CHECK(G.maps.empty() && G.fds.empty(), "ze:leak", "handles or descriptors left");
    lib.done();
    MC_CHECK(G.opened == 0, "ze:held", "library still held after the last teardown");
}
// ---- scenario: answers of the library over its life times --------------------------------
static void body_load() {
    g_begin();
    int eras = (int)mc_param("eras", 2);
    uint64_t o = 1;
    for (int e = 0; e < eras; e++) {
        int a = mc_choose(S_N + 2); // all there, no library, one symbol missing
        G.missing_lib = a == 1;
        G.missing = a >= 2 ? SYMS[a - 2] : "";
        int pol = mc_choose(3);
        bool optional = a == 0 || a == 2 + S_PUT || (a == 2 + S_FREEEXT && pol == 0);
        XLib lib;
        umf_memory_provider_handle_t h = nullptr, h2 = nullptr;
        umf_result_t r = make({UMF_MEMORY_TYPE_DEVICE, 0, 1, pol, 0}, &h);
        mc_op("life %ld: answer %ld, policy %ld: create = %ld", e, a, pol, r);
        if (optional)
            MC_CHECK(r == UMF_RESULT_SUCCESS, "ze:load", "creation failed with %d although everything needed is there", r);
        else if (a != 2 + S_FREEEXT)
            MC_CHECK(r == UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE, "ze:load", "creation returned %d with an incomplete library", r);
        else
            MC_CHECK(r != UMF_RESULT_SUCCESS, "ze:load", "policy accepted which the run time cannot provide");
        if (h) {
            void *p = nullptr;
            MC_CHECK(umfMemoryProviderAlloc(h, 100, 0, &p) == UMF_RESULT_SUCCESS, "ze:load", "allocation failed");
            MC_CHECK(umfMemoryProviderFree(h, p, 100) == UMF_RESULT_SUCCESS, "ze:load", "free failed");
            // a second provider of the same life
            int pol2 = mc_choose(2) * 2;
            umf_result_t r2 = make({UMF_MEMORY_TYPE_HOST, -1, 0, pol2, 0}, &h2);
            MC_CHECK((r2 == UMF_RESULT_SUCCESS) == (pol2 == 0 || a != 2 + S_FREEEXT), "ze:load", "second provider: %d", r2);
            if (h2)
                umfMemoryProviderDestroy(h2);
            umfMemoryProviderDestroy(h);
            MC_CHECK(G.opened >= 1, "ze:held", "library not held while up");
        }
        MC_CHECK(G.live.empty(), "ze:leak", "%zu allocations left", G.live.size());
        lib.done();
        MC_CHECK(G.opened == 0, "ze:held", "library held %d times after the last teardown", G.opened);
        o = o * 64 + (uint64_t)a * 3 + (uint64_t)pol;
        mc_state(o);
    }
    mc_outcome(o);
}
// ---- scenario: several threads -------------------------------------------------------------
static void body_mt() {
    g_begin();
    int nt = (int)mc_param("threads", 2), shared = (int)mc_param("shared", 0);
    XLib lib;
    umf_memory_provider_handle_t common = nullptr;
    if (shared)
        MC_CHECK(make({UMF_MEMORY_TYPE_DEVICE, 0, 1, 0, 0}, &common) == UMF_RESULT_SUCCESS, "setup:create", "creation failed");
    G.faults = 1;
    G.codes = 1;
    std::vector<std::function<void()>> th;
    std::vector<int> left((size_t)nt, 0);
    for (int i = 0; i < nt; i++)
        th.push_back([&, i] {
            umf_memory_provider_handle_t h = common;
            if (!h) {
                umf_result_t r = make({i % 2 ? UMF_MEMORY_TYPE_HOST : UMF_MEMORY_TYPE_DEVICE, i % 2 ? -1 : 0, 1, 0, 0}, &h);
                mc_op("thread %ld: create = %ld", i, r);
                MC_CHECK((r == UMF_RESULT_SUCCESS) == (h != nullptr), "ze:handle", "result without handle");
                MC_CHECK(r == UMF_RESULT_SUCCESS || G.refused[me()], "ze:rejected", "thread %d: creation failed with %d", i, r);
                if (!h)
                    return;
            }
            G.refused[me()] = 0;
            void *p = nullptr;
            umf_result_t r = umfMemoryProviderAlloc(h, 100 + (size_t)i, 0, &p);
            mc_op("thread %ld: alloc = %ld", i, r);
            mt_mark();
            check_result(h, r, G.refused[me()], "allocation");
            if (!r) {
                G.refused[me()] = 0;
                MC_CHECK(G.live.count((uintptr_t)p) && G.live[(uintptr_t)p].size == 100 + (size_t)i, "ze:alloc", "thread %d: wrong block", i);
                r = umfMemoryProviderFree(h, p, 100 + (size_t)i);
                mt_mark();
                check_result(h, r, G.refused[me()], "free");
                mc_op("thread %ld: free = %ld", i, r);
            }
            if (!common)
                umfMemoryProviderDestroy(h);
        });
    mt_run(th, (int)mc_param("pb", 2));
    if (common)
        umfMemoryProviderDestroy(common);
    MC_CHECK(G.live.empty() || G.lost_free, "ze:leak", "%zu allocations left", G.live.size());
    lib.done();
    MC_CHECK(G.opened == 0, "ze:held", "library still held");
    uint64_t h = 1;
    for (int i = 0; i < nt; i++)
        h = mc_mix(h, (uint64_t)G.refused[i]);
    mc_outcome(h);
    mc_state(h);
}
static void setup() { x_arena(), x_down(); }
int main(int c, char **v) {
    return mc_main(c, v, {{"create", body_create, false, setup}, {"hist", body_hist, false, setup}, {"load", body_load, false, setup}, {"mt", body_mt, false, setup}});
}
