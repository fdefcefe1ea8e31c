// C15: the file and DAX providers over the modelled operating system.
#include "umfx.hpp"
#include "osmodel.hpp"
#include <thread>
#include <umf/providers/provider_devdax_memory.h>
#include <umf/providers/provider_file_memory.h>
enum { FPRIV, FSHARED, FSDAX, DEVDAX };
static const size_t MB2 = (size_t)2 << 20;
static const char *FPATH = "/model/f", *DPATH = "/dev/dax0.0";
struct Blk {
    uintptr_t p;
    size_t size;
    unsigned char pat;
};
struct World {
    int mode = 0, mflt = (int)mc_param("mflt", 0);
    size_t pg = OS_PG;
    umf_memory_provider_handle_t h = nullptr, h2 = nullptr; // h2: opens handles
    int ino = 0;
    size_t dev = 0;
    uintptr_t dev_base = 0;
    std::vector<Blk> blk;
    struct Open { uintptr_t p; size_t size; uint64_t off; };
    std::vector<Open> open;
    unsigned char pat = 0;
    bool mutex_ok = true;
    size_t step(const Blk &b) { return b.size > 64 * OS_PG ? b.size / 7 / OS_PG * OS_PG : OS_PG; }
    void fill(const Blk &b) {
        for (size_t o = 0; o < b.size; o += step(b))
            *(unsigned char *)(b.p + o) = b.pat;
        *(unsigned char *)(b.p + b.size - 1) = b.pat;
    }
    void check() {
        for (auto &b : blk) {
            int i0;
            uint64_t f0 = 0;
            MC_CHECK(OS.page(b.p, &i0, &f0), "file:hole", "first page of live block +%lx is not mapped", (long)(b.p - OS_ARENA));
            for (uintptr_t a = b.p; a < b.p + b.size; a = (a / OS_PG + 1) * OS_PG) {
                int i;
                uint64_t f;
                MC_CHECK(OS.page(a, &i, &f), "file:hole", "byte %zx of live block +%lx is not mapped", (size_t)(a - b.p), (long)(b.p - OS_ARENA));
                MC_CHECK(i == ino, "file:foreign", "live block is not a mapping of the provider's file");
                MC_CHECK(f < OS.files[ino].size, "file:beyond", "block mapped beyond the end of the file");
                const OsMap *m = OS.at(a);
                MC_CHECK(((m->flags & 3) == MAP_PRIVATE) == (mode == FPRIV), "file:visibility", "wrong visibility of a mapping");
                MC_CHECK(mode != DEVDAX || (m->flags & MAP_SYNC), "file:sync", "device mapped without MAP_SYNC");
                if (mode != FPRIV && f != f0 + (a - b.p)) {
                    // one block may span mappings, its file bytes must still be consecutive for sharing
                    mc_fail("file:offset", "file bytes of block +%lx are not consecutive", (long)(b.p - OS_ARENA));
                }
            }
            for (auto &c : blk) {
                if (&c == &b)
                    continue;
                MC_CHECK(c.p >= b.p + b.size || c.p + c.size <= b.p, "file:overlap", "blocks +%lx and +%lx overlap", (long)(b.p - OS_ARENA), (long)(c.p - OS_ARENA));
                int i;
                uint64_t f = 0;
                OS.page(c.p, &i, &f);
                MC_CHECK(f >= f0 + b.size || f + c.size <= f0, "file:alias", "blocks +%lx and +%lx share file bytes", (long)(b.p - OS_ARENA), (long)(c.p - OS_ARENA));
            }
            for (size_t o = 0; o < b.size; o += step(b))
                MC_CHECK(*(unsigned char *)(b.p + o) == b.pat, "file:contents", "contents of block +%lx changed at %zx", (long)(b.p - OS_ARENA), o);
            MC_CHECK(*(unsigned char *)(b.p + b.size - 1) == b.pat, "file:contents", "last byte of block +%lx changed", (long)(b.p - OS_ARENA));
            if (mode != FPRIV) {
                unsigned char c = 0;
                MC_CHECK(pread(OS.files[ino].fd, &c, 1, (off_t)f0) == 1 && c == b.pat, "file:write", "a write is not visible in the file");
            }
        }
        for (auto &o : open)
            for (size_t k = 0; k < o.size; k += o.size > 64 * OS_PG ? o.size / 7 / OS_PG * OS_PG : OS_PG) {
                int i;
                uint64_t f;
                MC_CHECK(OS.page(o.p + k, &i, &f) && i == ino && f == o.off + k, "file:open-page", "byte %zx of an opened block is mapped to other bytes", k);
            }
    }
    uint64_t shape() {
        uint64_t s = (uint64_t)mode;
        for (auto &m : OS.maps)
            s = mc_mix(s, (m.first - OS_ARENA) ^ (m.second.len << 20) ^ m.second.off);
        for (auto &b : blk)
            s = mc_mix(s, b.p ^ (b.size << 8));
        return mc_mix(s, open.size());
    }
};
static World *W;
static void failed(umf_memory_provider_handle_t h, umf_result_t r, const char *call) {
    MC_CHECK((r > 0 && r <= UMF_RESULT_ERROR_OUT_OF_RESOURCES) || r == UMF_RESULT_ERROR_UNKNOWN, "file:code", "%s returned %d, which is no result code", call, r);
    MC_CHECK(umfGetLastFailedMemoryProvider() == h, "file:last-failed", "last failed provider is not the one that failed");
    const char *msg = nullptr;
    int32_t e = 0;
    umfMemoryProviderGetLastNativeError(h, &msg, &e);
    MC_CHECK(msg && strlen(msg) < 2000, "file:message", "no message after the failure of %s", call);
}
static void do_alloc(size_t size, size_t align) {
    World &w = *W;
    size_t m0 = OS.mapped();
    int r0 = mc_faults_used();
    void *v = (void *)0x1234567;
    umf_result_t r = umfMemoryProviderAlloc(w.h, size, align, &v);
    bool f = mc_faults_used() > r0;
    mc_op("alloc size %lx align %lx = %ld (+%lx)", (long)size, (long)align, r, r ? 0 : (long)((uintptr_t)v - OS_ARENA));
    bool valid = size && (align & (align - 1)) == 0;
    bool sane = valid && size <= ((size_t)1 << 30) && align <= ((size_t)1 << 27);
    if (r != UMF_RESULT_SUCCESS) {
        if (sane && !f && w.mode == DEVDAX) { // only if no free extent is large enough
            uintptr_t a = w.dev_base;
            std::vector<std::pair<uintptr_t, uintptr_t>> used;
            for (auto &b : w.blk)
                used.push_back({b.p, b.p + b.size});
            used.push_back({w.dev_base + w.dev, 0});
            std::sort(used.begin(), used.end());
            size_t need = size + (align > w.pg ? align : w.pg);
            for (auto &u : used) {
                MC_CHECK(u.first - a < need, "file:refused", "alloc(%zx, %zx) = %d although %zx bytes are free in one piece", size, align, r, (size_t)(u.first - a));
                a = u.second;
            }
        } else
            MC_CHECK(f || !sane, "file:refused", "alloc(%zx, %zx) = %d although no system call failed", size, align, r);
        if (!f)
            MC_CHECK(OS.mapped() == m0, "file:leak-map", "failed alloc(%zx, %zx) left a mapping", size, align);
        failed(w.h, r, "alloc");
        return;
    }
    MC_CHECK(valid, "file:invalid", "alloc(%zx, %zx) succeeded", size, align);
    uintptr_t p = (uintptr_t)v;
    MC_CHECK(!align || p % align == 0, "file:align", "alloc(%zx, %zx) returned +%lx", size, align, (long)(p - OS_ARENA));
    MC_CHECK(p + size > p && OS.covered(p, size), "file:short", "alloc(%zx, %zx) returned +%lx, not all of it is mapped", size, align, (long)(p - OS_ARENA));
    for (auto &b : w.blk)
        MC_CHECK(p >= b.p + b.size || p + size <= b.p, "file:overlap", "blocks +%lx and +%lx overlap", (long)(p - OS_ARENA), (long)(b.p - OS_ARENA));
    Blk b{p, size, (unsigned char)++w.pat};
    w.blk.push_back(b);
    w.fill(b);
}
static void do_free(size_t i) {
    World &w = *W;
    Blk b = w.blk[i];
    int r0 = mc_faults_used();
    umf_result_t r = umfMemoryProviderFree(w.h, (void *)b.p, b.size);
    mc_op("free block %ld = %ld", (long)i, r);
    MC_CHECK(r == UMF_RESULT_SUCCESS || mc_faults_used() > r0, "file:free", "free of a live block = %d", r);
    if (r == UMF_RESULT_SUCCESS)
        w.blk.erase(w.blk.begin() + (long)i);
}
static void do_split(size_t i, size_t first) {
    World &w = *W;
    Blk b = w.blk[i];
    int r0 = mc_faults_used();
    umf_result_t r = umfMemoryProviderAllocationSplit(w.h, (void *)b.p, b.size, first);
    mc_op("split block %ld at %lx = %ld", (long)i, (long)first, r);
    if (r == UMF_RESULT_SUCCESS) {
        Blk hi{b.p + first, b.size - first, ++w.pat};
        w.blk[i].size = first;
        w.blk.insert(w.blk.begin() + (long)i + 1, hi);
        w.fill(w.blk[i]), w.fill(hi);
    } else
        MC_CHECK(mc_faults_used() > r0 || first % w.pg, "file:split", "split of a live block at %zx = %d", first, r);
}
static void do_merge(size_t i, bool halves) {
    World &w = *W;
    Blk lo = w.blk[i], hi = w.blk[i + 1];
    int r0 = mc_faults_used();
    umf_result_t r = umfMemoryProviderAllocationMerge(w.h, (void *)lo.p, (void *)hi.p, lo.size + hi.size);
    mc_op("merge blocks %ld, %ld = %ld", (long)i, (long)i + 1, r);
    if (r == UMF_RESULT_SUCCESS) {
        w.blk[i].size += hi.size;
        w.blk.erase(w.blk.begin() + (long)i + 1);
        w.fill(w.blk[i]);
    } else if (halves)
        MC_CHECK(mc_faults_used() > r0, "file:merge", "merge of adjacent blocks = %d", r);
}
static void do_ipc(size_t i) {
    World &w = *W;
    Blk b = w.blk[i];
    static char data[8192];
    memset(data, 0xEE, sizeof data);
    size_t n = 0;
    umf_result_t r = umfMemoryProviderGetIPCHandleSize(w.h, &n);
    if (w.mode == FPRIV) {
        MC_CHECK(r != UMF_RESULT_SUCCESS, "file:ipc-private", "handle size for private memory succeeded");
        r = umfMemoryProviderGetIPCHandle(w.h, (void *)b.p, b.size, data);
        MC_CHECK(r != UMF_RESULT_SUCCESS, "file:ipc-private", "handle of private memory succeeded");
        return;
    }
    MC_CHECK(r == UMF_RESULT_SUCCESS && n > 0 && n < 8000, "file:ipc-size", "handle size = %d, %zu bytes", r, n);
    r = umfMemoryProviderGetIPCHandle(w.h, (void *)b.p, b.size, data);
    MC_CHECK(r == UMF_RESULT_SUCCESS, "file:ipc-get", "handle of a live block = %d", r);
    for (size_t k = n; k < sizeof data; k++)
        MC_CHECK((unsigned char)data[k] == 0xEE, "file:ipc-overrun", "handle data written beyond its size of %zu", n);
    int r0 = mc_faults_used();
    size_t m0 = OS.mapped(), f0 = OS.fds.size();
    void *v = nullptr;
    r = umfMemoryProviderOpenIPCHandle(w.h2, data, &v);
    mc_op("open block %ld = %ld", (long)i, r);
    MC_CHECK(OS.fds.size() == f0, "file:leak-fd", "opening a handle left %ld descriptors", (long)(OS.fds.size() - f0));
    if (r != UMF_RESULT_SUCCESS) {
        MC_CHECK(mc_faults_used() > r0 || b.p % w.pg, "file:ipc-open", "open of a handle of a live block = %d", r);
        MC_CHECK(OS.mapped() == m0, "file:leak-map", "failed open left a mapping");
        failed(w.h2, r, "open");
    } else {
        uintptr_t p = (uintptr_t)v;
        MC_CHECK(OS.covered(p, b.size), "file:ipc-short", "opened mapping is shorter than the block");
        int i1, i2;
        uint64_t o1, o2;
        OS.page(b.p, &i1, &o1), OS.page(p, &i2, &o2);
        MC_CHECK(i1 == i2 && o1 == o2, "file:ipc-offset", "the opened block starts at file offset %lx, the block is at %lx", (long)o2, (long)o1);
        w.open.push_back({p, b.size, o2});
        MC_CHECK(*(unsigned char *)p == b.pat && *(unsigned char *)(p + b.size - 1) == b.pat, "file:ipc-contents", "opened block shows other bytes");
    }
    r = umfMemoryProviderPutIPCHandle(w.h, data);
    MC_CHECK(r == UMF_RESULT_SUCCESS, "file:ipc-put", "put of a handle = %d", r);
}
static void do_close(size_t i) {
    World &w = *W;
    auto o = w.open[i];
    w.open.erase(w.open.begin() + (long)i);
    size_t m0 = OS.mapped();
    umf_result_t r = umfMemoryProviderCloseIPCHandle(w.h2, (void *)o.p, o.size);
    mc_op("close = %ld", r);
    MC_CHECK(r == UMF_RESULT_SUCCESS, "file:ipc-close", "close of an opened handle = %d", r);
    MC_CHECK(OS.mapped() < m0, "file:ipc-close", "close unmapped nothing");
}
static void do_purge(size_t i) {
    World &w = *W;
    Blk b = w.blk[i];
    umf_result_t r = umfMemoryProviderPurgeLazy(w.h, (void *)b.p, b.size);
    MC_CHECK(r == UMF_RESULT_ERROR_NOT_SUPPORTED, "file:purge", "lazy purge = %d", r);
    int r0 = mc_faults_used();
    r = umfMemoryProviderPurgeForce(w.h, (void *)b.p, b.size);
    mc_op("purge block %ld = %ld", (long)i, r);
    MC_CHECK(r == UMF_RESULT_SUCCESS || mc_faults_used() > r0 || b.p % OS_PG, "file:purge", "purge = %d", r);
    if (r == UMF_RESULT_SUCCESS)
        w.fill(b);
    else
        failed(w.h, r, "purge");
}
static umf_result_t make(int mode, const char *path, size_t dev, unsigned prot, unsigned vis, umf_memory_provider_handle_t *h) {
    umf_result_t r;
    *h = nullptr;
    if (mode == DEVDAX) {
        umf_devdax_memory_provider_params_handle_t p = nullptr;
        r = umfDevDaxMemoryProviderParamsCreate(&p, path, dev);
        if (r != UMF_RESULT_SUCCESS)
            return r;
        r = umfDevDaxMemoryProviderParamsSetProtection(p, prot);
        if (r == UMF_RESULT_SUCCESS)
            r = umfMemoryProviderCreate(umfDevDaxMemoryProviderOps(), p, h);
        umfDevDaxMemoryProviderParamsDestroy(p);
    } else {
        umf_file_memory_provider_params_handle_t p = nullptr;
        r = umfFileMemoryProviderParamsCreate(&p, path);
        if (r != UMF_RESULT_SUCCESS)
            return r;
        r = umfFileMemoryProviderParamsSetProtection(p, prot);
        if (r == UMF_RESULT_SUCCESS)
            r = umfFileMemoryProviderParamsSetVisibility(p, (umf_memory_visibility_t)vis);
        if (r == UMF_RESULT_SUCCESS)
            r = umfMemoryProviderCreate(umfFileMemoryProviderOps(), p, h);
        umfFileMemoryProviderParamsDestroy(p);
    }
    return r;
}
static const unsigned RW = UMF_PROTECTION_READ | UMF_PROTECTION_WRITE;
struct Req { size_t size, align; };
static std::vector<Req> reqs(int alpha, size_t pg) {
    std::vector<Req> v;
    if (alpha == 0) {
        for (size_t s : {(size_t)1, pg - 1, pg, pg + 1, 2 * pg, 3 * pg + 5, (size_t)1 << 45, (size_t)1 << 63, SIZE_MAX, SIZE_MAX - pg + 2, SIZE_MAX - 4 * pg, (size_t)0})
            for (size_t a : {(size_t)0, (size_t)8, OS_PG, pg, 2 * pg, 4 * pg, 3 * pg, (size_t)24, (size_t)1 << 63})
                v.push_back({s, a});
    } else if (alpha == 1)
        v = {{pg, 0}, {100, 0}, {2 * pg, 4 * pg}, {pg + 8, 2 * pg}, {3 * pg, 0}, {(size_t)1 << 45, 0}};
    else
        v = {{pg, 0}, {pg, 4 * pg}, {2 * pg + 100, 0}};
    return v;
}
static void start(World &w) {
    W = &w;
    int m = (int)mc_param("mode", -1);
    w.mode = m < 0 ? mc_choose(4) : m;
    mc_op("mode %ld", w.mode);
    if (w.mode == DEVDAX) {
        w.dev = (size_t)mc_param("dev", 12) * MB2;
        os_make_file(DPATH, w.dev, true, true);
        w.pg = MB2;
    } else if (w.mode == FSDAX) {
        os_make_file(FPATH, 0, true);
        w.pg = MB2;
    }
    MC_CHECK(make(w.mode, w.mode == DEVDAX ? DPATH : FPATH, w.dev, RW, w.mode == FPRIV ? UMF_MEM_MAP_PRIVATE : UMF_MEM_MAP_SHARED, &w.h) == UMF_RESULT_SUCCESS, "file:create", "provider creation failed");
    w.ino = OS.names[w.mode == DEVDAX ? DPATH : FPATH];
    if (w.mode == DEVDAX)
        w.dev_base = OS.maps.begin()->first;
    size_t pg = 0;
    umf_result_t r = umfMemoryProviderGetMinPageSize(w.h, nullptr, &pg);
    MC_CHECK(r == UMF_RESULT_SUCCESS && pg == w.pg, "file:page", "minimum page size = %d, %zu", r, pg);
    if (w.mode == FSHARED || w.mode == FSDAX) {
        // an independent provider of another file opens the handles
        if (w.mode == FSDAX)
            os_make_file("/model/g", 0, true);
        MC_CHECK(make(w.mode, "/model/g", 0, RW, UMF_MEM_MAP_SHARED, &w.h2) == UMF_RESULT_SUCCESS, "file:create", "second provider creation failed");
    } else
        w.h2 = w.h;
}
static void stop(World &w) {
    OS.faults = 0;
    OS.phases = 0;
    OS.adjacent = false;
    mc_fault_budget(0);
    while (!w.open.empty())
        do_close(0);
    while (!w.blk.empty()) {
        do_free(0);
        w.check();
    }
    mc_ba_faults(0);
    umfMemoryProviderDestroy(w.h);
    if (w.h2 != w.h)
        umfMemoryProviderDestroy(w.h2);
}
static void body_hist() {
    XLib lib;
    os_begin(), hw_begin();
    World w;
    start(w);
    int alpha = (int)mc_param("alpha", 1), depth = (int)mc_param("depth", 3);
    OS.faults = (int)mc_param("oflt", 0) & ~OSF_MUNMAP;
    OS.phases = (int)mc_param("phases", 2);
    OS.phase_mod = 4 * w.pg / OS_PG;
    OS.adjacent = mc_param("adj", 1);
    mc_ba_faults(w.mflt);
    auto R = reqs(alpha, w.pg);
    for (int d = 0; d < depth; d++) {
        int nb = (int)w.blk.size(), no = (int)w.open.size(), nr = (int)R.size();
        std::vector<std::pair<int, int>> acts;
        for (int i = 0; i < nr; i++)
            acts.push_back({0, i});
        for (int i = 0; i < nb; i++) {
            Blk &b = w.blk[(size_t)i];
            acts.push_back({1, i});
            if (b.size > w.pg)
                acts.push_back({2, i});
            if (alpha < 2 && b.size > 100)
                acts.push_back({3, i});
            if (i + 1 < nb && b.p + b.size == w.blk[(size_t)i + 1].p)
                acts.push_back({4, i});
            if (alpha < 2)
                acts.push_back({5, i});
            acts.push_back({7, i});
        }
        for (int i = 0; i < no; i++)
            acts.push_back({8, i});
        auto [a, i] = acts[(size_t)mc_choose((int)acts.size())];
        switch (a) {
        case 0: do_alloc(R[(size_t)i].size, R[(size_t)i].align); break;
        case 1: do_free((size_t)i); break;
        case 2: do_split((size_t)i, w.pg); break;
        case 3: do_split((size_t)i, 100); break;
        case 4: do_merge((size_t)i, false); break;
        case 5: do_purge((size_t)i); break;
        case 7: do_ipc((size_t)i); break;
        case 8: do_close((size_t)i); break;
        }
        w.check();
        mc_state(w.shape());
    }
    mc_outcome(w.shape());
    // recovery: what is left still works, and every block can be shared
    OS.faults = 0;
    mc_ba_faults(0);
    mc_fault_budget(0);
    OS.phases = 0;
    OS.adjacent = false;
    if (w.mode != DEVDAX)
        do_alloc(w.pg + 1, 2 * w.pg);
    if (w.mode != FPRIV)
        for (size_t i = 0; i < w.blk.size(); i++)
            do_ipc(i);
    w.check();
    stop(w);
    os_end();
    hw_end();
    lib.done();
}
static void body_create() {
    XLib lib;
    os_begin(), hw_begin();
    World w;
    W = &w;
    w.mode = mc_choose(4);
    int pi = 0, pr = 0, vi = 0, di = 0;
    static const unsigned PROTS[] = {RW, UMF_PROTECTION_READ, UMF_PROTECTION_NONE, 64};
    std::string paths[] = {w.mode == DEVDAX ? DPATH : FPATH, "/nowhere/f", std::string("/model/") + std::string(4088, 'a'), std::string("/model/") + std::string(4089, 'a'), std::string("/model/") + std::string(6000, 'a'),
                           w.mode == DEVDAX ? "/dev/dax-none" : "", w.mode == DEVDAX ? "/dev/dax-file" : "/nowhere/f"};
    bool pok[] = {true, false, w.mode != DEVDAX, false, false, false, false};
    static const size_t devs[] = {4 * MB2, 5 * MB2, MB2 + OS_PG, 0, (size_t)1 << 62, MB2};
    static const bool dok[] = {true, false, false, false, false, true};
    switch (mc_choose(4)) {
    case 0: pi = mc_choose(7); break;
    case 1: pr = mc_choose(4); break;
    case 2: vi = mc_choose(3); break;
    default:
        if (w.mode == DEVDAX)
            di = mc_choose(6);
    }
    mc_op("create: mode %ld path %ld protection %ld visibility %ld", w.mode, pi, pr, vi);
    os_make_file(DPATH, 4 * MB2, true, true);
    os_make_file("/dev/dax-file", 4 * MB2, true, false);
    if (w.mode == FSDAX)
        os_make_file(FPATH, 0, true), os_make_file(paths[2].c_str(), 0, true);
    if (w.mode == DEVDAX && mc_choose(2)) { // a device that does not support MAP_SYNC
        OS.files[OS.names[DPATH]].dax = false;
        pok[0] = false;
    }
    OS.faults = (int)mc_param("oflt", 0) & ~OSF_MUNMAP;
    mc_ba_faults((int)mc_param("mflt", 0));
    mc_mutex_faults((int)mc_param("mflt", 0));
    unsigned vis = vi == 1 ? 77u : w.mode == FPRIV ? (unsigned)UMF_MEM_MAP_PRIVATE : (unsigned)UMF_MEM_MAP_SHARED;
    bool valid = pok[pi] && pr != 3 && (vi != 1 || w.mode == DEVDAX) && dok[di];
    int r0 = mc_faults_used();
    umf_memory_provider_handle_t h = nullptr;
    umf_result_t r = make(w.mode, paths[pi].c_str(), devs[di], PROTS[pr], vis, &h);
    bool f = mc_faults_used() > r0;
    mc_op("create = %ld", r);
    MC_CHECK(r == UMF_RESULT_SUCCESS || (r > 0 && r <= UMF_RESULT_ERROR_OUT_OF_RESOURCES) || r == UMF_RESULT_ERROR_UNKNOWN, "file:code", "creation returned %d, which is no result code", r);
    if (r == UMF_RESULT_SUCCESS) {
        MC_CHECK(valid && h, "file:accepted", "provider created from invalid parameters");
        w.h = w.h2 = h;
        w.pg = w.mode >= FSDAX ? MB2 : OS_PG;
        const char *p = paths[pi].c_str();
        w.ino = OS.names[p];
        w.dev = devs[di];
        if (w.mode == DEVDAX)
            w.dev_base = OS.maps.begin()->first;
        size_t pg = 0;
        umfMemoryProviderGetMinPageSize(h, nullptr, &pg);
        if (!f)
            MC_CHECK(pg == w.pg, "file:page", "minimum page size %zu", pg);
        w.pg = pg;
        OS.faults = 0;
        mc_ba_faults(0);
        if (pr == 0) {
            do_alloc(100, 0);
            w.check();
            if (w.mode != FPRIV && !w.blk.empty())
                do_ipc(0);
            w.check();
        }
        while (!w.open.empty())
            do_close(0);
        while (!w.blk.empty())
            do_free(0);
        umfMemoryProviderDestroy(h);
    } else {
        MC_CHECK(!valid || f, "file:create", "creation = %d although nothing failed", r);
        MC_CHECK(!h, "file:create", "failed creation returned a provider");
    }
    mc_ba_faults(0);
    mc_mutex_faults(0);
    OS.faults = 0;
    mc_state((uint64_t)(w.mode * 1000 + pi * 100 + pr * 10 + vi) * 7 + (uint64_t)r);
    mc_outcome((uint64_t)r);
    os_end();
    hw_end();
    lib.done();
}
static void body_mt() {
    XLib lib;
    os_begin(), hw_begin();
    World w;
    start(w);
    int nt = (int)mc_param("threads", 2), prog[3], lo = 0;
    for (int i = 0; i < nt; i++)
        lo = prog[i] = lo + mc_choose(4 - lo);
    std::vector<Blk> pre((size_t)nt);
    for (int i = 0; i < nt; i++) {
        do_alloc(2 * w.pg, 0);
        pre[(size_t)i] = w.blk.back();
    }
    w.blk.clear();
    std::vector<std::vector<Blk>> out((size_t)nt);
    std::vector<std::function<void()>> th;
    for (int t = 0; t < nt; t++)
        th.push_back([&, t] {
            auto &mine = out[(size_t)t];
            auto alloc = [&](size_t n, size_t al) {
                void *v = nullptr;
                mt_mark();
                umf_result_t r = umfMemoryProviderAlloc(w.h, n, al, &v);
                if (w.mode == DEVDAX && r != UMF_RESULT_SUCCESS)
                    return;
                MC_CHECK(r == UMF_RESULT_SUCCESS, "file:refused", "alloc = %d", r);
                mine.push_back({(uintptr_t)v, n, (unsigned char)(t * 50 + 10 + (int)mine.size())});
            };
            auto fre = [&](Blk b) {
                mt_mark();
                umf_result_t r = umfMemoryProviderFree(w.h, (void *)b.p, b.size);
                MC_CHECK(r == UMF_RESULT_SUCCESS, "file:free", "free = %d", r);
            };
            switch (prog[t]) {
            case 0: alloc(w.pg, 0); mine.push_back(pre[(size_t)t]); break;
            case 1: alloc(w.pg, 2 * w.pg); fre(pre[(size_t)t]); break;
            case 2: fre(pre[(size_t)t]); alloc(100, 0); break;
            default: {
                mt_mark();
                Blk b = pre[(size_t)t];
                umf_result_t r = umfMemoryProviderAllocationSplit(w.h, (void *)b.p, b.size, w.pg);
                MC_CHECK(r == UMF_RESULT_SUCCESS, "file:split", "split = %d", r);
                b.size = w.pg;
                fre(b);
                b.p += w.pg;
                mine.push_back(b);
                alloc(w.pg, 0);
            }
            }
        });
    mt_run(th, (int)mc_param("pb", 2));
    for (auto &o : out)
        for (auto &b : o)
            w.blk.push_back(b), w.fill(b);
    w.check();
    mc_state(w.shape()), mc_outcome(w.shape());
    if (w.mode != FPRIV)
        for (size_t i = 0; i < w.blk.size(); i++)
            do_ipc(i);
    w.check();
    stop(w);
    os_end(), hw_end();
    lib.done();
}
// what a thread is told about its latest failure is not changed by failures of others
static void body_native() {
    XLib lib;
    os_begin(), hw_begin();
    World w;
    start(w);
    do_alloc(w.pg, 0);
    Blk b = w.blk.back();
    struct Told {
        int r = 0, code = 0;
        std::string msg;
    } want[2], got[2];
    auto run = [&](int op) {
        Told t;
        void *v = nullptr;
        if (op)
            t.r = w.mode == DEVDAX ? umfMemoryProviderPurgeForce(w.h, (void *)(b.p + 1), 64) : umfMemoryProviderAlloc(w.h, (size_t)1 << 45, 0, &v);
        mt_mark();
        const char *m = nullptr;
        int32_t e = -7;
        umfMemoryProviderGetLastNativeError(w.h, &m, &e);
        t.code = e, t.msg = m ? m : "(none)";
        return t;
    };
    std::thread([&] { want[0] = run(0); }).join();
    std::thread([&] { want[1] = run(1); }).join();
    MC_CHECK(want[1].r != UMF_RESULT_SUCCESS, "file:huge", "impossible request = %d", want[1].r);
    mt_run({[&] { got[0] = run(0); }, [&] { got[1] = run(1); }}, (int)mc_param("pb", 2));
    for (int i = 0; i < 2; i++)
        MC_CHECK(got[i].r == want[i].r && got[i].code == want[i].code && got[i].msg == want[i].msg, "file:native", "thread %d told %d, '%.60s' instead of %d, '%.60s'", i, got[i].code, got[i].msg.c_str(), want[i].code, want[i].msg.c_str());
    mc_state((uint64_t)want[1].code), mc_outcome((uint64_t)w.mode * 10000 + (uint64_t)want[1].code);
    w.check();
    stop(w);
    os_end(), hw_end();
    lib.done();
}
static void setup() {
    x_down();
    os_setup();
    hw_setup("numa:4 core:1 pu:1");
}
int main(int argc, char **argv) {
    return mc_main(argc, argv, {{"hist", body_hist, false, setup}, {"create", body_create, false, setup}, {"mt", body_mt, false, setup}, {"native", body_native, true, setup}});
}
