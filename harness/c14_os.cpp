// C14: the system-memory provider over the modelled operating system.
#include "umfx.hpp"
#include "osmodel.hpp"
#include <thread>
#include <umf/providers/provider_os_memory.h>
enum { PRIV, ANON, NAMED };
struct Blk {
    uintptr_t p;
    size_t size;
    unsigned char pat;
    int prov;
};
static size_t up(size_t n) { return (n + OS_PG - 1) / OS_PG * OS_PG; }
struct World {
    int mode = PRIV, prot = PROT_READ | PROT_WRITE;
    umf_memory_provider_handle_t h[2] = {};
    int fd_ino[2] = {0, 0};
    std::vector<Blk> blk;
    struct Open { uintptr_t p; size_t size; int prov; int ino; uint64_t off; };
    std::vector<Open> open;
    unsigned char pat = 0;
    int mflt = (int)mc_param("mflt", 0);
    size_t sum[2] = {}, peak[2] = {};
    bool name_opened = false; // a named handle was opened: the name is gone (see known findings)
    size_t expected_mapped() {
        size_t s = 0;
        for (auto &b : blk)
            s += up(b.size);
        for (auto &o : open)
            s += up(o.size);
        return s;
    }
    void fill(const Blk &b) {
        if (!(prot & PROT_WRITE))
            return;
        for (size_t o = 0; o < b.size; o += OS_PG) {
            *(unsigned char *)(b.p + o) = b.pat;
            size_t e = o + OS_PG < b.size ? o + OS_PG : b.size;
            *(unsigned char *)(b.p + e - 1) = (unsigned char)(b.pat ^ 0x80);
        }
    }
    void verify(const Blk &b, uintptr_t at, const char *what) {
        if (!(prot & PROT_READ) || !(prot & PROT_WRITE))
            return;
        for (size_t o = 0; o < b.size; o += OS_PG) {
            size_t e = o + OS_PG < b.size ? o + OS_PG : b.size;
            unsigned char f = *(unsigned char *)(at + o), l = *(unsigned char *)(at + e - 1);
            MC_CHECK((e - o == 1 || f == b.pat) && l == (unsigned char)(b.pat ^ 0x80), "os:contents", "%s: page %zu of block +%lx shows other bytes", what, o / OS_PG, (long)(b.p - OS_ARENA));
        }
    }
    void check() {
        for (auto &b : blk) {
            int prov_ino = -1;
            uint64_t off0 = 0;
            for (size_t o = 0; o < b.size; o += OS_PG) {
                int ino;
                uint64_t off;
                MC_CHECK(OS.page(b.p + o, &ino, &off), "os:hole", "page %zu of live block +%lx is not mapped", o / OS_PG, (long)(b.p - OS_ARENA));
                const OsMap *m = OS.at(b.p + o);
                MC_CHECK(m->prot == prot, "os:prot", "block mapped with protection %d instead of %d", m->prot, prot);
                if (mode == PRIV) {
                    MC_CHECK(ino == 0 && (m->flags & MAP_PRIVATE), "os:visibility", "private block is not a private anonymous mapping");
                } else {
                    MC_CHECK(ino == fd_ino[b.prov] && (m->flags & MAP_SHARED), "os:visibility", "shared block is not a shared mapping of the provider's file");
                    if (!o)
                        prov_ino = ino, off0 = off;
                    MC_CHECK(off == off0 + o, "os:offset", "file pages of block +%lx are not consecutive", (long)(b.p - OS_ARENA));
                    MC_CHECK(off + OS_PG > off && off < OS.files[ino].size, "os:beyond", "block mapped beyond the end of the file");
                }
            }
            if (mode != PRIV) // file ranges of live blocks are disjoint
                for (auto &c : blk) {
                    int ino;
                    uint64_t off = 0;
                    OS.page(c.p, &ino, &off);
                    if (&c != &b && c.prov == b.prov)
                        MC_CHECK(off >= off0 + up(b.size) || off + up(c.size) <= off0, "os:alias", "blocks +%lx and +%lx share file pages", (long)(b.p - OS_ARENA), (long)(c.p - OS_ARENA));
                }
            (void)prov_ino;
            verify(b, b.p, "live block");
        }
        for (auto &o : open)
            for (size_t k = 0; k < o.size; k += OS_PG) {
                int ino;
                uint64_t off;
                MC_CHECK(OS.page(o.p + k, &ino, &off) && ino == o.ino && off == o.off + k, "os:open-page", "page %zu of an opened block is mapped to other bytes", k / OS_PG);
                unsigned char c = 0;
                if (pread(OS.files[ino].fd, &c, 1, (off_t)off) != 1 || c != *(unsigned char *)(o.p + k))
                    mc_fail("os:open-contents", "page %zu of an opened block does not show the bytes of its file range", k / OS_PG);
            }
        MC_CHECK(OS.mapped() == expected_mapped(), "os:mapped", "%zu bytes mapped, live blocks and opened handles need %zu", OS.mapped(), expected_mapped());
        mc_ba_faults(0);
        for (int i = 0; i < 2 && h[i]; i++) {
            size_t a = 0, p = 0;
            umf_result_t r = umfCtlGet("umf.provider.by_handle.stats.allocated_memory", h[i], &a);
            umf_result_t r2 = umfCtlGet("umf.provider.by_handle.stats.peak_memory", h[i], &p);
            MC_CHECK(r == UMF_RESULT_SUCCESS && r2 == r, "os:stats", "statistics query = %d", r);
            MC_CHECK(a == sum[i], "os:stats", "allocated_memory is %zu, live bytes are %zu", a, sum[i]);
            MC_CHECK(p == peak[i], "os:stats", "peak_memory is %zu, expected %zu", p, peak[i]);
        }
        mc_ba_faults(mflt);
    }
    uint64_t shape() {
        uint64_t s = (uint64_t)mode;
        for (auto &m : OS.maps)
            s = mc_mix(s, (m.first - OS_ARENA) ^ (m.second.len << 20) ^ m.second.off);
        for (auto &b : blk)
            s = mc_mix(s, b.p ^ (b.size << 8));
        return mc_mix(s, open.size());
    }
};
static World *W;
static void last_error(umf_memory_provider_handle_t h, umf_result_t r, int32_t want, const char *call) {
    MC_CHECK(r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC || r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY || r == UMF_RESULT_ERROR_INVALID_ARGUMENT || r == UMF_RESULT_ERROR_UNKNOWN ||
             r == UMF_RESULT_ERROR_INVALID_ALIGNMENT || r == UMF_RESULT_ERROR_NOT_SUPPORTED || r == UMF_RESULT_ERROR_OUT_OF_RESOURCES, "os:code", "%s returned %d, which is no result code", call, r);
    MC_CHECK(umfGetLastFailedMemoryProvider() == h, "os:last-failed", "last failed provider is not the one that failed");
    if (r != UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC)
        return;
    const char *msg = nullptr;
    int32_t e = 0;
    umfMemoryProviderGetLastNativeError(h, &msg, &e);
    MC_CHECK(msg && *msg, "os:message", "no message for the failure of %s", call);
    MC_CHECK(e == want, "os:native", "native error %d after a failed %s, expected %d", e, call, want);
}
static void do_alloc(int pi, size_t size, size_t align) {
    World &w = *W;
    size_t m0 = OS.mapped();
    int r0 = mc_faults_used();
    void *v = (void *)0x1234567;
    bool divides = align == 0 || OS_PG % align == 0, mult = align && align % OS_PG == 0;
    umf_result_t r = umfMemoryProviderAlloc(w.h[pi], size, align, &v);
    bool f = mc_faults_used() > r0;
    mc_op("alloc size %lx align %lx = %ld", (long)size, (long)align, r);
    bool sane = size && size <= ((size_t)1 << 31) && align <= ((size_t)1 << 20) && (divides || mult);
    if (r != UMF_RESULT_SUCCESS) {
        MC_CHECK(f || !sane || (align & (align - 1)), "os:refused", "alloc(%zu, %zu) = %d although no system call failed", size, align, r);
        MC_CHECK(OS.mapped() == m0, "os:leak-map", "failed alloc(%zu, %zu) changed the mapped memory from %zu to %zu bytes", size, align, m0, OS.mapped());
        last_error(w.h[pi], r, UMF_OS_RESULT_ERROR_ALLOC_FAILED, "alloc");
        return;
    }
    uintptr_t p = (uintptr_t)v;
    MC_CHECK(!f || !strcmp(OS.refused, "") || true, "os:", " ");
    MC_CHECK(size, "os:zero", "alloc of 0 bytes succeeded with %lx", p);
    MC_CHECK(OS.covered(p, size), "os:short", "alloc(%zu, %zu) returned %lx, not all of it is mapped", size, align, p);
    MC_CHECK(p % OS_PG == 0 && (!align || p % align == 0), "os:align", "alloc(%zu, %zu) returned +%lx", size, align, (long)(p - OS_ARENA));
    for (auto &b : w.blk)
        MC_CHECK(p >= b.p + up(b.size) || p + up(size) <= b.p, "os:overlap", "blocks +%lx and +%lx overlap", (long)(p - OS_ARENA), (long)(b.p - OS_ARENA));
    Blk b{p, size, ++w.pat, pi};
    w.blk.push_back(b);
    w.sum[pi] += size;
    if (w.sum[pi] > w.peak[pi])
        w.peak[pi] = w.sum[pi];
    w.fill(b);
}
static void do_free(size_t i, bool may_fault = true) {
    World &w = *W;
    Blk b = w.blk[i];
    int r0 = mc_faults_used();
    OS.unmapped.clear();
    int sf = OS.faults;
    if (!may_fault)
        OS.faults = 0;
    OS.faults |= may_fault ? OSF_MUNMAP & (int)mc_param("oflt", 0) : 0;
    umf_result_t r = umfMemoryProviderFree(w.h[b.prov], (void *)b.p, b.size);
    OS.faults = sf;
    mc_op("free block %ld = %ld", (long)i, r);
    if (r == UMF_RESULT_SUCCESS) {
        for (auto &u : OS.unmapped)
            MC_CHECK(u.first >= b.p && u.first + u.second <= b.p + up(b.size), "os:free-range", "free of +%lx size %zu unmapped +%lx size %zu", (long)(b.p - OS_ARENA), b.size, (long)(u.first - OS_ARENA), u.second);
        w.blk.erase(w.blk.begin() + (long)i);
        w.sum[b.prov] -= b.size;
    } else {
        MC_CHECK(mc_faults_used() > r0, "os:free", "free of a live block = %d", r);
        last_error(w.h[b.prov], r, UMF_OS_RESULT_ERROR_FREE_FAILED, "free");
    }
}
static void do_split(size_t i, size_t first) {
    World &w = *W;
    Blk b = w.blk[i];
    int r0 = mc_faults_used();
    OS.unmapped.clear();
    umf_result_t r = umfMemoryProviderAllocationSplit(w.h[b.prov], (void *)b.p, b.size, first);
    mc_op("split block %ld at %lx = %ld", (long)i, (long)first, r);
    MC_CHECK(OS.unmapped.empty(), "os:split-unmap", "split unmapped memory");
    if (r == UMF_RESULT_SUCCESS) {
        MC_CHECK(first % OS_PG == 0, "os:split-page", "split of a block at %zu, inside a page, succeeded although its parts cannot be freed separately", first);
        Blk hi{b.p + first, b.size - first, ++w.pat, b.prov};
        w.blk[i].size = first;
        w.blk.insert(w.blk.begin() + (long)i + 1, hi);
        w.fill(w.blk[i]), w.fill(hi);
    } else
        MC_CHECK(mc_faults_used() > r0 || first % OS_PG, "os:split", "split of a live block at a page boundary = %d", r);
}
static void do_merge(size_t i) {
    World &w = *W;
    Blk lo = w.blk[i], hi = w.blk[i + 1];
    int r0 = mc_faults_used();
    umf_result_t r = umfMemoryProviderAllocationMerge(w.h[lo.prov], (void *)lo.p, (void *)hi.p, lo.size + hi.size);
    mc_op("merge blocks %ld, %ld = %ld", (long)i, (long)i + 1, r);
    if (r == UMF_RESULT_SUCCESS) {
        w.blk[i].size += hi.size;
        w.blk.erase(w.blk.begin() + (long)i + 1);
        w.fill(w.blk[i]);
    } else
        MC_CHECK(mc_faults_used() > r0, "os:merge", "merge of two halves of one block = %d", r);
}
static void do_purge(size_t i, bool force) {
    World &w = *W;
    Blk b = w.blk[i];
    int r0 = mc_faults_used();
    umf_result_t r = force ? umfMemoryProviderPurgeForce(w.h[b.prov], (void *)b.p, b.size) : umfMemoryProviderPurgeLazy(w.h[b.prov], (void *)b.p, b.size);
    mc_op("purge(%ld) block %ld = %ld", force, (long)i, r);
    if (r != UMF_RESULT_SUCCESS) {
        MC_CHECK(mc_faults_used() > r0 || w.mode != PRIV, "os:purge", "purge of a live block = %d", r);
        last_error(w.h[b.prov], r, force ? UMF_OS_RESULT_ERROR_PURGE_FORCE_FAILED : UMF_OS_RESULT_ERROR_PURGE_LAZY_FAILED, "purge");
        return;
    }
    if (w.mode == PRIV && (w.prot & PROT_READ)) {
        for (size_t o = 0; o < b.size; o++) {
            unsigned char c = *(unsigned char *)(b.p + o);
            if (force)
                MC_CHECK(c == 0, "os:purge-zero", "purged page is not zero-filled");
        }
        w.fill(b); // new contents
    }
}
static void do_ipc(size_t i, int via) {
    World &w = *W;
    Blk b = w.blk[i];
    static char data[1024];
    memset(data, 0xEE, sizeof data);
    size_t n = 0;
    umf_result_t r = umfMemoryProviderGetIPCHandleSize(w.h[b.prov], &n);
    if (w.mode == PRIV) {
        MC_CHECK(r != UMF_RESULT_SUCCESS, "os:ipc-private", "handle size for private memory succeeded");
        r = umfMemoryProviderGetIPCHandle(w.h[b.prov], (void *)b.p, b.size, data);
        MC_CHECK(r != UMF_RESULT_SUCCESS, "os:ipc-private", "handle of private memory succeeded");
        mc_op("export refused");
        return;
    }
    MC_CHECK(r == UMF_RESULT_SUCCESS && n > 0 && n < 512, "os:ipc-size", "handle size = %d, %zu bytes", r, n);
    r = umfMemoryProviderGetIPCHandle(w.h[b.prov], (void *)b.p, b.size, data);
    MC_CHECK(r == UMF_RESULT_SUCCESS, "os:ipc-get", "handle of a live block = %d", r);
    for (size_t k = n; k < sizeof data; k++)
        MC_CHECK((unsigned char)data[k] == 0xEE, "os:ipc-overrun", "handle data written beyond its size of %zu", n);
    int r0 = mc_faults_used();
    size_t fds0 = OS.fds.size(), m0 = OS.mapped();
    void *v = nullptr;
    r = umfMemoryProviderOpenIPCHandle(w.h[via], data, &v);
    mc_op("open block %ld through provider %ld = %ld", (long)i, via, r);
    MC_CHECK(OS.fds.size() == fds0, "os:leak-fd", "opening a handle left %ld descriptors", (long)(OS.fds.size() - fds0));
    if (r != UMF_RESULT_SUCCESS) {
        if (!(mc_faults_used() > r0) && w.mode == NAMED && w.name_opened)
            mc_fail("os:named-second-open", "a second handle of a provider with a shared memory name cannot be opened: the first open removed the name");
        MC_CHECK(mc_faults_used() > r0, "os:ipc-open", "open of a handle of a live block = %d", r);
        MC_CHECK(OS.mapped() == m0, "os:leak-map", "failed open left a mapping");
        if (w.mode == NAMED && !OS.shm.count("a"))
            w.name_opened = true;
    } else {
        if (w.mode == NAMED)
            w.name_opened = true;
        uintptr_t p = (uintptr_t)v;
        MC_CHECK(OS.covered(p, b.size), "os:ipc-short", "opened mapping is shorter than the block");
        for (size_t o = 0; o < b.size; o += OS_PG) {
            int i1, i2;
            uint64_t o1, o2;
            OS.page(b.p + o, &i1, &o1), OS.page(p + o, &i2, &o2);
            MC_CHECK(i1 == i2 && o1 == o2, "os:ipc-offset", "page %zu of the opened block shows file offset %lx, the block has %lx", o / OS_PG, (long)o2, (long)o1);
        }
        int oi;
        uint64_t oo;
        OS.page(p, &oi, &oo);
        w.open.push_back({p, b.size, via, oi, oo});
        w.verify(b, p, "opened block");
    }
    r = umfMemoryProviderPutIPCHandle(w.h[b.prov], data);
    MC_CHECK(r == UMF_RESULT_SUCCESS, "os:ipc-put", "put of a handle = %d", r);
}
static void do_close(size_t i) {
    World &w = *W;
    auto o = w.open[i];
    w.open.erase(w.open.begin() + (long)i);
    umf_result_t r = umfMemoryProviderCloseIPCHandle(w.h[o.prov], (void *)o.p, o.size);
    mc_op("close = %ld", r);
    MC_CHECK(r == UMF_RESULT_SUCCESS, "os:ipc-close", "close of an opened handle = %d", r);
}
static umf_memory_provider_handle_t make(int mode, int prot_flags, const char *name, umf_result_t *res = nullptr) {
    umf_os_memory_provider_params_handle_t pr = nullptr;
    umf_result_t r = umfOsMemoryProviderParamsCreate(&pr);
    if (r == UMF_RESULT_SUCCESS)
        r = umfOsMemoryProviderParamsSetProtection(pr, (unsigned)prot_flags);
    if (r == UMF_RESULT_SUCCESS)
        r = umfOsMemoryProviderParamsSetVisibility(pr, mode == PRIV ? UMF_MEM_MAP_PRIVATE : UMF_MEM_MAP_SHARED);
    if (r == UMF_RESULT_SUCCESS && mode == NAMED)
        r = umfOsMemoryProviderParamsSetShmName(pr, name);
    umf_memory_provider_handle_t h = nullptr;
    if (r == UMF_RESULT_SUCCESS)
        r = umfMemoryProviderCreate(umfOsMemoryProviderOps(), pr, &h);
    umfOsMemoryProviderParamsDestroy(pr);
    if (res)
        *res = r;
    return r == UMF_RESULT_SUCCESS ? h : nullptr;
}
static const size_t SIZES[] = {1, OS_PG - 1, OS_PG, OS_PG + 1, 2 * OS_PG, 3 * OS_PG + 5, (size_t)1 << 40, (size_t)1 << 62, SIZE_MAX, SIZE_MAX - OS_PG + 2, SIZE_MAX - 4 * OS_PG, 0};
static const size_t ALIGNS[] = {0, 8, OS_PG, 2 * OS_PG, 4 * OS_PG, 3 * OS_PG, 24, OS_PG + 8, (size_t)1 << 63};
struct Req { size_t size, align; };
static std::vector<Req> reqs(int alpha) {
    std::vector<Req> v;
    if (alpha == 0) {
        for (auto s : SIZES)
            for (auto a : ALIGNS)
                v.push_back({s, a});
    } else {
        v = {{OS_PG, 0}, {100, 0}, {2 * OS_PG, 4 * OS_PG}, {3 * OS_PG + 5, 2 * OS_PG}, {SIZE_MAX - OS_PG + 2, 0}, {(size_t)1 << 62, 0}};
        if (alpha >= 2)
            v = {{2 * OS_PG, 0}, {3 * OS_PG, 2 * OS_PG}, {(size_t)1 << 62, 0}};
    }
    return v;
}
static void body_hist() {
    XLib lib;
    os_begin(), hw_begin();
    World w;
    W = &w;
    int alpha = (int)mc_param("alpha", 1), depth = (int)mc_param("depth", 3);
    w.mode = (int)mc_param("mode", -1);
    if (w.mode < 0)
        w.mode = mc_choose(3);
    mc_op("provider mode %ld", w.mode);
    int np = w.mode == PRIV ? 1 : 2;
    for (int i = 0; i < np; i++) {
        size_t f0 = OS.files.size();
        w.h[i] = make(w.mode, UMF_PROTECTION_READ | UMF_PROTECTION_WRITE, i ? "b" : "a");
        MC_CHECK(w.h[i], "setup:provider", "provider creation failed");
        if (OS.files.size() > f0)
            w.fd_ino[i] = OS.last_ino;
    }
    int oflt = (int)mc_param("oflt", 0);
    OS.faults = oflt & ~OSF_MUNMAP;
    OS.phases = (int)mc_param("phases", 2);
    OS.phase_mod = 4;
    mc_ba_faults((int)mc_param("mflt", 0));
    auto R = reqs(alpha);
    for (int d = 0; d < depth; d++) {
        int nb = (int)w.blk.size(), no = (int)w.open.size(), nr = (int)R.size();
        std::vector<std::pair<int, int>> acts;
        for (int i = 0; i < nr; i++)
            acts.push_back({0, i});
        for (int i = 0; i < nb; i++) {
            acts.push_back({1, i});
            if (w.blk[(size_t)i].size > OS_PG) {
                acts.push_back({2, i});
                if (alpha < 2)
                    acts.push_back({3, i});
                if (w.blk[(size_t)i].size > 2 * OS_PG)
                    acts.push_back({9, i});
            }
            if (i + 1 < nb && w.blk[(size_t)i].p + w.blk[(size_t)i].size == w.blk[(size_t)i + 1].p)
                acts.push_back({4, i});
            if (alpha < 2)
                acts.push_back({5, i}), acts.push_back({6, i});
            acts.push_back({7, i});
        }
        for (int i = 0; i < no; i++)
            acts.push_back({8, i});
        if (w.peak[0] > w.sum[0])
            acts.push_back({10, 0});
        auto [a, i] = acts[(size_t)mc_choose((int)acts.size())];
        switch (a) {
        case 0: do_alloc(0, R[(size_t)i].size, R[(size_t)i].align); break;
        case 1: do_free((size_t)i); break;
        case 2: do_split((size_t)i, OS_PG); break;
        case 3: do_split((size_t)i, 100); break;
        case 4: do_merge((size_t)i); break;
        case 5: do_purge((size_t)i, true); break;
        case 6: do_purge((size_t)i, false); break;
        case 7: do_ipc((size_t)i, np - 1); break;
        case 8: do_close((size_t)i); break;
        case 9: do_split((size_t)i, 2 * OS_PG); break;
        case 10:
            mc_ba_faults(0);
            MC_CHECK(umfCtlExec("umf.provider.by_handle.stats.reset", w.h[0], &i) == UMF_RESULT_SUCCESS, "os:stats", "reset of the peak failed");
            mc_ba_faults((int)mc_param("mflt", 0));
            w.peak[0] = w.sum[0];
            break;
        }
        w.check();
        mc_state(w.shape());
    }
    mc_outcome(w.shape());
    // recovery: everything that is left still works
    w.mflt = 0;
    OS.faults = 0;
    OS.phases = 0;
    mc_fault_budget(0);
    do_alloc(0, OS_PG + 1, 2 * OS_PG);
    w.check();
    for (size_t i = 0; i < w.blk.size(); i++)
        if (w.mode == ANON)
            do_ipc(i, 1);
    w.check();
    while (!w.open.empty())
        do_close(0);
    while (!w.blk.empty())
        do_free(0, false);
    w.check();
    mc_ba_faults(0);
    for (int i = 0; i < np; i++)
        umfMemoryProviderDestroy(w.h[i]), w.h[i] = nullptr;
    os_end();
    hw_end();
    lib.done();
}
// creation with every kind of parameter, and with refused system calls
static void body_create() {
    XLib lib;
    os_begin(), hw_begin();
    World w;
    W = &w;
    static const unsigned PROTS[] = {UMF_PROTECTION_READ | UMF_PROTECTION_WRITE, UMF_PROTECTION_READ, UMF_PROTECTION_NONE, UMF_PROTECTION_WRITE, 0, 64, UMF_PROTECTION_READ | 1u << 31};
    static const int PEXP[] = {PROT_READ | PROT_WRITE, PROT_READ, PROT_NONE, PROT_WRITE, PROT_NONE, -1, -1};
    static std::string NAMES[] = {"x", std::string(200, 'n'), std::string(253, 'm'), std::string(254, 'o'), std::string(300, 'p'), "a/b", "/", ""};
    static const bool NOK[] = {true, true, true, false, false, false, false, false};
    int pi = mc_choose(7), ni = 0;
    w.mode = mc_choose(3);
    if (w.mode == NAMED)
        ni = mc_choose(8);
    bool bad_vis = mc_choose(2), nostdin = false;
    if (pi && bad_vis)
        mc_prune();
    mc_op("create: mode %ld, protection %ld, name %ld, bad visibility %ld", w.mode, pi, ni, bad_vis);
    OS.faults = (int)mc_param("oflt", 0) & ~OSF_MUNMAP;
    mc_ba_faults((int)mc_param("mflt", 0));
    mc_mutex_faults((int)mc_param("mflt", 0));
    (void)nostdin;
    int r0 = mc_faults_used();
    umf_os_memory_provider_params_handle_t pr = nullptr;
    umf_result_t r = umfOsMemoryProviderParamsCreate(&pr);
    if (r != UMF_RESULT_SUCCESS) {
        MC_CHECK(mc_faults_used() > r0 && !pr, "os:params", "params creation = %d", r);
    } else {
        umfOsMemoryProviderParamsSetProtection(pr, PROTS[pi]);
        umfOsMemoryProviderParamsSetVisibility(pr, bad_vis ? (umf_memory_visibility_t)77 : w.mode == PRIV ? UMF_MEM_MAP_PRIVATE : UMF_MEM_MAP_SHARED);
        umf_result_t rn = UMF_RESULT_SUCCESS;
        if (w.mode == NAMED) {
            if (mc_choose(2)) { // set twice: the first name is replaced
                rn = umfOsMemoryProviderParamsSetShmName(pr, "first");
                MC_CHECK(rn == UMF_RESULT_SUCCESS || mc_faults_used() > r0, "os:params", "SetShmName = %d", rn);
            }
            rn = umfOsMemoryProviderParamsSetShmName(pr, NAMES[ni].c_str());
            MC_CHECK(rn == UMF_RESULT_SUCCESS || mc_faults_used() > r0, "os:params", "SetShmName = %d", rn);
        }
        if (rn == UMF_RESULT_SUCCESS) {
            bool valid = PEXP[pi] >= 0 && !bad_vis && (w.mode != NAMED || NOK[ni]);
            umf_memory_provider_handle_t h = nullptr;
            int r1 = mc_faults_used();
            r = umfMemoryProviderCreate(umfOsMemoryProviderOps(), pr, &h);
            bool f = mc_faults_used() > r1;
            mc_op("create = %ld", r);
            MC_CHECK(r == UMF_RESULT_SUCCESS || (r > 0 && r <= UMF_RESULT_ERROR_OUT_OF_RESOURCES) || r == UMF_RESULT_ERROR_UNKNOWN, "os:code", "creation returned %d, which is no result code", r);
            if (r == UMF_RESULT_SUCCESS) {
                MC_CHECK(valid, "os:accepted", "provider created from invalid parameters");
                MC_CHECK(h, "os:create", "success without a provider");
                int expected = w.mode == PRIV ? 0 : 1;
                MC_CHECK((int)OS.fds.size() == expected, "os:fds", "%zu descriptors open", OS.fds.size());
                w.h[0] = h;
                w.fd_ino[0] = OS.last_ino;
                w.prot = PEXP[pi];
                int f0 = mc_faults_used();
                size_t nb = w.blk.size();
                OS.phases = 2, OS.phase_mod = 4;
                do_alloc(0, 2 * OS_PG, 4 * OS_PG);
                if (w.blk.size() == nb)
                    MC_CHECK(mc_faults_used() > f0, "os:refused", "alloc failed on a fresh provider");
                OS.faults = 0;
                mc_fault_budget(0);
                do_alloc(0, OS_PG, 0);
                w.check();
                while (!w.blk.empty())
                    do_free(0, false);
                umfMemoryProviderDestroy(h);
            } else
                MC_CHECK(!valid || f, "os:create", "creation = %d although nothing failed", r);
        }
        umfOsMemoryProviderParamsDestroy(pr);
    }
    mc_ba_faults(0);
    mc_mutex_faults(0);
    OS.faults = 0;
    mc_state((uint64_t)(pi * 100 + w.mode * 10 + ni) * 7 + (uint64_t)r);
    mc_outcome((uint64_t)r);
    os_end();
    hw_end();
    // no message before any failure must not be a crash (fresh thread: nothing failed in it)
    lib.done();
}
static void body_native() {
    XLib lib;
    os_begin(), hw_begin();
    umf_memory_provider_handle_t h = make(PRIV, 3, "");
    int kind = mc_choose(3);
    std::thread([&] {
        const char *m = nullptr;
        int32_t e = -5;
        if (kind == 1) {
            void *p;
            umf_result_t r = umfMemoryProviderAlloc(h, OS_PG, 24, &p);
            MC_CHECK(r != UMF_RESULT_SUCCESS, "os:align", "alignment 24 accepted");
        } else if (kind == 2) {
            void *p;
            umf_result_t r = umfMemoryProviderAlloc(h, (size_t)1 << 45, 0, &p);
            MC_CHECK(r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC, "os:huge", "alloc of 2^45 bytes = %d", r);
        }
        umfMemoryProviderGetLastNativeError(h, &m, &e);
        MC_CHECK(m && strlen(m) < 4096, "os:message", "no message");
        if (kind == 2)
            MC_CHECK(e == UMF_OS_RESULT_ERROR_ALLOC_FAILED, "os:native", "native error %d", e);
    }).join();
    mc_state((uint64_t)kind), mc_outcome((uint64_t)kind);
    umfMemoryProviderDestroy(h);
    os_end(), hw_end();
    lib.done();
}
// threads on one shared provider
static void body_mt() {
    XLib lib;
    os_begin(), hw_begin();
    World w;
    W = &w;
    w.mode = 1 + mc_choose(2);
    w.h[0] = make(w.mode, UMF_PROTECTION_READ | UMF_PROTECTION_WRITE, "a");
    w.fd_ino[0] = OS.last_ino;
    int nt = (int)mc_param("threads", 2), prog[3], lo = 0;
    for (int i = 0; i < nt; i++)
        lo = prog[i] = lo + mc_choose(4 - lo);
    OS.phases = 0;
    w.mflt = 0;
    std::vector<Blk> pre((size_t)nt);
    for (int i = 0; i < nt; i++) {
        do_alloc(0, 2 * OS_PG, 0);
        pre[(size_t)i] = w.blk.back();
    }
    w.blk.clear();
    std::vector<std::vector<Blk>> out((size_t)nt);
    std::vector<std::function<void()>> th;
    size_t peak_lo = w.sum[0];
    for (int t = 0; t < nt; t++)
        th.push_back([&, t] {
            auto alloc = [&](size_t n, size_t al) {
                void *v = nullptr;
                mt_mark();
                umf_result_t r = umfMemoryProviderAlloc(w.h[0], n, al, &v);
                MC_CHECK(r == UMF_RESULT_SUCCESS, "os:refused", "alloc = %d", r);
                out[(size_t)t].push_back({(uintptr_t)v, n, (unsigned char)(t * 50 + 10 + (int)out[(size_t)t].size()), 0});
            };
            auto fre = [&](Blk b) {
                mt_mark();
                umf_result_t r = umfMemoryProviderFree(w.h[0], (void *)b.p, b.size);
                MC_CHECK(r == UMF_RESULT_SUCCESS, "os:free", "free = %d", r);
            };
            switch (prog[t]) {
            case 0: alloc(OS_PG, 0); out[(size_t)t].push_back(pre[(size_t)t]); break;
            case 1: alloc(2 * OS_PG, 2 * OS_PG); fre(pre[(size_t)t]); break;
            case 2: fre(pre[(size_t)t]); alloc(100, 0); break;
            default: {
                mt_mark();
                Blk b = pre[(size_t)t];
                umf_result_t r = umfMemoryProviderAllocationSplit(w.h[0], (void *)b.p, b.size, OS_PG);
                MC_CHECK(r == UMF_RESULT_SUCCESS, "os:split", "split = %d", r);
                b.size = OS_PG;
                fre(b);
                b.p += OS_PG;
                out[(size_t)t].push_back(b);
                alloc(OS_PG, 0);
            }
            }
        });
    mt_run(th, (int)mc_param("pb", 2));
    w.sum[0] = 0;
    for (auto &o : out)
        for (auto &b : o)
            w.blk.push_back(b), w.sum[0] += b.size, w.fill(b);
    size_t pk = 0;
    umfCtlGet("umf.provider.by_handle.stats.peak_memory", w.h[0], &pk);
    MC_CHECK(pk >= w.sum[0] && pk >= peak_lo, "os:stats", "peak_memory %zu is below the %zu bytes allocated", pk, w.sum[0]);
    w.peak[0] = pk;
    // a second provider to open through
    w.h[1] = make(ANON, 3, "");
    w.check();
    mc_state(w.shape()), mc_outcome(w.shape());
    for (size_t i = 0; i < w.blk.size(); i++)
        if (w.mode == ANON || i == 0)
            do_ipc(i, 1);
    while (!w.open.empty())
        do_close(0);
    while (!w.blk.empty())
        do_free(0, false);
    w.check();
    umfMemoryProviderDestroy(w.h[0]);
    umfMemoryProviderDestroy(w.h[1]);
    os_end(), hw_end();
    lib.done();
}
static void setup() {
    x_down();
    os_setup();
    hw_setup("numa:4 core:1 pu:1");
}
int main(int argc, char **argv) {
    return mc_main(argc, argv, {{"hist", body_hist, false, setup}, {"create", body_create, false, setup}, {"native", body_native, false, setup}, {"mt", body_mt, false, setup}});
}
