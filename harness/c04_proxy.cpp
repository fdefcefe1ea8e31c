// C04: proxy pool histories: every block is its own provider allocation.
#include "umfx.hpp"
#include <umf/pools/pool_proxy.h>
struct Blk {
    uintptr_t p;
    size_t n, al;
};
static void body() {
    XLib lib;
    XProv x;
    x.page = mc_choose(2) ? 4096 : 64;
    x.faults = FA_ALLOC | FA_FREE;
    x.code = mc_choose(2) ? UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY : UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;
    umf_memory_provider_handle_t prov = x_provider(&x);
    umf_memory_pool_handle_t h = nullptr;
    MC_CHECK(umfPoolCreate(umfProxyPoolOps(), prov, nullptr, 0, &h) == UMF_RESULT_SUCCESS, "proxy:create", "umfPoolCreate failed");
    std::vector<Blk> live;
    static const Blk R[] = {{0, 1, 0}, {0, 100, 256}, {0, 4096, 0}, {0, 5000, 8192}, {0, 3, 1}, {0, 0, 0}, {0, (size_t)-1, 0}};
    int depth = (int)mc_param("depth", 5);
    auto verify = [&] {
        MC_CHECK(x.live.size() == live.size(), "proxy:balance", "%zu provider allocations for %zu live blocks", x.live.size(), live.size());
        for (auto &b : live) {
            MC_CHECK(x.live.count(b.p) && x.live[b.p].size == b.n, "proxy:block", "block %lx size %zu is not one provider allocation", b.p, b.n);
            MC_CHECK(umfPoolByPtr((void *)(b.p + b.n - 1)) == h, "proxy:byptr", "live block not attributed to its pool");
            MC_CHECK(*(unsigned char *)b.p == (unsigned char)(b.n * 3 + 1), "proxy:contents", "contents of a live block changed");
        }
    };
    for (int i = 0; i < depth; i++) {
        int k = mc_choose(7 + 3 + 2 * (int)live.size());
        int f0 = mc_faults_used();
        if (k < 7) {
            Blk b = R[k];
            long a0 = x.n_alloc;
            mc_op("malloc size %ld alignment %ld", (long)b.n, (long)b.al);
            umfPoolCalloc(h, 1, 1);
            b.p = (uintptr_t)(b.al ? umfPoolAlignedMalloc(h, b.n, b.al) : umfPoolMalloc(h, b.n));
            umf_result_t e = umfPoolGetLastAllocationError(h);
            bool faulted = mc_faults_used() > f0;
            if (b.p) {
                MC_CHECK(!faulted && x.n_alloc == a0 + 1 && x.last_size == b.n && x.last_align == b.al, "proxy:forward", "request (%zu, %zu) reached the provider as (%zu, %zu), %ld times", b.n, b.al, x.last_size, x.last_align, x.n_alloc - a0);
                MC_CHECK(b.n && b.n != (size_t)-1, "proxy:impossible", "impossible request succeeded");
                MC_CHECK(!b.al || b.p % b.al == 0, "proxy:align", "misaligned");
                MC_CHECK(e == UMF_RESULT_SUCCESS, "proxy:last-error", "successful request left last error %d", e);
                *(unsigned char *)b.p = (unsigned char)(b.n * 3 + 1);
                live.push_back(b);
            } else {
                MC_CHECK(faulted || !b.n || b.n == (size_t)-1, "proxy:refused", "request refused although the provider has memory");
                MC_CHECK(e == (faulted ? x.code : e) && e != UMF_RESULT_SUCCESS && e != UMF_RESULT_ERROR_NOT_SUPPORTED, "proxy:last-error", "failed request left last error %d", e);
            }
        } else if (k < 10) {
            uintptr_t p = live.empty() ? 0 : live[0].p;
            mc_op("unsupported operation %ld", k);
            size_t r = k == 7 ? (size_t)umfPoolCalloc(h, 3, 5) : k == 8 ? (size_t)umfPoolRealloc(h, (void *)p, 100) : umfPoolMallocUsableSize(h, (void *)p);
            MC_CHECK(!r && umfPoolGetLastAllocationError(h) == UMF_RESULT_ERROR_NOT_SUPPORTED, "proxy:unsupported", "unsupported operation %d: result %zx last error %d", k, r, umfPoolGetLastAllocationError(h));
        } else {
            k -= 10;
            Blk b = live[(size_t)k / 2];
            mc_op(k % 2 ? "umfFree of %ld bytes" : "umfPoolFree of %ld bytes", (long)b.n);
            umf_result_t r = k % 2 ? umfFree((void *)b.p) : umfPoolFree(h, (void *)b.p);
            bool faulted = mc_faults_used() > f0;
            MC_CHECK(r == (faulted ? x.code : UMF_RESULT_SUCCESS), "proxy:free", "free = %d, provider said %d", r, faulted ? x.code : 0);
            if (!faulted)
                live.erase(live.begin() + k / 2);
        }
        verify();
        uint64_t hs = (uint64_t)x.n_fail;
        for (auto &b : x.live)
            hs = mc_mix(mc_mix(hs, b.first), b.second.size);
        mc_state(hs);
    }
    x.faults = 0;
    while (!live.empty()) {
        MC_CHECK(umfPoolFree(h, (void *)live.back().p) == UMF_RESULT_SUCCESS, "proxy:free", "free failed");
        live.pop_back();
        verify();
    }
    mc_outcome(x.n_alloc * 100 + x.n_fail);
    umfPoolDestroy(h);
    MC_CHECK(x.live.empty(), "proxy:leak", "provider allocations outstanding");
    umfMemoryProviderDestroy(prov);
    lib.done();
}
static void setup() {
    x_down();
    x_arena(1);
}
int main(int argc, char **argv) { return mc_main(argc, argv, {{"proxy", body, false, setup, 2}}); }
