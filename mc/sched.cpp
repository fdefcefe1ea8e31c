#include "sched.hpp"
#include "mc.hpp"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>

namespace {
constexpr int MT = 5; // threads incl. none for main
struct Th {
    std::function<void()> fn;
    std::atomic<int> turn{0};
    bool done = false;
    void *block = nullptr; // lock blocked on
    int block_kind = 0;    // 1 mutex 2 rdlock 3 wrlock 4 once 5 predicate
    const std::function<bool()> *pred = nullptr;
    pthread_t pt;
    uint64_t steps = 0;
    char *stk_lo = nullptr, *stk_hi = nullptr;
};
struct VC {
    uint32_t c[MT] = {0};
    void join(const VC &o) {
        for (int i = 0; i < MT; i++)
            if (o.c[i] > c[i])
                c[i] = o.c[i];
    }
};
struct RW {
    int writer = -1;
    int readers = 0;
};
Th g_th[MT] __attribute__((init_priority(200)));
int g_n = 0;
int g_cur = -1;
bool g_active = false;
int g_budget = 0;
uint64_t g_clock = 0;
uint64_t g_steps = 0;
int g_run = 0; // consecutive steps by the same thread
uint64_t g_shash = 0;
std::unordered_map<void *, int> g_own __attribute__((init_priority(200)));      // mutex -> owner+1 (main = 100)
std::unordered_map<void *, RW> g_rw __attribute__((init_priority(200)));
std::unordered_map<void *, int> g_once __attribute__((init_priority(200)));     // 1 running 2 done
VC g_vc[MT];
std::unordered_map<uintptr_t, VC> g_sync __attribute__((init_priority(200)));
struct Shadow {
    uint8_t wt = 0xff;
    uint32_t wc = 0;
    uintptr_t wpc = 0;
    uint32_t ac[MT] = {0}; // atomic accesses per thread
    uint32_t rc[MT] = {0};
    uintptr_t rpc[MT] = {0};
};
std::unordered_map<uintptr_t, Shadow> g_shadow __attribute__((init_priority(200)));
thread_local int t_self = -1;
thread_local int t_quiet = 0; // the scheduler itself uses the C library

constexpr int SPIN = 4000;
constexpr uint64_t HORIZON = 400000;

void fwait(std::atomic<int> *a) {
    while (a->load() == 0)
        syscall(SYS_futex, (int *)a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    a->store(0);
}
void fwake(std::atomic<int> *a) {
    a->store(1);
    syscall(SYS_futex, (int *)a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
bool enabled(int t) {
    Th &h = g_th[t];
    if (h.done)
        return false;
    switch (h.block_kind) {
    case 0:
        return true;
    case 1: {
        auto it = g_own.find(h.block);
        return it == g_own.end() || it->second == 0;
    }
    case 2: {
        RW &r = g_rw[h.block];
        return r.writer < 0;
    }
    case 3: {
        RW &r = g_rw[h.block];
        return r.writer < 0 && r.readers == 0;
    }
    case 4:
        return g_once[h.block] != 1;
    case 5:
        return (*h.pred)();
    }
    return true;
}
std::atomic<int> g_mainturn{0};
void switch_to(int t) {
    int me = t_self;
    g_cur = t;
    g_run = 0;
    if (t == me)
        return;
    fwake(&g_th[t].turn);
    fwait(&g_th[me].turn);
}
void step_account() {
    g_steps++;
    g_clock++;
    g_th[t_self].steps++;
    g_run++;
    mc_count_step();
    if (g_steps > HORIZON)
        mc_fail("livelock", "no completion after %lu scheduling steps",
                (unsigned long)g_steps);
    uint64_t h = g_shash;
    for (int i = 0; i < g_n; i++)
        h = mc_mix(h, g_th[i].steps);
    mc_state(h);
}
// scheduling point while the current thread could continue
void point() {
    if (!g_active || t_self < 0)
        return;
    step_account();
    int en[MT], n = 0;
    en[n++] = t_self;
    for (int i = 0; i < g_n; i++)
        if (i != t_self && enabled(i))
            en[n++] = i;
    if (n == 1)
        return;
    if (g_run > SPIN) { // fairness: a spinner must let others run
        switch_to(en[1 + (g_steps % (n - 1))]);
        return;
    }
    if (g_budget <= 0)
        return;
    int c = mc_choose(n);
    if (c == 0)
        return;
    g_budget--;
    g_shash = mc_mix(g_shash, g_steps * 8 + en[c]);
    t_quiet = 1;
    mc_note("   [t%d preempted at step %lu, t%d runs]", t_self,
            (unsigned long)g_steps, en[c]);
    t_quiet = 0;
    switch_to(en[c]);
}
// the current thread cannot continue (blocked or done)
void must_switch(bool finishing) {
    int en[MT], n = 0;
    for (int i = 0; i < g_n; i++)
        if (i != t_self && enabled(i))
            en[n++] = i;
    if (!finishing && enabled(t_self))
        return;
    if (n == 0) {
        bool all = true;
        for (int i = 0; i < g_n; i++)
            if (!g_th[i].done)
                all = false;
        if (finishing && all) {
            fwake(&g_mainturn);
            return;
        }
        t_quiet = 1;
        mc_fail("deadlock", "no thread can run: t%d waits (kind %d)", t_self,
                g_th[t_self].block_kind);
    }
    int c = mc_choose(n);
    g_shash = mc_mix(g_shash, g_steps * 8 + en[c] + 0x1000);
    t_quiet = 1;
    mc_note("   [t%d %s, t%d runs]", t_self, finishing ? "finished" : "blocked",
            en[c]);
    t_quiet = 0;
    int t = en[c];
    if (finishing) {
        g_cur = t;
        g_run = 0;
        fwake(&g_th[t].turn);
    } else
        switch_to(t);
}
void block(int kind, void *obj) {
    Th &h = g_th[t_self];
    h.block_kind = kind;
    h.block = obj;
    while (!enabled(t_self))
        must_switch(false);
    h.block_kind = 0;
    h.block = nullptr;
}
void acq(void *o) {
    if (g_active && t_self >= 0)
        g_vc[t_self].join(g_sync[(uintptr_t)o]);
}
void rel(void *o) {
    if (g_active && t_self >= 0) {
        g_sync[(uintptr_t)o].join(g_vc[t_self]);
        g_vc[t_self].c[t_self]++;
    }
}
int me_owner() { return (g_active && t_self >= 0) ? t_self + 1 : 100; }

void *thmain(void *a) {
    int i = (int)(intptr_t)a;
    t_self = i;
    pthread_attr_t at;
    pthread_getattr_np(pthread_self(), &at);
    void *lo;
    size_t sz;
    pthread_attr_getstack(&at, &lo, &sz);
    pthread_attr_destroy(&at);
    g_th[i].stk_lo = (char *)lo;
    g_th[i].stk_hi = (char *)lo + sz;
    for (;;) {
        fwait(&g_th[i].turn);
        point();
        g_th[i].fn();
        g_th[i].done = true;
        must_switch(true);
    }
    return nullptr;
}
int g_made = 0;
pid_t g_madepid = 0;
} // namespace

extern "C" int mc_addr_state(const void *p, size_t n); // arena: 1 freed
extern "C" __attribute__((weak)) int mc_addr_state(const void *, size_t) {
    return 0;
}

static void access(const void *p, size_t n, bool wr, uintptr_t pc) {
    if (mc_addr_state(p, n) == 1)
        mc_fail(wr ? "uaf:write" : "uaf:read",
                "%s of %zu bytes at released memory %p (pc %lx)",
                wr ? "write" : "read", n, p, pc);
    if (!g_active || t_self < 0)
        return;
    Th &me = g_th[t_self];
    if ((char *)p >= me.stk_lo && (char *)p < me.stk_hi)
        return;
    if (mc_pc_is_point(pc))
        point();
    VC &v = g_vc[t_self];
    uintptr_t a = (uintptr_t)p >> 2, e = ((uintptr_t)p + n - 1) >> 2;
    for (; a <= e; a++) {
        Shadow &s = g_shadow[a];
        bool race = false;
        if (s.wt != 0xff && s.wt != t_self && s.wc > v.c[s.wt]) {
            race = true;
            mc_pc_learn(s.wpc);
        }
        if (wr) {
            for (int i = 0; i < g_n; i++)
                if (i != t_self && s.rc[i] && s.rc[i] > v.c[i]) {
                    race = true;
                    mc_pc_learn(s.rpc[i]);
                }
            s.wt = (uint8_t)t_self;
            s.wc = v.c[t_self];
            s.wpc = pc;
        } else {
            s.rc[t_self] = v.c[t_self];
            s.rpc[t_self] = pc;
        }
        for (int i = 0; i < g_n; i++)
            if (i != t_self && s.ac[i] && s.ac[i] > v.c[i])
                race = true;
        if (race)
            mc_pc_learn(pc);
    }
}

void mt_mark() { point(); }
int mt_self() { return g_active && !t_quiet ? t_self : -1; }
bool mt_active() { return g_active; }
uint64_t mt_clock() { return ++g_clock; }
void mt_wait(const std::function<bool()> &pred) {
    if (!g_active || t_self < 0)
        return;
    point();
    g_th[t_self].pred = &pred;
    block(5, nullptr);
}

void mt_run(const std::vector<std::function<void()>> &bodies, int preemptions) {
    g_n = (int)bodies.size();
    if (g_n > MT)
        abort();
    g_budget = preemptions;
    g_steps = 0;
    g_shash = 0;
    g_shadow.clear();
    g_sync.clear();
    for (int i = 0; i < g_n; i++) {
        g_th[i].fn = bodies[i];
        g_th[i].done = false;
        g_th[i].steps = 0;
        g_th[i].block_kind = 0;
        g_th[i].turn = 0;
        g_vc[i] = VC();
        g_vc[i].c[i] = 1;
    }
    g_mainturn = 0;
    g_active = true;
    if (g_madepid != getpid()) {
        g_madepid = getpid();
        g_made = 0;
    }
    for (; g_made < g_n; g_made++) {
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 256 * 1024);
        g_th[g_made].turn = 0;
        if (pthread_create(&g_th[g_made].pt, &at, thmain, (void *)(intptr_t)g_made))
            _exit(43);
        pthread_attr_destroy(&at);
    }
    int c = g_n > 1 ? mc_choose(g_n) : 0; // who starts is a free choice
    g_cur = c;
    fwake(&g_th[c].turn);
    fwait(&g_mainturn);
    g_active = false;
}

extern "C" __attribute__((weak)) int mc_fault_mutex_init() { return 0; }
// ---- wrapped pthread primitives -------------------------------------------
extern "C" {
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const void *) {
    if (mc_is_worker() && mc_fault_mutex_init())
        return ENOMEM;
    g_own[m] = 0;
    return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) {
    auto it = g_own.find(m);
    if (it != g_own.end()) {
        if (it->second)
            mc_fail("mutex:destroy-locked", "destroying a locked mutex");
        g_own.erase(it);
    }
    return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (mc_addr_state(m, 8) == 1)
        mc_fail("uaf:lock", "locking a mutex in released memory");
    if (!g_active || t_self < 0) {
        int &o = g_own[m];
        if (o)
            mc_fail("deadlock", "locking a held mutex, single thread");
        o = 100;
        return 0;
    }
    point();
    if (g_own[m] == me_owner())
        mc_fail("deadlock", "t%d relocks a mutex it holds", t_self);
    if (g_own[m])
        block(1, m);
    if (mc_addr_state(m, 8) == 1)
        mc_fail("uaf:lock", "locking a mutex in released memory");
    g_own[m] = me_owner();
    acq(m);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    point();
    if (g_own[m])
        return EBUSY;
    g_own[m] = me_owner();
    acq(m);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (mc_addr_state(m, 8) == 1)
        mc_fail("uaf:lock", "unlocking a mutex in released memory");
    int &o = g_own[m];
    if (o != me_owner())
        mc_fail("mutex:bad-unlock", "unlocking a mutex not held (owner %d)", o);
    rel(m);
    o = 0;
    return 0;
}
int __wrap_pthread_rwlock_init(pthread_rwlock_t *m, const void *) {
    g_rw[m] = RW();
    return 0;
}
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *m) {
    g_rw.erase(m);
    return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) {
    point();
    if (g_active && t_self >= 0) {
        if (g_rw[m].writer >= 0)
            block(2, m);
        acq(m);
    } else if (g_rw[m].writer >= 0)
        mc_fail("deadlock", "read-locking a held rwlock, single thread");
    g_rw[m].readers++;
    return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) {
    point();
    if (g_active && t_self >= 0) {
        if (g_rw[m].writer >= 0 || g_rw[m].readers)
            block(3, m);
        acq(m);
    } else if (g_rw[m].writer >= 0 || g_rw[m].readers)
        mc_fail("deadlock", "write-locking a held rwlock, single thread");
    g_rw[m].writer = me_owner();
    return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) {
    RW &r = g_rw[m];
    rel(m);
    if (r.writer == me_owner())
        r.writer = -1;
    else if (r.readers > 0)
        r.readers--;
    else
        mc_fail("rwlock:bad-unlock", "unlocking an rwlock not held");
    return 0;
}
int __wrap_pthread_once(pthread_once_t *o, void (*fn)(void)) {
    point();
    int &s = g_once[o];
    if (s == 1)
        block(4, o);
    if (*o != PTHREAD_ONCE_INIT) { // the flag itself is the truth: code may reset it
        acq(o);
        return 0;
    }
    g_once[o] = 1;
    fn();
    g_once[o] = 0;
    memset((void *)o, 0, sizeof *o);
    *(int *)o = 2;
    rel(o);
    return 0;
}

// ---- __tsan_* run time ------------------------------------------------------
#define PC ((uintptr_t)__builtin_return_address(0))
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define RD(n) \
    void __tsan_read##n(void *p) { access(p, n, false, PC); } \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); } \
    void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); } \
    void __tsan_write##n(void *p) { access(p, n, true, PC); } \
    void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); } \
    void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); } \
    void __tsan_read_write##n(void *p) { access(p, n, true, PC); }
RD(1) RD(2) RD(4) RD(8) RD(16)
void __tsan_read_range(void *p, size_t n) { if (n) access(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { if (n) access(p, n, true, PC); }
void __tsan_acquire(void *p) { acq(p); }
void __tsan_release(void *p) { rel(p); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}

static inline bool acqmo(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE; }
static inline bool relmo(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline void apre(const volatile void *p, size_t n) {
    if (mc_addr_state((const void *)p, n) == 1)
        mc_fail("uaf:atomic", "atomic access to released memory %p", (const void *)p);
    point();
    if (mc_addr_state((const void *)p, n) == 1)
        mc_fail("uaf:atomic", "atomic access to released memory %p", (const void *)p);
}
// Atomics on an object also accessed non-atomically must take part in race
// detection: treat them as accesses by "everyone in order" (acquire+release
// on the object), and check plain accesses against them via the shadow.
static void amark(const volatile void *p, size_t n, bool wr, uintptr_t pc) {
    if (!g_active || t_self < 0)
        return;
    VC &v = g_vc[t_self];
    uintptr_t a = (uintptr_t)p >> 2, e = ((uintptr_t)p + n - 1) >> 2;
    for (; a <= e; a++) {
        Shadow &s = g_shadow[a];
        if (wr)
            s.ac[t_self] = v.c[t_self];
        if (s.wt != 0xff && s.wt != t_self && s.wc > v.c[s.wt])
            mc_pc_learn(s.wpc);
        if (wr)
            for (int i = 0; i < g_n; i++)
                if (i != t_self && s.rc[i] && s.rc[i] > v.c[i])
                    mc_pc_learn(s.rpc[i]);
    }
    (void)pc;
}
#ifdef MC_TSAN
void *mc_memcpy(void *d, const void *s, size_t n) {
    if (n && mc_is_worker()) {
        access(s, n, false, PC);
        access(d, n, true, PC);
    }
    return memcpy(d, s, n);
}
void *mc_memset(void *d, int c, size_t n) {
    if (n && mc_is_worker())
        access(d, n, true, PC);
    return memset(d, c, n);
}
#endif
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *p, int mo) { apre(p, sizeof(T)); T r = __atomic_load_n(p, __ATOMIC_SEQ_CST); amark(p, sizeof(T), false, PC); if (acqmo(mo)) acq((void *)p); return r; } \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { apre(p, sizeof(T)); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); amark(p, sizeof(T), true, PC); if (relmo(mo)) rel((void *)p); } \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { apre(p, sizeof(T)); T r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); amark(p, sizeof(T), true, PC); if (acqmo(mo)) acq((void *)p); if (relmo(mo)) rel((void *)p); return r; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { apre(p, sizeof(T)); T r = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); amark(p, sizeof(T), true, PC); if (acqmo(mo)) acq((void *)p); if (relmo(mo)) rel((void *)p); return r; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { apre(p, sizeof(T)); T r = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); amark(p, sizeof(T), true, PC); if (acqmo(mo)) acq((void *)p); if (relmo(mo)) rel((void *)p); return r; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { apre(p, sizeof(T)); T r = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); amark(p, sizeof(T), true, PC); if (acqmo(mo)) acq((void *)p); if (relmo(mo)) rel((void *)p); return r; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { apre(p, sizeof(T)); T r = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); amark(p, sizeof(T), true, PC); if (acqmo(mo)) acq((void *)p); if (relmo(mo)) rel((void *)p); return r; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { apre(p, sizeof(T)); T r = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); amark(p, sizeof(T), true, PC); if (acqmo(mo)) acq((void *)p); if (relmo(mo)) rel((void *)p); return r; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int mo) { apre(p, sizeof(T)); T r = __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); amark(p, sizeof(T), true, PC); if (acqmo(mo)) acq((void *)p); if (relmo(mo)) rel((void *)p); return r; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) { apre(p, sizeof(T)); bool r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); amark(p, sizeof(T), r, PC); if (r) { if (acqmo(mo)) acq((void *)p); if (relmo(mo)) rel((void *)p); } else if (acqmo(fmo)) acq((void *)p); return r; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { point(); }
void __tsan_atomic_signal_fence(int) {}
}
