// Model of the operating system as the providers see it: address space, file
// descriptors, files, shared memory names and (optionally) hwloc. Every call is
// recorded, checked and can be refused; memory is really mapped, so contents
// and stray accesses are real.
#pragma once
#include "mc.hpp"
#include "sched.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>
#ifndef MAP_SYNC
#define MAP_SYNC 0x80000
#endif
enum {
    OSF_MMAP = 1, OSF_MUNMAP = 2, OSF_TRUNC = 4, OSF_OPEN = 8, OSF_MADVISE = 16, OSF_FALLOC = 32, OSF_STAT = 64, OSF_HWLOC = 128, OSF_BIND = 256, OSF_DUP = 512,
};
static const size_t OS_PG = 4096;
static const uintptr_t OS_ARENA = 0x280000000000ull;
static const size_t OS_ARENA_SIZE = (size_t)1 << 36;
struct OsMap { // one page-aligned range
    size_t len;
    int ino;    // 0: anonymous
    uint64_t off;
    int prot, flags;
};
struct OsFile {
    int fd = -1; // backing memfd
    size_t size = 0;
    int links = 0; // names
    bool dax = false, chr = false;
    std::string path;
};
struct Os {
    bool on = false;
    std::map<uintptr_t, OsMap> maps;
    uintptr_t next = OS_ARENA + 16 * OS_PG;
    std::map<int, int> fds; // open descriptors of the library -> inode
    std::map<int, OsFile> files;
    std::map<std::string, int> names, shm; // path -> inode
    int last_ino = 0;
    int faults = 0;
    int phases = 0;          // placements offered for each anonymous-address mapping
    size_t phase_mod = 0;    // in pages
    bool adjacent = false;   // offer to place a mapping right above or below the latest one
    uintptr_t last_a = 0;
    size_t last_n = 0;
    size_t max_map = (size_t)1 << 32;
    bool map_sync = false;
    int n_refused = 0;
    const char *refused = "";
    long n_mmap = 0, n_munmap = 0;
    std::vector<std::pair<uintptr_t, size_t>> unmapped; // log, cleared by the harness
    bool whole_only = false; // report unmapping parts of a mapping
    bool refuse(int what, const char *name) {
        if (!on || !(faults & what) || !mc_fault())
            return false;
        n_refused++;
        refused = name;
        mc_op("  system call refused");
        return true;
    }
    int ino_of(int fd) {
        auto it = fds.find(fd);
        return it == fds.end() ? 0 : it->second;
    }
    const OsMap *at(uintptr_t a, uintptr_t *start = nullptr) {
        auto it = maps.upper_bound(a);
        if (it == maps.begin())
            return nullptr;
        --it;
        if (a - it->first >= it->second.len)
            return nullptr;
        if (start)
            *start = it->first;
        return &it->second;
    }
    // the page at a: identity of what it shows
    bool page(uintptr_t a, int *ino, uint64_t *off) {
        uintptr_t s;
        const OsMap *m = at(a, &s);
        if (!m)
            return false;
        *ino = m->ino;
        *off = m->off + (a - s);
        return true;
    }
    bool covered(uintptr_t a, size_t n) {
        uintptr_t e = a + n;
        a &= ~(OS_PG - 1);
        while (a < e) {
            uintptr_t s;
            const OsMap *m = at(a, &s);
            if (!m)
                return false;
            a = s + m->len;
        }
        return true;
    }
    void drop(uintptr_t a, size_t n) { // forget [a, a+n)
        auto it = maps.lower_bound(a);
        if (it != maps.begin()) {
            auto p = std::prev(it);
            if (p->first + p->second.len > a) {
                OsMap tail = p->second;
                size_t head = a - p->first;
                tail.len -= head;
                tail.off += tail.ino ? head : 0;
                p->second.len = head;
                it = maps.emplace(a, tail).first;
            }
        }
        while (it != maps.end() && it->first < a + n) {
            if (it->first + it->second.len > a + n) {
                OsMap tail = it->second;
                size_t cut = a + n - it->first;
                tail.len -= cut;
                tail.off += tail.ino ? cut : 0;
                it = maps.erase(it);
                maps.emplace(a + n, tail);
                break;
            }
            it = maps.erase(it);
        }
    }
    size_t mapped() {
        size_t s = 0;
        for (auto &m : maps)
            s += m.second.len;
        return s;
    }
};
static Os OS;
extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
int __real_madvise(void *, size_t, int);
int __real_ftruncate(int, off_t);
int __real_close(int);
long __real_syscall(long, ...);
}
static void os_reserve(uintptr_t a, size_t n) {
    if (__real_mmap((void *)a, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) != (void *)a)
        mc_fail("setup:reserve", "cannot reserve address space");
}
static int os_new_file() {
    int fd = (int)__real_syscall(__NR_memfd_create, "model", 0u);
    if (fd < 0)
        mc_fail("setup:memfd", "memfd_create failed");
    // keep model descriptors away from the ones the library sees
    int hi = fcntl(fd, F_DUPFD, 500);
    __real_close(fd);
    int i = ++OS.last_ino;
    OS.files[i].fd = hi;
    return i;
}
static int os_open_ino(int ino) {
    int fd = dup(OS.files[ino].fd); // lowest free number, as the system does
    OS.fds[fd] = ino;
    return fd;
}
static int os_make_file(const char *path, size_t size, bool dax = false, bool chr = false) {
    int i = os_new_file();
    OsFile &f = OS.files[i];
    f.size = size;
    f.dax = dax;
    f.chr = chr;
    f.links = 1;
    f.path = path;
    __real_ftruncate(f.fd, (off_t)size);
    OS.names[path] = i;
    return i;
}
static void os_begin() {
    for (auto &m : OS.maps)
        os_reserve(m.first, m.second.len);
    for (auto &f : OS.fds)
        __real_close(f.first);
    for (auto &f : OS.files)
        __real_close(f.second.fd);
    OS = Os();
    OS.on = true;
}
static void os_end(const char *what = "destruction") {
    for (auto &m : OS.maps)
        mc_op("still mapped: %lx, %ld bytes, file %ld", (long)m.first, (long)m.second.len, m.second.ino);
    MC_CHECK(OS.maps.empty(), "os:leak-map", "%zu bytes of address space remain mapped after %s", OS.mapped(), what);
    MC_CHECK(OS.fds.empty(), "os:leak-fd", "%zu descriptors remain open after %s", OS.fds.size(), what);
    OS.on = false;
    for (auto &f : OS.files)
        __real_close(f.second.fd);
    OS.files.clear();
}
static void os_setup() {
    if (__real_mmap((void *)OS_ARENA, OS_ARENA_SIZE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)OS_ARENA) {
        perror("os_setup");
        exit(2);
    }
}
extern "C" {
void *__wrap_mmap(void *hint, size_t len, int prot, int flags, int fd, off_t off) {
    if (!OS.on)
        return __real_mmap(hint, len, prot, flags, fd, off);
    mt_mark();
    OS.n_mmap++;
    if (len == 0 || (off & (off_t)(OS_PG - 1)) || len > (size_t)-1 - OS_PG) {
        errno = len && !(off & (off_t)(OS_PG - 1)) ? ENOMEM : EINVAL;
        return MAP_FAILED;
    }
    int ino = 0;
    if (!(flags & MAP_ANONYMOUS)) {
        ino = OS.ino_of(fd);
        MC_CHECK(ino, "os:fd", "mapping of descriptor %d, which is not open", fd);
    }
    if (flags & MAP_SYNC) {
        if (!OS.map_sync && !OS.files[ino].dax) {
            errno = EOPNOTSUPP;
            return MAP_FAILED;
        }
    }
    if (OS.refuse(OSF_MMAP, "mmap")) {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    size_t n = (len + OS_PG - 1) & ~(OS_PG - 1);
    if (len > OS.max_map) {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    if (ino && off < 0) {
        errno = EOVERFLOW;
        return MAP_FAILED;
    }
    uintptr_t a = OS.next;
    bool chr = ino && OS.files[ino].chr;
    if (chr && ((n | (size_t)off) & (((size_t)2 << 20) - 1))) {
        errno = EINVAL;
        return MAP_FAILED;
    }
    if (chr && (size_t)off + n > OS.files[ino].size) {
        errno = ENXIO;
        return MAP_FAILED;
    }
    // as thp_get_unmapped_area() does for files on DAX
    if (chr || (ino && OS.files[ino].dax && ((n | (size_t)off) & (((size_t)2 << 20) - 1)) == 0))
        a = (a + ((uintptr_t)2 << 20) - 1) & ~(((uintptr_t)2 << 20) - 1);
    uintptr_t above = OS.last_a + OS.last_n, below = OS.last_a - n;
    auto empty = [&](uintptr_t x) {
        auto it = OS.maps.lower_bound(x);
        if (it != OS.maps.end() && it->first < x + n)
            return false;
        return it == OS.maps.begin() || std::prev(it)->first + std::prev(it)->second.len <= x;
    };
    uintptr_t cand[2];
    int nc = 0;
    if (OS.adjacent && OS.last_n && !chr) {
        if (empty(above))
            cand[nc++] = above;
        if (below > OS_ARENA && below < OS.last_a && empty(below))
            cand[nc++] = below;
    }
    int np = !chr && OS.phases > 1 ? OS.phases : 1;
    int ph = np + nc > 1 ? mc_choose(np + nc) : 0;
    if (ph >= np)
        a = cand[ph - np];
    else if (np > 1) {
        size_t m = OS.phase_mod * OS_PG;
        a = (a + m - 1) / m * m + (size_t)ph * m / (size_t)OS.phases / OS_PG * OS_PG;
    }
    if (a + n + OS_PG > OS.next)
        OS.next = a + n + OS_PG; // a hole, so that mappings never touch by accident
    OS.last_a = a, OS.last_n = n;
    MC_CHECK(OS.next < OS_ARENA + OS_ARENA_SIZE, "setup:arena", "model address space exhausted");
    int rf = (flags & ~(MAP_SYNC | MAP_SHARED_VALIDATE)) | ((flags & (MAP_SHARED | MAP_SHARED_VALIDATE)) ? MAP_SHARED : 0);
    void *p = __real_mmap((void *)a, n, prot, rf | MAP_FIXED | MAP_NORESERVE, ino ? OS.files[ino].fd : -1, ino ? off : 0);
    if (p == MAP_FAILED) {
        os_reserve(a, n);
        return MAP_FAILED;
    }
    OS.maps[a] = {n, ino, ino ? (uint64_t)off : 0, prot, flags};
    mc_op("  mmap %lx bytes at +%lx file %ld offset %lx", (long)n, (long)(a - OS_ARENA), ino, (long)off);
    return p;
}
int __wrap_munmap(void *p, size_t len) {
    if (!OS.on)
        return __real_munmap(p, len);
    mt_mark();
    uintptr_t a = (uintptr_t)p;
    if (a % OS_PG || !len) {
        errno = EINVAL;
        return -1;
    }
    size_t n = (len + OS_PG - 1) & ~(OS_PG - 1);
    if (a < OS_ARENA || n < len || a + n > OS_ARENA + OS_ARENA_SIZE)
        mc_fail("os:unmap", "unmapping %p size %zu, outside everything the library mapped", p, len);
    // every page must be one the library mapped and did not unmap yet
    if (!OS.covered(a, n))
        mc_fail("os:unmap", "unmapping +%lx size %zx includes pages the library does not have mapped", (long)(a - OS_ARENA), n);
    if (OS.refuse(OSF_MUNMAP, "munmap")) {
        errno = ENOMEM;
        return -1;
    }
    OS.n_munmap++;
    OS.drop(a, n);
    OS.unmapped.push_back({a, n});
    os_reserve(a, n);
    mc_op("  munmap +%lx %lx bytes", (long)(a - OS_ARENA), (long)n);
    return 0;
}
int __wrap_madvise(void *p, size_t len, int adv) {
    if (!OS.on)
        return __real_madvise(p, len, adv);
    if (OS.refuse(OSF_MADVISE, "madvise")) {
        errno = EINVAL;
        return -1;
    }
    if ((uintptr_t)p % OS_PG) {
        errno = EINVAL;
        return -1;
    }
    MC_CHECK(OS.covered((uintptr_t)p, len), "os:madvise", "madvise on memory the library has not mapped");
    OsMap m = *OS.at((uintptr_t)p);
    if (adv == MADV_FREE && m.ino) {
        errno = EINVAL;
        return -1;
    }
    if (adv == MADV_DONTNEED && !m.ino) { // fresh zero pages
        size_t n = (len + OS_PG - 1) & ~(OS_PG - 1);
        __real_mmap(p, n, m.prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    }
    return 0;
}
int __wrap_ftruncate(int fd, off_t n) {
    if (!OS.on)
        return __real_ftruncate(fd, n);
    int ino = OS.ino_of(fd);
    MC_CHECK(ino, "os:fd", "ftruncate of descriptor %d, which is not open", fd);
    if (OS.refuse(OSF_TRUNC, "ftruncate")) {
        errno = EFBIG;
        return -1;
    }
    int r = __real_ftruncate(OS.files[ino].fd, n);
    if (!r)
        OS.files[ino].size = (size_t)n;
    return r;
}
int __wrap_posix_fallocate(int fd, off_t off, off_t len) {
    int ino = OS.ino_of(fd);
    MC_CHECK(ino, "os:fd", "posix_fallocate of descriptor %d, which is not open", fd);
    if (OS.refuse(OSF_FALLOC, "posix_fallocate"))
        return ENOSPC;
    if (off < 0 || len <= 0)
        return EINVAL;
    if ((uint64_t)off + (uint64_t)len > ((uint64_t)1 << 40))
        return EFBIG;
    size_t e = (size_t)off + (size_t)len;
    if (e > OS.files[ino].size) {
        __real_ftruncate(OS.files[ino].fd, (off_t)e);
        OS.files[ino].size = e;
    }
    return 0;
}
int __wrap_close(int fd) {
    if (!OS.on)
        return __real_close(fd);
    auto it = OS.fds.find(fd);
    MC_CHECK(it != OS.fds.end(), "os:close", "closing descriptor %d, which the library has not open", fd);
    OS.fds.erase(it);
    mc_op("  close");
    return __real_close(fd);
}
int __wrap_open(const char *path, int fl, ...) {
    if (OS.refuse(OSF_OPEN, "open")) {
        errno = EACCES;
        return -1;
    }
    auto it = OS.names.find(path);
    if (it == OS.names.end()) {
        if (!(fl & O_CREAT) || strncmp(path, "/model/", 7)) {
            errno = ENOENT;
            return -1;
        }
        os_make_file(path, 0);
        it = OS.names.find(path);
    }
    mc_op("  open");
    return os_open_ino(it->second);
}
int __wrap_stat(const char *path, struct stat *st) {
    if (OS.refuse(OSF_STAT, "stat")) {
        errno = EACCES;
        return -1;
    }
    auto it = OS.names.find(path);
    if (it == OS.names.end()) {
        errno = ENOENT;
        return -1;
    }
    memset(st, 0, sizeof *st);
    st->st_size = (off_t)OS.files[it->second].size;
    st->st_mode = OS.files[it->second].chr ? S_IFCHR | 0600 : S_IFREG | 0600;
    return 0;
}
int __wrap_fstat(int fd, struct stat *st) {
    int ino = OS.ino_of(fd);
    MC_CHECK(ino, "os:fd", "fstat of descriptor %d, which is not open", fd);
    if (OS.refuse(OSF_STAT, "fstat")) {
        errno = EIO;
        return -1;
    }
    memset(st, 0, sizeof *st);
    st->st_size = (off_t)OS.files[ino].size;
    st->st_mode = OS.files[ino].chr ? S_IFCHR | 0600 : S_IFREG | 0600;
    return 0;
}
int __wrap_shm_open(const char *name, int fl, mode_t) {
    if (name[0] == '/')
        name++;
    if (OS.refuse(OSF_OPEN, "shm_open")) {
        errno = EMFILE;
        return -1;
    }
    auto it = OS.shm.find(name);
    if (it == OS.shm.end()) {
        if (!(fl & O_CREAT) || !*name) {
            errno = *name ? ENOENT : EINVAL;
            return -1;
        }
        int i = os_new_file();
        OS.shm[name] = i;
        return os_open_ino(i);
    }
    if ((fl & O_CREAT) && (fl & O_EXCL)) {
        errno = EEXIST;
        return -1;
    }
    return os_open_ino(it->second);
}
int __wrap_shm_unlink(const char *name) {
    if (name[0] == '/')
        name++;
    if (!OS.shm.erase(name)) {
        errno = ENOENT;
        return -1;
    }
    return 0;
}
// only the calls the library makes
static const int OS_PIDFD = 400;
long __wrap_syscall(long nr, long a, long b, long c, long d, long e, long f) {
    if (!OS.on)
        return __real_syscall(nr, a, b, c, d, e, f);
    switch (nr) {
#ifdef __NR_memfd_secret
    case __NR_memfd_secret:
        errno = ENOSYS;
        return -1;
#endif
    case __NR_memfd_create:
        if (OS.refuse(OSF_OPEN, "memfd_create")) {
            errno = EMFILE;
            return -1;
        }
        return os_open_ino(os_new_file());
    case 434: { // pidfd_open
        if (OS.refuse(OSF_DUP, "pidfd_open")) {
            errno = EMFILE;
            return -1;
        }
        if (a != getpid()) {
            errno = ESRCH;
            return -1;
        }
        int i = os_new_file();
        return os_open_ino(i);
    }
    case 438: { // pidfd_getfd
        MC_CHECK(OS.ino_of((int)a), "os:fd", "pidfd_getfd with descriptor %ld, which is not open", a);
        if (OS.refuse(OSF_DUP, "pidfd_getfd")) {
            errno = EPERM;
            return -1;
        }
        int ino = OS.ino_of((int)b);
        if (!ino) {
            errno = EBADF;
            return -1;
        }
        return os_open_ino(ino);
    }
    }
    return __real_syscall(nr, a, b, c, d, e, f);
}
}
#define OS_WRAP_LIST "mmap munmap madvise ftruncate posix_fallocate close open stat fstat shm_open shm_unlink syscall"

// ---- hwloc stand-ins ----------------------------------------------------------
#include <hwloc.h>
struct OsBind {
    uintptr_t a;
    size_t n;
    uint64_t nodes;
    int policy, flags;
};
struct Hw {
    hwloc_topology_t real = nullptr;
    int topos = 0, loaded = 0;
    long bitmaps = 0;
    std::vector<OsBind> binds;
    int bind_errno = 0;
};
static Hw HW;
extern "C" {
int __real_hwloc_topology_init(hwloc_topology_t *);
int __real_hwloc_topology_load(hwloc_topology_t);
void __real_hwloc_topology_destroy(hwloc_topology_t);
hwloc_bitmap_t __real_hwloc_bitmap_alloc(void);
hwloc_bitmap_t __real_hwloc_bitmap_dup(hwloc_const_bitmap_t);
void __real_hwloc_bitmap_free(hwloc_bitmap_t);
int __wrap_hwloc_topology_init(hwloc_topology_t *t) {
    if (OS.refuse(OSF_HWLOC, "hwloc_topology_init"))
        return -1;
    HW.topos++;
    *t = HW.real;
    return 0;
}
int __wrap_hwloc_topology_load(hwloc_topology_t) {
    if (OS.refuse(OSF_HWLOC, "hwloc_topology_load"))
        return -1;
    return 0;
}
void __wrap_hwloc_topology_destroy(hwloc_topology_t) {
    HW.topos--;
    MC_CHECK(HW.topos >= 0, "hw:destroy", "topology destroyed twice");
}
hwloc_bitmap_t __wrap_hwloc_bitmap_alloc(void) {
    if (OS.refuse(OSF_HWLOC, "hwloc_bitmap_alloc"))
        return nullptr;
    HW.bitmaps++;
    return __real_hwloc_bitmap_alloc();
}
hwloc_bitmap_t __wrap_hwloc_bitmap_dup(hwloc_const_bitmap_t b) {
    if (OS.refuse(OSF_HWLOC, "hwloc_bitmap_dup"))
        return nullptr;
    HW.bitmaps++;
    return __real_hwloc_bitmap_dup(b);
}
void __wrap_hwloc_bitmap_free(hwloc_bitmap_t b) {
    if (b)
        HW.bitmaps--;
    __real_hwloc_bitmap_free(b);
}
int __wrap_hwloc_set_area_membind(hwloc_topology_t, const void *addr, size_t len, hwloc_const_bitmap_t set, hwloc_membind_policy_t pol, int flags) {
    uint64_t nodes = 0;
    for (int i = 0; i < 64; i++)
        if (hwloc_bitmap_isset(set, (unsigned)i))
            nodes |= (uint64_t)1 << i;
    mc_op("  bind +%lx size %lx to nodes %lx", (long)((uintptr_t)addr - OS_ARENA), (long)len, (long)nodes);
    if (OS.refuse(OSF_BIND, "membind")) {
        errno = HW.bind_errno ? HW.bind_errno : EIO;
        return -1;
    }
    HW.binds.push_back({(uintptr_t)addr, len, nodes, (int)pol, flags});
    return 0;
}
}
static void hw_setup(const char *synthetic) {
    setenv("HWLOC_SYNTHETIC", synthetic, 1);
    __real_hwloc_topology_init(&HW.real);
    __real_hwloc_topology_load(HW.real);
}
static void hw_begin() {
    HW.topos = 0;
    HW.bitmaps = 0;
    HW.binds.clear();
}
static void hw_end() {
    MC_CHECK(HW.topos == 0, "hw:leak", "%d hwloc topologies not destroyed", HW.topos);
    MC_CHECK(HW.bitmaps == 0, "hw:leak-bitmap", "%ld hwloc bitmaps not freed", HW.bitmaps);
}
