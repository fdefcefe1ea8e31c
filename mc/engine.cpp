#include "mc.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <set>
#include <sched.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" void *__real_mmap(void *, size_t, int, int, int, off_t)
    __attribute__((weak));
static void *eng_mmap(size_t n) {
    void *p = __real_mmap
                  ? __real_mmap(nullptr, n, PROT_READ | PROT_WRITE,
                                MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)
                  : mmap(nullptr, n, PROT_READ | PROT_WRITE,
                         MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror("engine mmap");
        exit(2);
    }
    return p;
}

namespace {
constexpr int MAXD = 16384;
constexpr int MAXW = 16;
constexpr int QCAP = 128;
constexpr size_t HS = 1u << 23;
constexpr int MAXPC = 4096;
constexpr int MAXV = 64;

struct Ch {
    uint16_t v, n;
};
struct Path {
    int len;
    Ch c[MAXD];
};
struct Viol {
    char sig[200];
    char msg[900];
    int known;
    Path p;
};
struct Worker {
    std::atomic<int> active;
    int base;
    int pos;
    int faults_left, faults_used;
    Path p;
    std::atomic<uint64_t> execs, trans, steps, pruned;
    std::atomic<int> in_body;
    const char *opfmt;
    long opa[4];
    char failsig[200];
    char failmsg[900];
    int has_fail;
    int maxdepth;
};
struct Shm {
    std::atomic<int> stop;
    std::atomic<int> idle;
    std::atomic<int> lock;
    std::atomic<uint64_t> states, outcomes, diverged, unrepro, knownhits;
    std::atomic<int> qn;
    std::atomic<int> npc, npend;
    uintptr_t pcs[MAXPC], pend[MAXPC];
    int nv;
    Viol v[MAXV];
    Path q[QCAP];
    Worker w[MAXW + 1];
    std::atomic<uint64_t> hs[HS], ho[1 << 20];
    char logbuf[1 << 16];
    int loglen;
};
Shm *S;
Worker *W; // mine
int NW = 8;
mc_scenario SC;
bool g_replay, g_log, g_thorough;
std::map<std::string, long> g_params;
std::vector<std::string> g_known;
std::string g_prop = "C00", g_replaydir = "/verif/build/replays", g_out, g_bin,
            g_scn;
double g_budget = 600, g_hang = 20;
uint64_t g_maxexec = 0;
int g_null = -1;

double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
struct Lk {
    Lk() {
        while (S->lock.exchange(1))
            sched_yield();
    }
    ~Lk() { S->lock.store(0); }
};
bool hs_add(std::atomic<uint64_t> *t, size_t n, uint64_t h) {
    if (h == 0)
        h = 1;
    size_t i = (h * 0x9e3779b97f4a7c15ULL) & (n - 1);
    for (int k = 0; k < 64; k++) {
        uint64_t c = t[i].load(std::memory_order_relaxed);
        if (c == h)
            return false;
        if (c == 0) {
            uint64_t e = 0;
            if (t[i].compare_exchange_strong(e, h))
                return true;
            if (e == h)
                return false;
        }
        i = (i + 1) & (n - 1);
    }
    return false;
}
void logline(const char *s) {
    int l = (int)strlen(s);
    if (S->loglen + l + 2 < (int)sizeof(S->logbuf)) {
        memcpy(S->logbuf + S->loglen, s, l);
        S->loglen += l;
        S->logbuf[S->loglen++] = '\n';
        S->logbuf[S->loglen] = 0;
    }
}
} // namespace

bool mc_is_worker() { return W != nullptr; }
bool mc_replaying() { return g_replay; }
bool mc_thorough() { return g_thorough; }
long mc_param(const char *n, long d) {
    auto it = g_params.find(n);
    return it == g_params.end() ? d : it->second;
}
bool mc_pc_is_point(uintptr_t pc) {
    int n = S->npc.load(std::memory_order_relaxed);
    for (int i = 0; i < n; i++)
        if (S->pcs[i] == pc)
            return true;
    return false;
}
void mc_pc_learn(uintptr_t pc) {
    int n = S->npend.load(std::memory_order_relaxed);
    for (int i = 0; i < n; i++)
        if (S->pend[i] == pc)
            return;
    if (mc_pc_is_point(pc))
        return;
    Lk l;
    n = S->npend.load();
    for (int i = 0; i < n; i++)
        if (S->pend[i] == pc)
            return;
    if (n < MAXPC) {
        S->pend[n] = pc;
        S->npend.store(n + 1);
    }
}
void mc_count_step() { W->steps.fetch_add(1, std::memory_order_relaxed); }

int mc_choose(int n) {
    if (n <= 1)
        return 0;
    int i = W->pos++;
    if (i < W->p.len) {
        if (W->p.c[i].n != n) {
            S->diverged++;
            if (!g_replay)
                W->p.len = i;
            _exit(43);
        }
        return W->p.c[i].v;
    }
    if (i >= MAXD) {
        mc_fail("horizon", "more than %d choices in one execution", MAXD);
    }
    W->p.c[i].v = 0;
    W->p.c[i].n = (uint16_t)n;
    W->p.len = i + 1;
    if (i + 1 > W->maxdepth)
        W->maxdepth = i + 1;
    return 0;
}
void mc_fault_budget(int n) { W->faults_left = n; }
int mc_faults_used() { return W->faults_used; }
bool mc_fault() {
    if (W->faults_left <= 0)
        return false;
    if (mc_choose(2)) {
        W->faults_left--;
        W->faults_used++;
        if (g_log)
            logline("   [fault injected here]");
        return true;
    }
    return false;
}
void mc_fail(const char *sig, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    snprintf(W->failsig, sizeof W->failsig, "%s", sig);
    vsnprintf(W->failmsg, sizeof W->failmsg, fmt, ap);
    va_end(ap);
    W->has_fail = 1;
    if (g_log) {
        char b[1200];
        snprintf(b, sizeof b, "FAIL %s: %s", W->failsig, W->failmsg);
        logline(b);
    }
    _exit(42);
}
void mc_prune() {
    W->pruned++;
    _exit(44);
}
void mc_op(const char *fmt, long a, long b, long c, long d) {
    W->opfmt = fmt;
    W->opa[0] = a;
    W->opa[1] = b;
    W->opa[2] = c;
    W->opa[3] = d;
    W->trans.fetch_add(1, std::memory_order_relaxed);
    if (g_log) {
        char buf[512];
        snprintf(buf, sizeof buf, fmt, a, b, c, d);
        logline(buf);
    }
}
void mc_note(const char *fmt, ...) {
    if (!g_log)
        return;
    char buf[600];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    logline(buf);
}
void mc_state(uint64_t h) {
    if (hs_add(S->hs, HS, h))
        S->states.fetch_add(1, std::memory_order_relaxed);
}
void mc_outcome(uint64_t h) {
    if (hs_add(S->ho, 1 << 20, h))
        S->outcomes.fetch_add(1, std::memory_order_relaxed);
}

namespace {
void exec_reset(Worker *w) {
    w->pos = 0;
    w->faults_left = SC.fault_budget;
    w->faults_used = 0;
    w->has_fail = 0;
    w->opfmt = "(start)";
}
bool advance(Worker *w) {
    for (int i = w->p.len - 1; i >= w->base; i--) {
        if (w->p.c[i].v + 1 < w->p.c[i].n) {
            w->p.c[i].v++;
            w->p.len = i + 1;
            return true;
        }
    }
    return false;
}
void donate(Worker *w) {
    if (S->idle.load(std::memory_order_relaxed) == 0 ||
        S->qn.load(std::memory_order_relaxed) >= 2 * NW)
        return;
    for (int i = w->base; i < w->p.len; i++) {
        if (w->p.c[i].v + 1 < w->p.c[i].n) {
            Lk l;
            int room = QCAP - S->qn.load();
            int rem = w->p.c[i].n - 1 - w->p.c[i].v;
            if (room < rem)
                return;
            for (int v = w->p.c[i].v + 1; v < w->p.c[i].n; v++) {
                Path &q = S->q[S->qn.load()];
                memcpy(q.c, w->p.c, sizeof(Ch) * (size_t)(i + 1));
                q.c[i].v = (uint16_t)v;
                q.len = i + 1;
                S->qn++;
            }
            w->base = i + 1;
            return;
        }
    }
}
std::string crashsig(Worker *w, int status) {
    char b[256];
    const char *op = w->opfmt ? w->opfmt : "?";
    char t[64];
    int k = 0;
    for (; op[k] && k < 60 && op[k] != '(' && op[k] != '%'; k++)
        t[k] = op[k] == ' ' ? '_' : op[k];
    t[k] = 0;
    if (WIFSIGNALED(status))
        snprintf(b, sizeof b, "crash:sig%d:%s", WTERMSIG(status), t);
    else
        snprintf(b, sizeof b, "crash:exit%d:%s", WEXITSTATUS(status), t);
    return b;
}
std::string opstr(Worker *w) {
    char b[512];
    snprintf(b, sizeof b, w->opfmt ? w->opfmt : "?", w->opa[0], w->opa[1],
             w->opa[2], w->opa[3]);
    return b;
}
bool is_known(const std::string &sig) {
    for (auto &k : g_known)
        if (sig == k || (k.size() && k.back() == '*' &&
                         sig.compare(0, k.size() - 1, k, 0, k.size() - 1) == 0))
            return true;
    return false;
}
// Records what happened in w's current execution. Called by the process that
// saw the child end.
void record(Worker *w, int status, bool hang) {
    std::string sig, msg;
    if (hang) {
        sig = crashsig(w, 0);
        sig = "hang:" + sig.substr(sig.rfind(':') + 1);
        msg = "no progress in " + opstr(w);
    } else if (WIFEXITED(status) && WEXITSTATUS(status) == 42 && w->has_fail) {
        sig = w->failsig;
        msg = w->failmsg;
    } else {
        sig = crashsig(w, status);
        msg = "process died (" + sig + ") during: " + opstr(w);
    }
    Lk l;
    bool kn = is_known(sig);
    if (kn)
        S->knownhits++;
    for (int i = 0; i < S->nv; i++)
        if (sig == S->v[i].sig)
            return;
    if (S->nv >= MAXV)
        return;
    Viol &v = S->v[S->nv];
    snprintf(v.sig, sizeof v.sig, "%s", sig.c_str());
    snprintf(v.msg, sizeof v.msg, "%s", msg.c_str());
    v.known = kn;
    memcpy(&v.p, &w->p, sizeof(int) + sizeof(Ch) * (size_t)w->p.len);
    S->nv++;
    if (!kn && !getenv("MC_KEEP_GOING"))
        S->stop = 1;
}
void watchdog_child() {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
}
// runs one execution in this process or a child; returns normally if fine
void one_exec_fork(Worker *w) {
    exec_reset(w);
    pid_t c = fork();
    if (c == 0) {
        watchdog_child();
        SC.body();
        _exit(0);
    }
    if (c < 0) {
        usleep(10000);
        return one_exec_fork(w);
    }
    int st = 0;
    double t0 = now();
    bool hang = false;
    // cheap blocking wait with alarm-based limit
    sigset_t ss;
    (void)ss;
    double last = t0;
    for (int k = 0;; k++) {
        pid_t r = waitpid(c, &st, WNOHANG);
        if (r == c)
            break;
        if (k > 20)
            usleep(k > 200 ? 1000 : 100);
        else
            sched_yield();
        double t = now();
        if (t - last > 1)
            t0 += t - last;
        last = t;
        if (t - t0 > g_hang) {
            kill(c, SIGKILL);
            waitpid(c, &st, 0);
            hang = true;
            break;
        }
    }
    w->execs++;
    if (hang)
        record(w, 0, true);
    else if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 43 ||
                               WEXITSTATUS(st) == 44))
        return;
    else
        record(w, st, false);
}
void onalrm(int) {}

void redirect_stderr(int w) {
    char f[128];
    snprintf(f, sizeof f, "/dev/null");
    int fd = open(f, O_WRONLY);
    if (getenv("MC_STDERR"))
        return;
    dup2(fd, 2);
    dup2(fd, 1);
    close(fd);
    (void)w;
}

[[noreturn]] void worker_main(int id, bool resume) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    W = &S->w[id];
    cpu_set_t cs;
    CPU_ZERO(&cs);
    long nc = sysconf(_SC_NPROCESSORS_ONLN);
    CPU_SET(id % (int)nc, &cs);
    sched_setaffinity(0, sizeof cs, &cs);
    redirect_stderr(id);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = onalrm;
    sigaction(SIGALRM, &sa, nullptr);
    if (SC.fork_each) {
        struct itimerval it;
        memset(&it, 0, sizeof it);
        it.it_value.tv_sec = it.it_interval.tv_sec = 1;
        setitimer(ITIMER_REAL, &it, nullptr);
    }
    if (SC.setup)
        SC.setup();
    if (resume && W->active) {
        if (!advance(W))
            W->active = 0;
    }
    bool idle = false;
    for (;;) {
        if (S->stop)
            _exit(0);
        if (!W->active) {
            bool got = false;
            {
                Lk l;
                int n = S->qn.load();
                if (n > 0) {
                    Path &q = S->q[n - 1];
                    memcpy(&W->p, &q, sizeof(int) + sizeof(Ch) * (size_t)q.len);
                    S->qn = n - 1;
                    W->base = W->p.len;
                    W->active = 1;
                    got = true;
                    if (idle) {
                        idle = false;
                        S->idle--;
                    }
                } else if (!idle) {
                    idle = true;
                    S->idle++;
                }
            }
            if (!got) {
                if (S->idle.load() == NW && S->qn.load() == 0)
                    _exit(0);
                usleep(200);
                continue;
            }
        }
        if (SC.fork_each) {
            one_exec_fork(W);
        } else {
            exec_reset(W);
            W->in_body = 1;
            SC.body();
            W->in_body = 0;
            W->execs++;
        }
        donate(W);
        if (!advance(W))
            W->active = 0;
    }
}

// Replays a path in a fresh process; returns the violation signature or "".
std::string run_path(const Path &p, std::string *msg, bool log, double limit) {
    Worker *w = &S->w[MAXW];
    memcpy(&w->p, &p, sizeof(int) + sizeof(Ch) * (size_t)p.len);
    w->base = 0;
    exec_reset(w);
    w->has_fail = 0;
    if (log) {
        S->loglen = 0;
        S->logbuf[0] = 0;
    }
    pid_t c = fork();
    if (c == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        W = w;
        g_replay = true;
        g_log = log;
        cpu_set_t cs;
        CPU_ZERO(&cs);
        CPU_SET(0, &cs);
        sched_setaffinity(0, sizeof cs, &cs);
        redirect_stderr(MAXW);
        if (SC.setup)
            SC.setup();
        SC.body();
        _exit(0);
    }
    int st;
    double t0 = now();
    bool hang = false;
    double last = t0;
    while (waitpid(c, &st, WNOHANG) == 0) {
        double t = now();
        if (t - last > 1)
            t0 += t - last;
        last = t;
        if (t - t0 > limit) {
            kill(c, SIGKILL);
            waitpid(c, &st, 0);
            hang = true;
            break;
        }
        usleep(300);
    }
    if (hang) {
        std::string s = crashsig(w, 0);
        if (msg)
            *msg = "no progress in " + opstr(w);
        return "hang:" + s.substr(s.rfind(':') + 1);
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 42 && w->has_fail) {
        if (msg)
            *msg = w->failmsg;
        return w->failsig;
    }
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 43 ||
                          WEXITSTATUS(st) == 44))
        return "";
    std::string s = crashsig(w, st);
    if (msg)
        *msg = "process died during: " + opstr(w);
    return s;
}

std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += (char)c;
        } else if (c == '\n')
            o += "\\n";
        else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += (char)c;
    }
    return o;
}

std::string write_replay(const Viol &v, const std::string &log, int idx) {
    std::string f = g_replaydir + "/" + g_prop + "-" + g_scn + "-" +
                    std::to_string(idx) + ".replay";
    FILE *o = fopen(f.c_str(), "w");
    if (!o)
        return f;
    fprintf(o, "binary %s\nproperty %s\nscenario %s\n", g_bin.c_str(),
            g_prop.c_str(), g_scn.c_str());
    fprintf(o, "thorough %d\n", (int)g_thorough);
    for (auto &kv : g_params)
        fprintf(o, "param %s=%ld\n", kv.first.c_str(), kv.second);
    fprintf(o, "signature %s\nmessage %s\n", v.sig, v.msg);
    fprintf(o, "pcs");
    for (int i = 0; i < S->npc; i++)
        fprintf(o, " %lx", S->pcs[i]);
    fprintf(o, "\npath");
    for (int i = 0; i < v.p.len; i++)
        fprintf(o, " %d/%d", v.p.c[i].v, v.p.c[i].n);
    fprintf(o, "\nlog\n%s\n", log.c_str());
    fclose(o);
    return f;
}

// explores everything; returns true if completed (no cap)
bool explore(double deadline) {
    S->qn = 1;
    S->q[0].len = 0;
    S->idle = 0;
    S->stop = 0;
    std::vector<pid_t> pid(NW);
    std::vector<uint64_t> seen(NW, ~0ull);
    std::vector<double> since(NW, now());
    for (int i = 0; i < NW; i++) {
        S->w[i].active = 0;
        S->w[i].in_body = 0;
    }
    for (int i = 0; i < NW; i++) {
        pid_t c = fork();
        if (c == 0)
            worker_main(i, false);
        pid[i] = c;
    }
    int alive = NW;
    bool capped = false;
    double last = now();
    while (alive > 0) {
        int st;
        pid_t c = waitpid(-1, &st, WNOHANG);
        double t = now();
        if (t - last > 1) // the whole machine was paused or overloaded
            for (auto &x : since)
                x = t;
        last = t;
        if (c == 0) {
            if (t > deadline && !S->stop) {
                S->stop = 1;
                capped = true;
            }
            if (g_maxexec) {
                uint64_t e = 0;
                for (int i = 0; i < NW; i++)
                    e += S->w[i].execs;
                if (e >= g_maxexec && !S->stop) {
                    S->stop = 1;
                    capped = true;
                }
            }
            if (!SC.fork_each)
                for (int i = 0; i < NW; i++) {
                    uint64_t e = S->w[i].execs;
                    if (e != seen[i] || !S->w[i].in_body) {
                        seen[i] = e;
                        since[i] = t;
                    } else if (t - since[i] > g_hang && pid[i] > 0) {
                        S->w[i].has_fail = 0;
                        record(&S->w[i], 0, true);
                        S->w[i].failsig[0] = 1; // mark: killed for hang
                        kill(pid[i], SIGKILL);
                        since[i] = t;
                    }
                }
            usleep(500);
            continue;
        }
        if (c < 0)
            break;
        int i = -1;
        for (int k = 0; k < NW; k++)
            if (pid[k] == c)
                i = k;
        if (i < 0)
            continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !S->w[i].in_body) {
            alive--;
            pid[i] = -1;
            continue;
        }
        // died inside an execution (in-process mode)
        if (S->w[i].in_body) {
            S->w[i].execs++;
            bool hangkill = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL &&
                            S->w[i].failsig[0] == 1;
            if (!hangkill && !(WIFEXITED(st) && (WEXITSTATUS(st) == 43 ||
                                                  WEXITSTATUS(st) == 44)))
                record(&S->w[i], st, false);
            S->w[i].in_body = 0;
            S->w[i].failsig[0] = 0;
        } else {
            fprintf(stderr, "engine: worker %d died outside a body, status %x\n",
                    i, st);
            // 98: the code under test crashed while the scenario was set up
            bool crash = WIFSIGNALED(st) ? WTERMSIG(st) != SIGKILL && WTERMSIG(st) != SIGTERM : WEXITSTATUS(st) == 99;
            fflush(nullptr);
            _exit(crash ? 98 : 2);
        }
        since[i] = now();
        pid_t n = fork();
        if (n == 0)
            worker_main(i, true);
        pid[i] = n;
    }
    return !capped;
}
} // namespace

static int main_(int argc, char **argv, std::vector<mc_scenario> &scs) {
    if (!getenv("MC_NOASLR")) {
        setenv("MC_NOASLR", "1", 1);
        personality(ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
    }
    std::string replay;
    g_bin = argv[0];
    bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--scenario")
            g_scn = nx();
        else if (a == "--thorough")
            g_thorough = true;
        else if (a == "--prop")
            g_prop = nx();
        else if (a == "--out")
            g_out = nx();
        else if (a == "--budget")
            g_budget = atof(nx().c_str());
        else if (a == "--hang")
            g_hang = atof(nx().c_str());
        else if (a == "--maxexec")
            g_maxexec = strtoull(nx().c_str(), 0, 10);
        else if (a == "--workers")
            NW = atoi(nx().c_str());
        else if (a == "--known")
            g_known.push_back(nx());
        else if (a == "--replaydir")
            g_replaydir = nx();
        else if (a == "--replay")
            replay = nx();
        else if (a == "--list")
            list = true;
        else if (a == "--param") {
            std::string s = nx();
            size_t e = s.find('=');
            g_params[s.substr(0, e)] = atol(s.c_str() + e + 1);
        } else {
            fprintf(stderr, "bad arg %s\n", a.c_str());
            return 2;
        }
    }
    if (list) {
        for (auto &s : scs)
            printf("%s\n", s.name);
        return 0;
    }
    if (NW > MAXW)
        NW = MAXW;
    S = (Shm *)eng_mmap(sizeof(Shm));
    static Path rp;
    if (!replay.empty()) {
        FILE *f = fopen(replay.c_str(), "r");
        if (!f) {
            perror("replay");
            return 2;
        }
        static char line[1 << 20];
        while (fgets(line, sizeof line, f)) {
            char *sp = strchr(line, ' ');
            std::string k(line, sp ? sp - line : strcspn(line, "\n"));
            std::string v = sp ? sp + 1 : "";
            if (!v.empty() && v.back() == '\n')
                v.pop_back();
            if (k == "scenario")
                g_scn = v;
            else if (k == "property")
                g_prop = v;
            else if (k == "thorough")
                g_thorough = atoi(v.c_str());
            else if (k == "param") {
                size_t e = v.find('=');
                g_params[v.substr(0, e)] = atol(v.c_str() + e + 1);
            } else if (k == "pcs") {
                char *q = &v[0], *e;
                for (;;) {
                    unsigned long x = strtoul(q, &e, 16);
                    if (e == q)
                        break;
                    S->pcs[S->npc++] = x;
                    q = e;
                }
            } else if (k == "path") {
                char *q = &v[0], *e;
                for (;;) {
                    unsigned long x = strtoul(q, &e, 10);
                    if (e == q || *e != '/')
                        break;
                    unsigned long n = strtoul(e + 1, &q, 10);
                    rp.c[rp.len].v = (uint16_t)x;
                    rp.c[rp.len].n = (uint16_t)n;
                    rp.len++;
                }
            } else if (k == "log")
                break;
        }
        fclose(f);
    }
    bool found = false;
    for (auto &s : scs)
        if (g_scn == s.name) {
            SC = s;
            found = true;
        }
    if (!found) {
        fprintf(stderr, "no scenario '%s'\n", g_scn.c_str());
        return 2;
    }
    if (g_params.count("faults"))
        SC.fault_budget = (int)g_params["faults"];
    if (!replay.empty()) {
        std::string msg, s = run_path(rp, &msg, true, 120);
        printf("%s\nresult: %s %s\n", S->logbuf, s.empty() ? "ok" : s.c_str(),
               msg.c_str());
        return s.empty() ? 0 : 1;
    }
    double t0 = now(), deadline = t0 + g_budget;
    bool complete = true;
    int rounds = 0;
    bool forked_fallback = false;
    int nviol = 0, idx = 0, nunrep = 0;
    std::string vj;
    std::set<std::string> knownseen;
again:
    for (;;) {
        rounds++;
        complete = explore(deadline);
        if (S->stop && complete)
            break; // violation
        if (!complete)
            break;
        if (S->npend == 0)
            break;
        // new racing accesses became scheduling points: explore again
        for (int i = 0; i < S->npend && S->npc < MAXPC; i++)
            S->pcs[S->npc++] = S->pend[i];
        S->npend = 0;
    }
    // confirm
    nviol = 0, idx = 0, nunrep = 0;
    vj.clear();
    knownseen.clear();
    for (int i = 0; i < S->nv; i++) {
        Viol &v = S->v[i];
        if (v.known) {
            knownseen.insert(v.sig);
            continue;
        }
        std::string m1, m2;
        double lim = std::max(60.0, g_hang * 2);
        std::string a = run_path(v.p, &m1, true, lim);
        std::string log = S->logbuf;
        std::string b = run_path(v.p, &m2, false, lim);
        if (a.empty() || a != b) {
            S->unrepro++;
            nunrep++;
            fprintf(stderr,
                    "engine: not reproducible alone: %s (%s) -> '%s' '%s'\n",
                    v.sig, v.msg, a.c_str(), b.c_str());
            if (getenv("MC_KEEP_UNREPRO"))
                write_replay(v, log, 1000 + i);
            continue;
        }
        if (a != v.sig) {
            snprintf(v.sig, sizeof v.sig, "%s", a.c_str());
            snprintf(v.msg, sizeof v.msg, "%s", m1.c_str());
            if (is_known(a)) {
                knownseen.insert(a);
                continue;
            }
        }
        std::string f = write_replay(v, log, idx++);
        nviol++;
        printf("VIOLATION property=%s replay=%s\n", g_prop.c_str(), f.c_str());
        printf("  scenario=%s %s: %s\n", g_scn.c_str(), v.sig, v.msg);
        if (!vj.empty())
            vj += ",";
        vj += "{\"sig\":\"" + jesc(v.sig) + "\",\"msg\":\"" + jesc(v.msg) +
              "\",\"replay\":\"" + jesc(f) + "\"}";
    }
    if (nunrep && !nviol && !SC.fork_each && !forked_fallback) {
        // state carried over between executions of one process: explore
        // again with one process per execution, which is deterministic
        forked_fallback = true;
        SC.fork_each = true;
        S->nv = 0;
        goto again;
    }
    uint64_t ex = 0, tr = 0, st = 0, pr = 0;
    int md = 0;
    for (int i = 0; i < NW; i++) {
        ex += S->w[i].execs;
        tr += S->w[i].trans;
        st += S->w[i].steps;
        pr += S->w[i].pruned;
        md = std::max(md, S->w[i].maxdepth);
    }
    // samples: the default execution and the last one of a worker
    std::string sj;
    std::vector<const Path *> sp;
    static Path zero, last;
    zero.len = 0;
    sp.push_back(&zero);
    int lw = NW > 1 ? NW / 2 : 0;
    memcpy(&last, &S->w[lw].p, sizeof(int) + sizeof(Ch) * (size_t)S->w[lw].p.len);
    sp.push_back(&last);
    for (auto *p : sp) {
        std::string r = run_path(*p, nullptr, true, 60);
        std::string pth;
        for (int i = 0; i < p->len && i < 200; i++)
            pth += std::to_string(p->c[i].v) + " ";
        std::string lg = S->logbuf;
        if (lg.size() > 1500)
            lg.resize(1500);
        if (!sj.empty())
            sj += ",";
        sj += "{\"scenario\":\"" + g_scn + "\",\"choices\":\"" + pth +
              "\",\"trace\":\"" + jesc(lg) + "\",\"result\":\"" +
              jesc(r.empty() ? "ok" : r) + "\"}";
    }
    std::string kj;
    for (auto &k : knownseen)
        kj += (kj.empty() ? "\"" : ",\"") + jesc(k) + "\"";
    double wall = now() - t0;
    char buf[1024];
    snprintf(buf, sizeof buf,
             "\"executions\":%lu,\"transitions\":%lu,\"sched_steps\":%lu,"
             "\"states\":%lu,\"outcomes\":%lu,\"pruned\":%lu,\"max_choices\":%d,"
             "\"diverged\":%lu,\"unreproducible\":%lu,\"known_hits\":%lu,"
             "\"race_points\":%d,\"rounds\":%d,\"complete\":%s,\"wall_s\":%.2f",
             (unsigned long)ex, (unsigned long)tr, (unsigned long)st,
             (unsigned long)S->states, (unsigned long)S->outcomes,
             (unsigned long)pr, md, (unsigned long)S->diverged,
             (unsigned long)S->unrepro, (unsigned long)S->knownhits,
             (int)S->npc, rounds,
             (complete && nviol == 0) ? "true" : "false", wall);
    std::string pj;
    for (auto &kv : g_params)
        pj += (pj.empty() ? "" : ",") + ("\"" + kv.first + "\":") +
              std::to_string(kv.second);
    std::string js = "{\"scenario\":\"" + g_scn + "\",\"params\":{" + pj + "}," +
                     buf + ",\"violations\":[" + vj + "],\"known\":[" + kj +
                     "],\"samples\":[" + sj + "]}\n";
    if (!g_out.empty()) {
        FILE *f = fopen(g_out.c_str(), "w");
        if (f) {
            fputs(js.c_str(), f);
            fclose(f);
        }
    }
    fprintf(stderr,
            "[%s/%s] exec=%lu trans=%lu steps=%lu states=%lu outcomes=%lu "
            "depth=%d diverged=%lu unrepro=%lu known=%lu racepts=%d rounds=%d "
            "%s %.1fs\n",
            g_prop.c_str(), g_scn.c_str(), (unsigned long)ex, (unsigned long)tr,
            (unsigned long)st, (unsigned long)S->states,
            (unsigned long)S->outcomes, md, (unsigned long)S->diverged,
            (unsigned long)S->unrepro, (unsigned long)S->knownhits, (int)S->npc,
            rounds, complete ? "complete" : "CAPPED", wall);
    return nviol ? 1 : 0;
}

int mc_main(int argc, char **argv, std::vector<mc_scenario> scs) {
    int rc = main_(argc, argv, scs);
    // the destructors of the code under test have nothing left to run on
    fflush(nullptr);
    _exit(rc);
}
