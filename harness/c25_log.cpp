// C25: diagnostics follow the UMF_LOG setting.
#include "../mc/mc.hpp"
#include "../mc/sched.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <umf.h>
#include <unistd.h>
#include <vector>
extern "C" {
#include "utils_log.h"
}
#undef LOG_DEBUG
#undef LOG_INFO
#undef LOG_WARN
#undef LOG_ERR
#undef LOG_FATAL
typedef std::string S;
static S DIRP;
static int fo = -1, fe = -1;
static void cleanup() {
    if (DIRP.empty())
        return;
    if (DIR *d = opendir(DIRP.c_str())) {
        while (dirent *e = readdir(d))
            if (e->d_name[0] != '.')
                unlinkat(dirfd(d), e->d_name, 0);
        closedir(d);
    }
    if (chdir("/") == 0)
        rmdir(DIRP.c_str());
}
#define LC(cond, sig, ...)                                                                                             \
    do {                                                                                                               \
        if (!(cond)) {                                                                                                 \
            cleanup();                                                                                                 \
            mc_fail(sig, __VA_ARGS__);                                                                                 \
        }                                                                                                              \
    } while (0)
static void start() {
    char t[] = "/tmp/mc25-XXXXXX";
    MC_CHECK(mkdtemp(t), "setup:dir", "no scratch directory");
    DIRP = t;
    MC_CHECK(!chdir(t), "setup:dir", "chdir");
    fflush(nullptr);
    fo = memfd_create("o", 0);
    fe = memfd_create("e", 0);
    MC_CHECK(fo >= 0 && fe >= 0 && dup2(fo, 1) == 1 && dup2(fe, 2) == 2, "setup:fd", "memfd");
    setvbuf(stdout, nullptr, _IOFBF, BUFSIZ);
    unsetenv("UMF_LOG");
    umfTearDown(); // the library starts itself when the program is loaded
}
static S slurp(int fd) {
    S r;
    char b[65536];
    ssize_t n;
    off_t o = 0;
    while ((n = pread(fd, b, sizeof b, o)) > 0) {
        r.append(b, (size_t)n);
        o += n;
    }
    return r;
}
typedef std::map<S, S> Streams; // "1", "2" and "f:<name>"
static Streams snap() {
    Streams r;
    r["1"] = slurp(fo);
    r["2"] = slurp(fe);
    DIR *d = opendir(".");
    while (dirent *e = readdir(d))
        if (e->d_name[0] != '.') {
            int f = open(e->d_name, O_RDONLY);
            r[S("f:") + e->d_name] = slurp(f);
            close(f);
        }
    closedir(d);
    return r;
}
static int fds() {
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (readdir(d))
        n++;
    closedir(d);
    return n;
}
static const char *LV[] = {"debug", "info", "warning", "error", "fatal"};
static const char *TAG[] = {"DEBUG", "INFO ", "WARN ", "ERROR", "FATAL"};
static const char *SHOW[] = {"DEBUG", "INFO", "WARN", "ERROR", "FATAL"};
struct Cfg {
    int level = 3, flush = 3, ts = 0, pid = 0;
    S out; // "1", "2", "f:<name>", "" = disabled, "-" = never set up
};
// what the documented grammar allows for this text; a repeated option may take any of its given values
static std::vector<Cfg> parse(const char *env) {
    std::vector<Cfg> r;
    if (!env) {
        Cfg c;
        c.out = "-";
        r.push_back(c);
        return r;
    }
    std::set<int> lv, fl, ts, pid;
    std::set<S> out;
    S e = env;
    for (size_t p = 0; p <= e.size();) {
        size_t q = e.find(';', p);
        if (q == S::npos)
            q = e.size();
        S it = e.substr(p, q - p);
        p = q + 1;
        for (int i = 0; i < 5; i++) {
            if (it == S("level:") + LV[i])
                lv.insert(i);
            if (it == S("flush:") + LV[i])
                fl.insert(i);
        }
        if (it == "timestamp:yes" || it == "timestamp:no")
            ts.insert(it == "timestamp:yes");
        if (it == "pid:yes" || it == "pid:no")
            pid.insert(it == "pid:yes");
        if (it == "output:stdout")
            out.insert("1");
        if (it == "output:stderr")
            out.insert("2");
        if (it.compare(0, 12, "output:file,") == 0) {
            S f = it.substr(12);
            while (f.compare(0, 2, "./") == 0)
                f = f.substr(2);
            out.insert(it.size() - 12 > 256 || f.empty() || f.size() > 255 || f.find('/') != S::npos ? S("") : "f:" + f);
        }
    }
    if (out.empty())
        out.insert("");
    if (lv.empty())
        lv.insert(3);
    if (fl.empty())
        fl.insert(3);
    if (ts.empty())
        ts.insert(0);
    if (pid.empty())
        pid.insert(0);
    for (auto &o : out)
        for (int l : lv)
            for (int f : fl)
                for (int t : ts)
                    for (int i : pid) {
                        Cfg c;
                        c.level = l;
                        c.flush = f;
                        c.ts = t;
                        c.pid = i;
                        c.out = o;
                        r.push_back(c);
                    }
    return r;
}
struct Line {
    int level;
    S text;
    bool ts, pid;
};
static bool dig(const S &s, size_t p, const char *pat) {
    for (size_t i = 0; pat[i]; i++)
        if (p + i >= s.size() || (pat[i] == 'd' ? !isdigit((unsigned char)s[p + i]) : s[p + i] != pat[i]))
            return false;
    return true;
}
static bool line(const S &l, Line &r) {
    size_t p = 1;
    if (l.empty() || l[0] != '[')
        return false;
    r.ts = dig(l, p, "dddd-dd-ddTdd:dd:dd ");
    if (r.ts)
        p += 20;
    char b[80];
    int n = snprintf(b, sizeof b, "PID:%-6lu TID:%-6lu ", (unsigned long)getpid(), (unsigned long)syscall(SYS_gettid));
    r.pid = l.compare(p, (size_t)n, b) == 0;
    if (r.pid)
        p += (size_t)n;
    for (r.level = 0; r.level < 5; r.level++)
        if (l.compare(p, 11, S(TAG[r.level]) + " UMF] ") == 0)
            break;
    if (r.level == 5)
        return false;
    r.text = l.substr(p + 11);
    return true;
}
static bool lines(const S &s, std::vector<Line> &r) {
    for (size_t p = 0; p < s.size();) {
        size_t q = s.find('\n', p);
        Line l;
        if (q == S::npos || !line(s.substr(p, q - p), l))
            return false;
        r.push_back(l);
        p = q + 1;
    }
    return true;
}
struct Sent {
    int level;
    S text;
};
static Streams since(const Streams &base, Streams s) {
    for (auto &b : base) {
        auto i = s.find(b.first);
        if (i == s.end() || i->second.compare(0, b.second.size(), b.second) != 0)
            s[b.first] = "<rewritten>";
        else
            i->second.erase(0, b.second.size());
    }
    return s;
}
static S judge(const Cfg &c, const std::vector<Sent> &sent, const std::vector<Streams> &sn, const Streams &fin) {
    bool off = c.out.empty() || c.out == "-";
    S o = off ? "2" : c.out;
    for (auto &f : fin)
        if (f.first != o && !f.second.empty())
            return "text on the wrong stream " + f.first + ": " + f.second;
    if (!off && !fin.count(o))
        return "no file " + o;
    std::vector<Line> ls;
    if (!lines(fin.at(o), ls))
        return "a malformed line in " + fin.at(o);
    // the end of the stream is exactly what was sent at enabled levels
    int lim = off ? 4 : c.level;
    std::vector<Sent> want;
    for (auto &m : sent)
        if (m.level >= lim)
            want.push_back(m);
    if (ls.size() < want.size())
        return "messages missing";
    size_t k = ls.size() - want.size();
    bool said = false, err = false;
    for (size_t i = 0; i < ls.size(); i++) {
        const Line &l = ls[i];
        if (!off && (l.ts != (c.ts != 0) || l.pid != (c.pid != 0)))
            return "wrong header";
        if (c.out == "-" && (l.ts || l.pid))
            return "wrong header";
        if (i >= k) {
            if (l.level != want[i - k].level || l.text != want[i - k].text)
                return "got \"" + l.text + "\" instead of \"" + want[i - k].text + "\"";
            continue;
        }
        if (c.out == "-")
            return "unexpected message " + l.text;
        if (off) {
            if (l.level < 3)
                return "unexpected message " + l.text;
            err = true;
            continue;
        }
        if (l.level < c.level)
            return "a message below the level: " + l.text;
        if (l.text.find(": m") != S::npos && l.text.compare(0, 2, "fn") == 0)
            return "duplicate or disabled message " + l.text;
        if (l.text.find("Logger enabled") != S::npos) {
            char b[160];
            snprintf(b, sizeof b, "level: %s, flush: %s, pid: %s, timestamp: %s)", SHOW[c.level], SHOW[c.flush], c.pid ? "yes" : "no", c.ts ? "yes" : "no");
            if (l.text.find(b) == S::npos)
                return "announced " + l.text + " instead of " + b;
            said = true;
        }
    }
    if (c.out == "" && !err)
        return "disabled without a word";
    if (!off && c.level <= 1 && !said)
        return "the setting is not announced";
    // flushing: what is at or above the flush level is there at once, with everything before it
    size_t done = 0;
    for (size_t i = 0; i < sent.size(); i++) {
        if (sent[i].level < lim)
            continue;
        done++;
        if (sent[i].level < c.flush && !off)
            continue;
        auto f = sn[i].find(o);
        std::vector<Line> now;
        if (f == sn[i].end() || !lines(f->second, now) || now.size() < k + done)
            return "message " + sent[i].text + " is not flushed";
    }
    return "";
}
static void emit(std::vector<Sent> &sent, std::vector<Streams> &sn, const Streams &base, int level, int p) {
    char m[64];
    snprintf(m, sizeof m, "m%zu", sent.size());
    errno = ENOENT;
    if (p)
        utils_plog((utils_log_level_t)level, "fn", "%s", m);
    else
        utils_log((utils_log_level_t)level, "fn", "%s", m);
    sent.push_back({level, S("fn: ") + m + (p ? ": No such file or directory" : "")});
    sn.push_back(since(base, snap()));
}
static uint64_t cycle(const char *env, bool full) {
    fflush(nullptr);
    Streams base = snap();
    if (env)
        setenv("UMF_LOG", env, 1);
    else
        unsetenv("UMF_LOG");
    LC(umfInit() == 0, "log:init", "umfInit failed with UMF_LOG=%s", env ? env : "(unset)");
    std::vector<Sent> sent;
    std::vector<Streams> sn;
    static const int L1[] = {2, 0, 4, 1, 3, 0}, L2[] = {4, 0, 3};
    for (int i = 0; i < (full ? 6 : 3); i++)
        emit(sent, sn, base, full ? L1[i] : L2[i], full && (i == 3 || i == 4));
    umfTearDown();
    fflush(nullptr);
    Streams fin = since(base, snap());
    // what the library says while it goes down comes after the messages: cut it off
    std::vector<Cfg> cs = parse(env);
    S why;
    bool ok = false;
    for (auto &c : cs) {
        Streams f = fin;
        S o = c.out.empty() || c.out == "-" ? "2" : c.out;
        if (f.count(o)) {
            S &t = f[o];
            for (;;) {
                if (t.empty() || t.back() != '\n')
                    break;
                size_t q = t.size() > 1 ? t.rfind('\n', t.size() - 2) : S::npos;
                S last = t.substr(q == S::npos ? 0 : q + 1);
                if (last.find("UMF] fn: m") != S::npos || sent.empty())
                    break;
                bool any = false;
                for (auto &m : sent)
                    if (t.find("] " + m.text + "\n") != S::npos)
                        any = true;
                if (!any)
                    break;
                t.erase(q == S::npos ? 0 : q + 1);
            }
        }
        S w = judge(c, sent, sn, f);
        if (w.empty())
            ok = true;
        else if (why.empty())
            why = w;
    }
    LC(ok, "log:setting", "UMF_LOG=%s: %s", env ? env : "(unset)", why.substr(0, 300).c_str());
    uint64_t h = 1;
    for (auto &f : fin)
        h = mc_mix(h, std::hash<S>()(f.first) * 31 + (size_t)std::count(f.second.begin(), f.second.end(), '\n'));
    return h;
}
static std::vector<S> ITEMS() {
    if (mc_param("few", 0))
        return {"output:stdout", "output:stderr", "output:file,a.log", "output:file,level:debug", "level:debug", "level:warning", "level:fatal", "flush:debug", "flush:warning",
                "timestamp:yes", "pid:yes", "", "level:debugX", "xpid:yes", "output:file"};
    S x(240, 'x');
    std::vector<S> r = {"output:stdout", "output:stderr", "output:file,a.log", "output:file,level:debug", "output:file,x-pid:yes"};
    for (auto l : LV) {
        r.push_back(S("level:") + l);
        r.push_back(S("flush:") + l);
    }
    for (auto s : {"timestamp:yes", "timestamp:no", "pid:yes", "pid:no", "", "level:debugX", "xlevel:debug", "level", "output:file", "output:file,", "output:stdout,x",
                   "output:file,no/such", "pid:", "flush:debug level:debug", "xoutput:file,b.log"})
        r.push_back(s);
    r.push_back("output:file," + x.substr(0, 240));
    r.push_back("output:file,./././././././" + S(242, 'y'));  // 256 bytes in all
    r.push_back("output:file,./././././././" + S(243, 'z'));  // 257
    return r;
}
static void body_env() {
    static const std::vector<S> I = ITEMS();
    int depth = (int)mc_param("depth", 2);
    S env;
    int n = mc_choose(depth + 2);
    for (int i = 0; i < n - 1; i++)
        env += (i ? ";" : "") + I[(size_t)mc_choose((int)I.size())];
    if (n > 1 && n < 4 && mc_choose(2))
        env += ";";
    mc_note("UMF_LOG=%s", n ? env.c_str() : "(unset)");
    start();
    mc_outcome(cycle(n ? env.c_str() : nullptr, true));
    mc_state(std::hash<S>()(env));
    cleanup();
}
static void body_reinit() {
    static const char *E[] = {nullptr, "output:file,a.log", "output:file,b.log;level:debug;flush:debug", "output:stdout;level:info", "output:stderr;level:debug;pid:yes;timestamp:yes",
                              "level:debug", "output:file,a.log;level:debug;timestamp:yes", "output:file,no/such;level:debug;pid:yes", "output:stdout;flush:info;level:fatal", "output:file,a.log;flush:fatal;level:debug"};
    int n = 1 + mc_choose((int)mc_param("cycles", 3));
    std::vector<const char *> h;
    for (int i = 0; i < n; i++)
        h.push_back(E[mc_choose(sizeof E / sizeof *E)]);
    start();
    int first = 0;
    for (int round = 0; round < 3; round++) {
        for (auto e : h) {
            mc_op("init, messages, teardown");
            mc_outcome(cycle(e, false));
        }
        int now = fds();
        if (round == 0)
            first = now;
        LC(now <= first, "log:fd", "%d more file descriptors are open after repeating init and teardown", now - first);
    }
    cleanup();
}
static void body_len() {
    static const char *E[] = {"output:stderr;level:debug", "output:file,a.log;level:debug;pid:yes;timestamp:yes", "output:stdout;level:debug;flush:debug;timestamp:yes"};
    static const int ERR[] = {0, ENOENT, EPERM, 12345};
    int plog = mc_choose(5);
    int e = mc_choose(3);
    const S fn = S(mc_choose(2) ? 40 : 1, 'f');
    int len = mc_choose((int)mc_param("span", 80));
    static const int BASE[] = {8192, 4096, 300};
    int b = mc_choose(3);
    int span = (int)mc_param("span", 80);
    size_t msg = (size_t)(BASE[b] - span * 3 / 4 + len);
    if (b == 0)
        msg = (size_t)(8192 + 8 - (int)fn.size() - span + len);
    start();
    setenv("UMF_LOG", E[e], 1);
    LC(umfInit() == 0, "log:init", "umfInit failed");
    fflush(nullptr);
    Streams base = snap();
    S m(msg, 'a');
    for (size_t i = 0; i < m.size(); i++)
        m[i] = (char)('a' + i % 23);
    S full = fn + ": " + m;
    if (plog) {
        errno = ERR[plog - 1];
        utils_plog((utils_log_level_t)3, fn.c_str(), "%s", m.c_str());
        full += S(": ") + strerror(ERR[plog - 1]);
    } else
        utils_log((utils_log_level_t)3, fn.c_str(), "%s", m.c_str());
    fflush(nullptr);
    Streams f = since(base, snap());
    S o = e == 0 ? "2" : e == 1 ? "f:a.log" : "1";
    std::vector<Line> ls;
    LC(lines(f[o], ls) && ls.size() == 1 && ls[0].level == 3, "log:line", "a message of %zu bytes does not come out as one line", msg);
    static const S TR = "[truncated...]";
    S t = ls[0].text;
    if (t != full) {
        LC(t.size() > TR.size() && t.compare(t.size() - TR.size(), TR.size(), TR) == 0, "log:cut", "a line of %zu bytes is changed without a mark", full.size());
        t.resize(t.size() - TR.size());
        LC(t.size() >= 8000 && t.size() < full.size() && full.compare(0, t.size(), t) == 0, "log:cut", "a line of %zu bytes is cut to %zu", full.size(), t.size());
    }
    mc_outcome(ls[0].text.size());
    umfTearDown();
    cleanup();
}
#ifdef WRAPIO
#include <cstdarg>
#include <ctime>
// the C library is not instrumented: its text and stream functions are scheduling points
static void pt() {
    if (mt_active() && mt_self() >= 0)
        mt_mark();
}
extern "C" {
int __real_vsnprintf(char *, size_t, const char *, va_list);
int __wrap_vsnprintf(char *b, size_t n, const char *f, va_list a) {
    pt();
    return __real_vsnprintf(b, n, f, a);
}
int __wrap_snprintf(char *b, size_t n, const char *f, ...) {
    pt();
    va_list a;
    va_start(a, f);
    int r = __real_vsnprintf(b, n, f, a);
    va_end(a);
    return r;
}
int __real_fputs(const char *, FILE *);
int __wrap_fputs(const char *t, FILE *f) {
    pt();
    return __real_fputs(t, f);
}
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *f) {
    pt();
    return __real_fwrite(p, a, b, f);
}
int __real_fputc(int, FILE *);
int __wrap_fputc(int c, FILE *f) {
    pt();
    return __real_fputc(c, f);
}
int __wrap_fprintf(FILE *f, const char *m, ...) {
    pt();
    va_list a;
    va_start(a, m);
    int r = vfprintf(f, m, a);
    va_end(a);
    return r;
}
int __real_fflush(FILE *);
int __wrap_fflush(FILE *f) {
    pt();
    return __real_fflush(f);
}
size_t __real_strftime(char *, size_t, const char *, const tm *);
size_t __wrap_strftime(char *b, size_t n, const char *f, const tm *t) {
    pt();
    return __real_strftime(b, n, f, t);
}
}
#endif
// lines of several threads are never mixed, lost or repeated
static void body_mt() {
    int nt = (int)mc_param("threads", 2), nm = (int)mc_param("msgs", 2);
    static const char *E[] = {"output:file,a.log;level:debug;pid:yes", "output:stderr;level:debug;timestamp:yes", "output:stdout;level:info;flush:info"};
    int e = mc_choose(3), re = (int)mc_param("init", 0);
    size_t big = mc_param("big", 0) ? 9000 : 0;
    start();
    setenv("UMF_LOG", E[e], 1);
    if (!re)
        umfInit();
    fflush(nullptr);
    Streams base = snap();
    std::vector<std::function<void()>> b;
    std::vector<long> tid((size_t)nt);
    long *tids = tid.data();
    for (int t = 0; t < nt; t++)
        b.push_back([=] {
            tids[t] = syscall(SYS_gettid);
            if (re)
                umfInit();
            for (int i = 0; i < nm; i++) {
                mt_mark();
                utils_log((utils_log_level_t)2, "fn", "t%d-%d-%s", t, i, S(big + (size_t)(20 + 30 * t), (char)('a' + t)).c_str());
            }
            if (re)
                umfTearDown();
        });
    mt_run(b, (int)mc_param("pb", 2));
    fflush(nullptr);
    Streams f = since(base, snap());
    S o = e == 0 ? "f:a.log" : e == 1 ? "2" : "1";
    std::map<int, int> next;
    uint64_t h = 7;
    S all = f[o];
    for (size_t p = 0; p < all.size();) {
        size_t q = all.find('\n', p);
        LC(q != S::npos, "log:mix", "the last line is not complete");
        S l = all.substr(p, q - p);
        p = q + 1;
        int t, i;
        size_t k = l.find(" UMF] ");
        LC(l[0] == '[' && k != S::npos, "log:mix", "a broken line: %s", l.c_str());
        if (sscanf(l.c_str() + k, " UMF] fn: t%d-%d-", &t, &i) != 2)
            continue;
        char w[80];
        if (e == 0 && t >= 0 && t < nt) {
            snprintf(w, sizeof w, "[PID:%-6lu TID:%-6lu ", (unsigned long)getpid(), (unsigned long)tid[(size_t)t]);
            LC(l.compare(0, strlen(w), w) == 0, "log:who", "a message of thread %ld is headed %s", tid[(size_t)t], l.substr(0, 40).c_str());
        }
        snprintf(w, sizeof w, "fn: t%d-%d-", t, i);
        S got = l.substr(k + 6), full = w + S(big + (size_t)(20 + 30 * t), (char)('a' + t));
        static const S TR = "[truncated...]";
        if (big && got.size() > 8000 && got.compare(got.size() - TR.size(), TR.size(), TR) == 0) {
            got.resize(got.size() - TR.size());
            full.resize(std::min(full.size(), got.size()));
        }
        LC(t >= 0 && t < nt && got == full, "log:mix", "a mixed line: %s", l.substr(0, 200).c_str());
        LC(next[t] == i, "log:mix", "message %d of thread %d lost or repeated", next[t], t);
        next[t]++;
        h = mc_mix(h, (uint64_t)t);
    }
    for (int t = 0; t < nt; t++)
        LC(next[t] == nm, "log:mix", "messages of thread %d are missing", t);
    mc_outcome(h);
    if (!re)
        umfTearDown();
    cleanup();
}
// the header names the process that wrote the message, also after a fork
static void body_fork() {
    static const char *E[] = {"output:stderr;level:debug;pid:yes", "output:file,a.log;level:debug;flush:debug;pid:yes;timestamp:yes", "output:stdout;level:info;flush:info;pid:yes"};
    int e = mc_choose(3), before = mc_choose(2), gens = 1 + mc_choose((int)mc_param("gens", 2)), re = mc_choose(2);
    start();
    setenv("UMF_LOG", E[e], 1);
    umfInit();
    S o = e == 0 ? "2" : e == 1 ? "f:a.log" : "1";
    if (before)
        utils_log((utils_log_level_t)3, "fn", "first");
    for (int g = 0; g < gens; g++) {
        fflush(nullptr);
        Streams base = snap();
        pid_t p = fork();
        LC(p >= 0, "setup:fork", "fork failed");
        if (p > 0) { // the parent waits; the last child reports through its exit code
            int st = 0;
            while (waitpid(p, &st, 0) < 0 && errno == EINTR)
                ;
            bool mine = WIFEXITED(st) && WEXITSTATUS(st) == 0;
            if (g > 0)
                _exit(mine ? 0 : 1);
            LC(mine, "log:who", "a message written after a fork has no proper header (setting %s)", E[e]);
            umfTearDown();
            cleanup();
            mc_outcome((uint64_t)(e * 8 + before * 4 + gens));
            return;
        }
        if (re) {
            umfTearDown();
            umfInit();
        }
        utils_log((utils_log_level_t)3, "fn", "child %d", g);
        fflush(nullptr);
        std::vector<Line> ls;
        Streams f = since(base, snap());
        bool ok = lines(f[o], ls) && !ls.empty() && ls.back().text == "fn: child " + std::to_string(g);
        for (auto &l : ls)
            if (!l.pid)
                ok = false;
        if (!ok || g == gens - 1)
            _exit(ok ? 0 : 1);
    }
}
int main(int argc, char **argv) {
    return mc_main(argc, argv, {{"env", body_env, true}, {"reinit", body_reinit, true}, {"len", body_len, true}, {"mt", body_mt, true}, {"fork", body_fork, true}});
}
