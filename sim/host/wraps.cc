// The rest of the outside world: stdio files, clocks, random numbers, signals,
// process exit.  The program library is linked with --wrap for each of these.
#include "sim.hh"
#include <cstdlib>
#include <cerrno>
#include <csignal>
#include <unistd.h>
#include <ctime>
#include <sys/time.h>
#include <iostream>
#include <streambuf>
#include <algorithm>

void logWrite(const std::string &p, u64 off, u64 len);
void applyWrite(const std::string &p, u64 off, const void *b, size_t n);
bool fileOpPoint(bool *half);
[[noreturn]] void killNow();

// ---------------------------------------------------------------- clocks
static const u64 EPOCH = 1700000000ull * 1000000000ull;
// the process may be stopped for any time between two readings of any clock
static u64 stalled(Rank *r) {
    u64 d = draw(S_CLOCK);
    r->stall += d % 8 || cfg.clockMode == 6 ? 500000000ull + (d >> 8) % (1000000000ull << (d >> 3) % 12) : 0;
    return r->stall;
}
u64 clockNow(Rank *r) {   // ns; one tick of simulated time is a microsecond
    st.clockReads++;
    u64 t = now * 1000;
    switch (cfg.clockMode) {
    case 1: {
        u64 d = draw(S_CLOCK);
        if (d && d % 3 == 0) {
            i64 j = (i64)((d >> 8) % 7200000000000ull) - 3600000000000ll;
            r->clockOff += j;
            st.clockJumps++; st.faultsFired[F_CLOCKJUMP]++;
        }
        return EPOCH + t + (u64)r->clockOff;
    }
    case 2: st.faultsFired[F_CLOCKJUMP]++; return EPOCH;
    case 3: st.faultsFired[F_CLOCKJUMP]++; return EPOCH - t;
    case 4: st.faultsFired[F_CLOCKJUMP]++; return EPOCH + t + t / 1000 * (u64)(r->id * 37 % 200) + (u64)r->id * 86400000000000ull;
    case 5: case 6: st.faultsFired[F_CLOCKJUMP]++; return EPOCH + t + stalled(r);
    }
    return EPOCH + t;
}
static u64 monoNow() { if (cfg.clockMode >= 5 && cur) return 1000000000ull + now * 1000 + stalled(cur->rank); return cfg.clockMode == 2 ? 1000000000ull : 1000000000ull + now * 1000; }

// ---------------------------------------------------------------- stdio
struct CFile { std::string path; u64 pos; bool rd, wr, app; Rank *rank; u64 lastOff, lastLen; std::vector<u8> lastOld; FILE *fp; };
static std::set<CFile *> openC;
static bool full;
void streamsReset();
void stdioReset() { openC.clear(); full = false; streamsReset(); }
static ssize_t cRead(void *c, char *b, size_t n) {
    CFile *f = (CFile *)c;
    if (!f->rd) { errno = EBADF; return -1; }
    HostGuard g;
    bool half; if (cur && fileOpPoint(&half)) killNow();
    Rank *r = f->rank;
    i64 i = (i64)st.sReads++;
    if (cur) {
        if (faultAt(F_STDIO_READ, r->id, i)) { errno = EIO; return -1; }
        if (Fault *ft = faultAt(F_STDIO_READSHORT, r->id, i)) { size_t k = 1 + (size_t)ft->param % (n ? n : 1); if (k < n) n = k; }
    }
    auto &d = disk[f->path].data;
    u64 k = f->pos < d.size() ? std::min<u64>(n, d.size() - f->pos) : 0;
    if (k) memcpy(b, d.data() + f->pos, k);
    f->pos += k;
    return (ssize_t)k;
}
static ssize_t cWrite(void *c, const char *b, size_t n) {
    CFile *f = (CFile *)c;
    if (!f->wr) { errno = EBADF; return 0; }
    HostGuard g;
    bool half = false, kill = cur && fileOpPoint(&half);
    Rank *r = f->rank;
    i64 i = (i64)st.sWrites++;
    size_t k = n;
    if (f->app) f->pos = disk[f->path].data.size();
    if (cur) {
        if (faultAt(F_STDIO_ENOSPC, r->id, i)) full = true;
        if (faultAt(F_STDIO_WRITE, r->id, i)) { errno = EIO; return 0; }
        if (full) { errno = ENOSPC; return 0; }
        if (kill) k = half ? n / 2 : 0;
    }
    if (k) {
        logWrite(f->path, f->pos, k);
        auto &d = disk[f->path].data;
        f->lastOff = f->pos; f->lastLen = k; f->lastOld.clear();
        if (f->pos < d.size()) f->lastOld.assign(d.begin() + (i64)f->pos, d.begin() + (i64)std::min<u64>(d.size(), f->pos + k));
        applyWrite(f->path, f->pos, b, k);
    }
    f->pos += k;
    logEvent(0x61, f->pos, k);
    if (kill) killNow();
    return (ssize_t)k;
}
static int cSeek(void *c, off64_t *o, int wh) {
    CFile *f = (CFile *)c;
    HostGuard g;
    i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)f->pos : (i64)disk[f->path].data.size();
    if (base + *o < 0) { errno = EINVAL; return -1; }
    f->pos = (u64)(base + *o);
    *o = (off64_t)f->pos;
    return 0;
}
static int cClose(void *c) {
    CFile *f = (CFile *)c;
    HostGuard g;
    int rc = 0;
    if (cur && f->wr) {
        i64 i = (i64)st.sCloses++;
        if (faultAt(F_STDIO_CLOSE, f->rank->id, i)) {
            auto &d = disk[f->path].data;
            for (u64 j = 0; j < f->lastLen && f->lastOff + j < d.size(); j++) d[f->lastOff + j] = j < f->lastOld.size() ? f->lastOld[j] : 0;
            errno = EIO; rc = -1;
        }
    }
    openC.erase(f);
    delete f;
    return rc;
}
void stdioAtExit(Rank *r) {   // exit() flushes and closes what is open
    HostGuard g;
    std::vector<CFile *> v;
    for (CFile *f : openC) if (f->rank == r) v.push_back(f);
    std::sort(v.begin(), v.end(), [](CFile *a, CFile *b) { return a->path < b->path; });
    for (CFile *f : v) fclose(f->fp);
}
static FILE *deckOpen(const char *path);
static bool isDeckPath(const char *path);
static CFile *simOpenFile(const char *path, const char *mode) {
    callCost("fopen");
    bool half; if (fileOpPoint(&half)) killNow();
    Rank *r = cur->rank;
    i64 i = (i64)st.sOpens++;
    if (faultAt(F_STDIO_OPEN, r->id, i)) { errno = EACCES; return nullptr; }
    bool exists = disk.count(path), plus = strchr(mode, '+'), x = strchr(mode, 'x');
    CFile *f = new CFile();
    f->path = path; f->rank = r;
    f->rd = mode[0] == 'r' || plus;
    f->wr = mode[0] != 'r' || plus;
    f->app = mode[0] == 'a';
    if ((mode[0] == 'r' && !exists) || (x && exists)) { errno = exists ? EEXIST : ENOENT; delete f; return nullptr; }
    if (mode[0] == 'w') { disk[path].data.clear(); }
    if (mode[0] == 'a' && !exists) disk[path] = DiskFile();
    openC.insert(f);
    logEvent(0x62, f->rd, f->wr);
    return f;
}
static bool realPath(const char *path) { return !strncmp(path, "/proc/self/fd/", 14) || !strncmp(path, "/dev/", 5); }
static FILE *simOpen(const char *path, const char *mode) {
    HostGuard g;
    if (realPath(path)) return fopen(path, mode);
    if (isDeckPath(path)) return deckOpen(path);
    CFile *f = simOpenFile(path, mode);
    if (!f) return nullptr;
    cookie_io_functions_t io = {cRead, cWrite, cSeek, cClose};
    return f->fp = fopencookie(f, mode, io);
}
extern "C" {
FILE *__wrap_fopen(const char *p, const char *m) { return cur && !cur->hostDepth ? simOpen(p, m) : fopen(p, m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
int __wrap_unlink(const char *p) {
    if (!cur || cur->hostDepth) { errno = ENOENT; return -1; }
    HostGuard g;
    callCost("unlink");
    bool half; if (fileOpPoint(&half)) { if (half) disk.erase(p); killNow(); }
    if (!disk.erase(p)) { errno = ENOENT; return -1; }
    return 0;
}
int __wrap_remove(const char *p) { return __wrap_unlink(p); }
int __wrap_rename(const char *a, const char *b) {
    if (!cur || cur->hostDepth) { errno = ENOENT; return -1; }
    HostGuard g;
    callCost("rename");
    auto mv = [&]() { disk[b] = disk[a]; disk.erase(a); };
    bool half; if (fileOpPoint(&half)) { if (half && disk.count(a)) mv(); killNow(); }
    if (!disk.count(a)) { errno = ENOENT; return -1; }
    mv();
    return 0;
}
// ---------------------------------------------------------------- exit and signals
void __wrap_abort() { if (!cur) abort(); rankAbort("abort"); for (;;) {} }
void __wrap_exit(int c) { if (!cur) exit(c); rankExit(c, "exit"); }
void __wrap__exit(int c) { if (!cur) _exit(c); cur->hostDepth++; jobEnd(c ? J_FAILED : J_OK, cur->rank->id, c, "_exit"); }
void __wrap__Exit(int c) { __wrap__exit(c); }
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *) {
    if (cur) { HostGuard g; rankOut[cur->rank->id] += std::string("assert ") + e + " " + f + ":" + std::to_string(l) + "\n"; }
    __wrap_abort();
}
typedef void (*SigH)(int);
SigH __wrap_signal(int s, SigH h) {
    if (!cur) return nullptr;
    if (s < 1 || s > 64) return SIG_ERR;
    SigH o = cur->rank->sigh[s];
    cur->rank->sigh[s] = h;
    return o;
}
int __wrap_sigaction(int s, const struct sigaction *a, struct sigaction *) {
    if (cur && a && s >= 1 && s <= 64) cur->rank->sigh[s] = a->sa_handler;
    return 0;
}
int __wrap_raise(int s) {
    if (!cur) return raise(s);
    if (s == 6) rankAbort("raise");
    SigH h = s >= 1 && s <= 64 ? cur->rank->sigh[s] : nullptr;
    if (h == SIG_IGN) return 0;
    if (h) { h(s); return 0; }
    jobEnd(J_FAILED, cur->rank->id, 128 + s, "raise");
}
int __wrap_backtrace(void **, int) { return 0; }
char **__wrap_backtrace_symbols(void *const *, int) { return nullptr; }
void __wrap_backtrace_symbols_fd(void *const *, int, int) {}
// ---------------------------------------------------------------- random numbers, time
int __wrap_rand() { if (!cur) return rand(); u64 h = hash64(cur->rank->randState++ + 0x5151); return (int)(h & 0x7fffffff); }
void __wrap_srand(unsigned s) { if (cur) cur->rank->randState = s * 2654435761u + 1; }
long __wrap_random() { return __wrap_rand(); }
void __wrap_srandom(unsigned s) { __wrap_srand(s); }
double __wrap_drand48() { return __wrap_rand() / 2147483648.0; }
void __wrap_srand48(long s) { __wrap_srand((unsigned)s); }
time_t __wrap_time(time_t *t) { time_t v = cur ? (time_t)(clockNow(cur->rank) / 1000000000ull) : 0; if (t) *t = v; return v; }
int __wrap_gettimeofday(struct timeval *t, void *) { u64 n = cur ? clockNow(cur->rank) : 0; t->tv_sec = (time_t)(n / 1000000000ull); t->tv_usec = (suseconds_t)(n / 1000 % 1000000); return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
    u64 n = !cur ? 0 : c == CLOCK_REALTIME ? clockNow(cur->rank) : monoNow();
    t->tv_sec = (time_t)(n / 1000000000ull); t->tv_nsec = (long)(n % 1000000000ull);
    return 0;
}
clock_t __wrap_clock() { return (clock_t)now; }
i64 __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return cur ? (i64)clockNow(cur->rank) : 0; }
i64 __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return (i64)monoNow(); }
int __wrap_usleep(useconds_t n) { if (cur) { HostGuard g; fibSleep(1 + n); } return 0; }
unsigned __wrap_sleep(unsigned n) { if (cur) { HostGuard g; fibSleep(1 + (u64)n * 1000000); } return 0; }
int __wrap_nanosleep(const struct timespec *t, struct timespec *) { if (cur) { HostGuard g; fibSleep(1 + (u64)t->tv_sec * 1000000 + (u64)t->tv_nsec / 1000); } return 0; }
int __wrap_sched_yield() { if (cur) { HostGuard g; fibSleep(1 + (draw(S_THREAD) >> 8) % 20); } return 0; }
}

// ---------------------------------------------------------------- standard output
static ssize_t oWrite(void *, const char *b, size_t n) {
    if (!cur) return (ssize_t)n;
    HostGuard g;
    std::string &o = rankOut[cur->rank->id];
    if (o.size() < (1u << 20)) o.append(b, n);
    return (ssize_t)n;
}
struct OutBuf : std::streambuf {
    int overflow(int c) override { char x = (char)c; if (c != EOF) oWrite(nullptr, &x, 1); return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char *s, std::streamsize n) override { oWrite(nullptr, s, (size_t)n); return n; }
};
void captureOutput() {
    cookie_io_functions_t io = {nullptr, oWrite, nullptr, nullptr};
    FILE *f = fopencookie(nullptr, "w", io);
    setvbuf(f, nullptr, _IONBF, 0);
    stdout = f;
    FILE *e = fopencookie(nullptr, "w", io);
    setvbuf(e, nullptr, _IONBF, 0);
    stderr = e;
    std::cout.rdbuf(new OutBuf);
    std::cerr.rdbuf(new OutBuf);
}

// ---------------------------------------------------------------- the input deck
// An ordinary file read through C++ streams: the stream library's own open and
// read calls come here.
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <map>
#include <dlfcn.h>
static u64 deckIno, deckDev;
static std::string deckPath;
static std::set<std::pair<int, int>> deckCut;   // (rank, fd) at its supposed end
void deckIs(const std::string &path) {
    struct stat b;
    deckPath = path;
    deckIno = deckDev = 0;
    deckCut.clear();
    if (!stat(path.c_str(), &b)) { deckIno = b.st_ino; deckDev = b.st_dev; }
}
static bool isDeck(int fd) {
    struct stat b;
    return deckIno && !fstat(fd, &b) && b.st_ino == deckIno && b.st_dev == deckDev;
}
static bool isDeckPath(const char *path) { return deckIno && deckPath == path; }
// Simulated files opened by C++ streams: an empty file of the same length
// stands in for the position, the library's calls come here for the rest.
struct SFile { CFile *c; FILE *fp; };
static std::map<int, SFile> streams;
void streamsReset() { for (auto &p : streams) close(p.first); streams.clear(); }
static FILE *streamOpen(const char *path, const char *mode) {
    CFile *f = simOpenFile(path, mode);
    if (!f) return nullptr;
    int fd = (int)syscall(SYS_memfd_create, "stream", 0);
    (void)!ftruncate(fd, (off_t)disk[path].data.size());
    if (f->app) lseek(fd, 0, SEEK_END);
    FILE *fp = fdopen(fd, f->rd && f->wr ? "r+" : f->wr ? "w" : "r");
    f->fp = fp;
    streams[fd] = SFile{f, fp};
    return fp;
}
static SFile *stream(int fd) { auto it = cur ? streams.find(fd) : streams.end(); return it == streams.end() ? nullptr : &it->second; }
static ssize_t streamDo(SFile *s, int fd, void *p, size_t n, bool wr) {
    HostGuard g;
    s->c->pos = (u64)lseek(fd, 0, SEEK_CUR);
    errno = 0;
    ssize_t k = wr ? cWrite(s->c, (const char *)p, n) : cRead(s->c, (char *)p, n);
    if (wr && k == 0 && n) return -1;
    if (wr) (void)!ftruncate(fd, (off_t)disk[s->c->path].data.size());
    if (k > 0) lseek(fd, (off_t)s->c->pos, SEEK_SET);
    return k;
}
extern "C" int fclose(FILE *fp) {
    static int (*real)(FILE *);
    if (!real) real = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose");
    for (auto it = streams.begin(); it != streams.end(); ++it)
        if (it->second.fp == fp) {
            CFile *c = it->second.c;
            streams.erase(it);
            int rc = real(fp);
            return cur && cClose(c) ? EOF : rc;
        }
    return real(fp);
}
extern "C" ssize_t write(int fd, const void *p, size_t n) {
    if (SFile *s = stream(fd)) return streamDo(s, fd, (void *)p, n, true);
    return syscall(SYS_write, fd, p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec *v, int n) {
    if (SFile *s = stream(fd)) {
        ssize_t t = 0;
        for (int i = 0; i < n; i++) {
            if (!v[i].iov_len) continue;
            ssize_t k = streamDo(s, fd, v[i].iov_base, v[i].iov_len, true);
            if (k < 0) return t ? t : -1;
            t += k;
            if ((size_t)k < v[i].iov_len) break;
        }
        return t;
    }
    return syscall(SYS_writev, fd, v, n);
}
extern "C" ssize_t read(int fd, void *p, size_t n) {
    if (SFile *s = stream(fd)) return streamDo(s, fd, p, n, false);
    if (cur && isDeck(fd)) {
        HostGuard g;
        int r = cur->rank->id;
        i64 i = (i64)st.deckReads[r]++;
        if (deckCut.count({r, fd})) return 0;
        if (faultAt(F_DECK_EIO, r, i)) { errno = EIO; return -1; }
        Fault *cut = faultAt(F_DECK_CUT, r, i), *sh = faultAt(F_DECK_SHORT, r, i);
        if (sh && n) n = 1 + (size_t)sh->param % n;
        ssize_t k = syscall(SYS_read, fd, p, n);
        if (cut && k > 0) {   // the file ends after one of its lines
            std::vector<ssize_t> ends{0};
            for (ssize_t j = 0; j < k; j++) if (((char *)p)[j] == '\n') ends.push_back(j + 1);
            k = ends[(size_t)cut->param % ends.size()];
            deckCut.insert({r, fd});
        }
        return k;
    }
    return syscall(SYS_read, fd, p, n);
}
static FILE *realOpen(const char *path, const char *mode) {
    static FILE *(*real)(const char *, const char *);
    if (!real) real = (FILE *(*)(const char *, const char *))dlsym(RTLD_NEXT, "fopen");
    return real(path, mode);
}
extern "C" FILE *fopen(const char *path, const char *mode) {
    if (cur && isDeckPath(path)) {
        HostGuard g;
        int r = cur->rank->id;
        if (faultAt(F_DECK_OPEN, r, (i64)st.deckOpens[r]++)) { errno = EACCES; return nullptr; }
        FILE *f = realOpen(path, mode);
        if (f) deckCut.erase({r, fileno(f)});
        return f;
    }
    if (cur && !cur->hostDepth && !realPath(path)) { HostGuard g; return streamOpen(path, mode); }
    return realOpen(path, mode);
}
extern "C" FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
// the deck read by C functions
static FILE *deckOpen(const char *path) {
    FILE *f = fopen(path, "r");
    if (!f) return nullptr;
    cookie_io_functions_t io = {
        [](void *c, char *b, size_t n) { return read(fileno((FILE *)c), b, n); }, nullptr,
        [](void *c, off64_t *o, int wh) { off_t x = lseek(fileno((FILE *)c), *o, wh); if (x < 0) return -1; *o = x; return 0; },
        [](void *c) { return fclose((FILE *)c); }};
    return fopencookie(f, "r", io);
}
