/* LD_PRELOAD shim around the C library, loaded into the real command only.
 *
 *  HDMC_ETC=DIR      /etc/hongdown/... is looked up in DIR instead
 *  HDMC_ROOT=DIR     files below DIR are watched (also by relative paths)
 *  HDMC_LOG=FILE     one line per watched event: number, file index, operation, path, result
 *  HDMC_FAULT=N:E    event N fails with errno E            (several, separated by commas)
 *  HDMC_FAULT=N:sK   event N transfers at most K bytes
 *  HDMC_FAULT=N:kK   the process is killed at event N; a write leaves its first K bytes
 *  HDMC_FAIL=F:L:E   every event with letter L on file F fails with errno E (several, separated
 *                    by commas)
 *  HDMC_SCHED=...    file indices (one character each): the order in which events of the
 *                    files run. One thread runs at a time, from one event to the next.
 *  HDMC_POINTS=...   letters of the operations that are scheduling points
 *  HDMC_MALLOC=F:K   the thread that handles file F stops at its K-th allocation until the
 *                    other files are done or blocked
 *  HDMC_STDIN=1      standard input is watched as well
 *  HDMC_COUNT=1      log the number of allocations per file at exit
 *
 * The index of a file is the digit in its name's first two characters (f0.md, f1.md, ...).
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static const char *etc, *root, *points;
static char sched_buf[4096];
static int nsched, pos, logfd = -1, active, initialised, main_pid;
static long nevents;
static struct { long n; char kind; long k; } faults[64];
static int nfaults;
static struct { int file; char letter; int e; } fails[16];
static int nfails;
static int mfile = -1, counting;
static long mcount, allocs[10];
static volatile int mdone;

#define NFD 1024
static signed char fdfile[NFD]; /* 0: not watched; otherwise index + 2 (index -1: other file) */
static __thread int cur = -1, inside;
static int running; /* thread id of the only thread that may run, or 0 */
static __thread int tid;
static int blocked_total, reordered;
static volatile int waiting[10];
static volatile long progress;

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static int me(void) { if (!tid) tid = (int)raw(SYS_gettid, 0, 0, 0, 0, 0, 0); return tid; }

__attribute__((constructor)) static void init(void) {
    if (initialised) return;
    initialised = 1;
    main_pid = (int)raw(SYS_getpid, 0, 0, 0, 0, 0, 0);
    etc = getenv("HDMC_ETC");
    root = getenv("HDMC_ROOT");
    points = getenv("HDMC_POINTS");
    counting = getenv("HDMC_COUNT") != NULL;
    const char *s = getenv("HDMC_LOG");
    if (s) logfd = (int)raw(SYS_openat, AT_FDCWD, (long)s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644, 0, 0);
    if (logfd >= 0) { int d = fcntl(logfd, F_DUPFD_CLOEXEC, 900); if (d >= 0) { raw(SYS_close, logfd, 0, 0, 0, 0, 0); logfd = d; } }
    s = getenv("HDMC_SCHED");
    if (s) { nsched = (int)strlen(s); if (nsched > 4095) nsched = 4095; memcpy(sched_buf, s, nsched); }
    s = getenv("HDMC_FAULT");
    while (s && *s && nfaults < 64) {
        char *e;
        faults[nfaults].n = strtol(s, &e, 10);
        s = e + 1;
        faults[nfaults].kind = 'e';
        if (*s == 's' || *s == 'k') faults[nfaults].kind = *s++;
        faults[nfaults].k = strtol(s, &e, 10);
        nfaults++;
        s = *e == ',' ? e + 1 : e;
    }
    for (s = getenv("HDMC_FAIL"); s && *s && nfails < 16; ) {
        char *e;
        fails[nfails].file = s[0] - '0'; fails[nfails].letter = s[2];
        fails[nfails++].e = (int)strtol(s + 4, &e, 10);
        s = *e == ',' ? e + 1 : e;
    }
    s = getenv("HDMC_MALLOC");
    if (s) { mfile = s[0] - '0'; mcount = strtol(s + 2, NULL, 10); }
    if (getenv("HDMC_STDIN")) fdfile[0] = 1;
    /* the children of the command run without the shim */
    unsetenv("LD_PRELOAD");
    active = root != NULL;
}

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

static void note(long n, int file, const char *op, const char *path, long r) {
    if (logfd < 0) return;
    char b[600];
    int k = snprintf(b, sizeof b, "%ld %d %s %s %ld\n", n, file, op, path ? path : "-", r);
    if (k > (int)sizeof b - 1) k = sizeof b - 1;
    raw(SYS_write, logfd, (long)b, k, 0, 0, 0);
}

__attribute__((destructor)) static void end(void) {
    if (counting && logfd >= 0)
        for (int i = 0; i < 10; i++) if (allocs[i]) note(-1, i, "allocations", "-", allocs[i]);
    if (logfd >= 0 && nsched) note(-1, -1, pos < nsched ? "left" : "complete", "-", nsched - pos);
    if (logfd >= 0 && reordered) note(-1, -1, "reordered", "-", reordered);
    if (logfd >= 0 && blocked_total) note(-1, -1, "blocked", "-", blocked_total);
}

static void nap(void) { struct timespec t = {0, 20000}; raw(SYS_nanosleep, (long)&t, 0, 0, 0, 0, 0); }

/* The thread gives up its turn (it is about to wait for an event, or has nothing to do). */
static void release(void) {
    if (running && running == me()) __atomic_store_n(&running, 0, __ATOMIC_SEQ_CST);
}

/* Whose turn it is: the next one of the schedule, but if that thread waits for a lock, the
 * first later one of another file. The caller holds `mu`. */
static int my_turn(void) {
    if (running) return 0;
    int next = sched_buf[pos] - '0';
    if (next == cur) return 1;
    if (next < 0 || next > 9 || !waiting[next]) return 0;
    for (int i = pos + 1; i < nsched; i++) {
        if (sched_buf[i] - '0' == next) continue;
        if (sched_buf[i] - '0' != cur) return 0;
        memmove(sched_buf + pos + 1, sched_buf + pos, i - pos);
        sched_buf[pos] = '0' + cur;
        reordered++;
        return 1;
    }
    return 0;
}

/* Wait for the turn of the event; on return the caller holds `mu`. */
static void turn(char letter) {
    int scheduled = nsched && cur >= 0 && (!points || strchr(points, letter));
    if (nsched && scheduled) {
        release();
        long seen = progress;
        int idle = 0;
        for (;;) {
            pthread_mutex_lock(&mu);
            if (pos >= nsched || my_turn()) break;
            pthread_mutex_unlock(&mu);
            nap();
            if (progress != seen) { seen = progress; idle = 0; }
            else if (++idle > 5000) { /* about 0.4 s without any progress: the order is infeasible */
                pthread_mutex_lock(&mu);
                if (pos < nsched) { note(-1, cur, "infeasible", "-", pos); pos = nsched = 0; }
                break;
            }
        }
        if (pos < nsched) { pos++; running = me(); progress++; }
        return;
    }
    pthread_mutex_lock(&mu);
}

static int index_of(const char *p) {
    const char *b = strrchr(p, '/');
    b = b ? b + 1 : p;
    for (int i = 0; i < 2 && b[i]; i++) if (b[i] >= '0' && b[i] <= '9') return b[i] - '0';
    return -1;
}
static int watched(const char *p) {
    if (!active || !p) return 0;
    if (p[0] != '/') return 1;
    size_t n = strlen(root);
    return strncmp(p, root, n) == 0;
}

/* Begin an event: returns 0 if it is to be done, otherwise it fails with errno set; *limit
 * is the number of bytes it may transfer. The caller holds `mu` until done(). */
struct ev { long n; const char *op; const char *path; int file; long limit; int kill; };
static int begin(struct ev *e, char letter, const char *op, const char *path) {
    turn(letter);
    e->n = nevents++;
    e->op = op; e->path = path; e->file = cur; e->limit = -1; e->kill = 0;
    for (int i = 0; i < nfails; i++) if (fails[i].file == cur && fails[i].letter == letter) {
        note(e->n, cur, op, path, -fails[i].e);
        pthread_mutex_unlock(&mu);
        errno = fails[i].e;
        return -1;
    }
    for (int i = 0; i < nfaults; i++) if (faults[i].n == e->n) {
        if (faults[i].kind == 'e') { note(e->n, cur, op, path, -faults[i].k); pthread_mutex_unlock(&mu); errno = (int)faults[i].k; return -1; }
        if (faults[i].kind == 's') e->limit = faults[i].k;
        if (faults[i].kind == 'k') {
            e->kill = 1; e->limit = faults[i].k;
            if (letter != 'w' || e->limit == 0) { note(e->n, cur, op, path, -999); raw(SYS_kill, main_pid, SIGKILL, 0, 0, 0, 0); for (;;) nap(); }
        }
    }
    return 0;
}
static long done(struct ev *e, long r) {
    int er = errno;
    note(e->n, e->file, e->op, e->path, r < 0 ? -er : r);
    if (e->kill) { raw(SYS_kill, main_pid, SIGKILL, 0, 0, 0, 0); for (;;) nap(); }
    pthread_mutex_unlock(&mu);
    errno = er;
    return r;
}

static const char *redirect(const char *p, char *buf, size_t n) {
    if (!etc || !p || strncmp(p, "/etc/hongdown", 13)) return p;
    snprintf(buf, n, "%s%s", etc, p + 13);
    return buf;
}

static int do_open(int dir, const char *path, int flags, mode_t mode) {
    char buf[4096];
    path = redirect(path, buf, sizeof buf);
    REAL(int, openat64, int, const char *, int, ...);
    if (!watched(path) || inside || (flags & O_DIRECTORY)) return real_openat64(dir, path, flags, mode);
    int writing = (flags & O_ACCMODE) != O_RDONLY;
    int i = index_of(path);
    if (i >= 0) cur = i;
    struct ev e;
    if (begin(&e, writing ? 'O' : 'o', writing ? (flags & O_TRUNC ? "create" : "openw") : "open", path)) return -1;
    int fd = real_openat64(dir, path, flags, mode);
    if (fd >= 0 && fd < NFD) fdfile[fd] = (signed char)((i >= 0 ? i : -1) + 2);
    return (int)done(&e, fd);
}
int open64(const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(AT_FDCWD, p, f, m); }
int open(const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(AT_FDCWD, p, f, m); }
int openat64(int d, const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(d, p, f, m); }
int openat(int d, const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(d, p, f, m); }

static int tracked(int fd) { return active && fd >= 0 && fd < NFD && fdfile[fd]; }
static const char *name(int fd) {
    static __thread char b[8];
    if (fd == 0) return "stdin";
    if (fd == 1) return "stdout";
    if (fd == 2) return "stderr";
    snprintf(b, sizeof b, "f%d", fdfile[fd] - 2);
    return b;
}

ssize_t read(int fd, void *b, size_t n) {
    if (!tracked(fd)) return syscall(SYS_read, fd, b, n);
    struct ev e;
    if (begin(&e, 'r', "read", name(fd))) return -1;
    if (e.limit >= 0 && (size_t)e.limit < n) n = (size_t)e.limit;
    return done(&e, syscall(SYS_read, fd, b, n));
}
static ssize_t do_write(int fd, const void *b, size_t n) {
    int std = fd == 1 || fd == 2;
    if (!(tracked(fd) || (active && std))) return syscall(SYS_write, fd, b, n);
    struct ev e;
    /* a message may be written in parts; only the last one counts as printing */
    int part = std && n && ((const char *)b)[n - 1] != '\n';
    if (begin(&e, part ? 'q' : std ? 'p' : 'w', part ? "part" : "write", name(fd))) return -1;
    if (e.limit >= 0 && (size_t)e.limit < n) n = (size_t)e.limit;
    return done(&e, syscall(SYS_write, fd, b, n));
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!(tracked(fd) || (active && (fd == 1 || fd == 2)))) return syscall(SYS_writev, fd, v, n);
    struct ev e;
    int std = fd == 1 || fd == 2;
    if (begin(&e, std ? 'p' : 'w', "write", name(fd))) return -1;
    struct iovec one = v[0];
    if (e.limit >= 0) { if ((size_t)e.limit < one.iov_len) one.iov_len = (size_t)e.limit; return done(&e, syscall(SYS_writev, fd, &one, 1)); }
    return done(&e, syscall(SYS_writev, fd, v, n));
}
int close(int fd) {
    if (!tracked(fd)) return (int)syscall(SYS_close, fd);
    struct ev e;
    const char *nm = name(fd);
    if (begin(&e, 'c', "close", nm)) { int er = errno; syscall(SYS_close, fd); fdfile[fd] = 0; errno = er; return -1; }
    fdfile[fd] = 0;
    return (int)done(&e, syscall(SYS_close, fd));
}
#define ON_FD(nm, letter, proto, call, args) \
    int nm proto { \
        if (!tracked(fd)) { REAL(int, nm, int, ...); return real_##nm args; } \
        struct ev e; REAL(int, nm, int, ...); \
        if (begin(&e, letter, #nm, name(fd))) return -1; \
        return (int)done(&e, real_##nm args); }
ON_FD(fsync, 's', (int fd), fsync, (fd))
ON_FD(fdatasync, 's', (int fd), fdatasync, (fd))
ON_FD(ftruncate64, 't', (int fd, off64_t l), ftruncate64, (fd, l))

static int two(const char *op, long nr, int d1, const char *a, int d2, const char *b, unsigned fl) {
    if (!watched(a) && !watched(b)) return (int)syscall(nr, d1, a, d2, b, fl);
    struct ev e;
    if (begin(&e, 'm', op, b)) return -1;
    return (int)done(&e, syscall(nr, d1, a, d2, b, fl));
}
int rename(const char *a, const char *b) { return two("rename", SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return two("rename", SYS_renameat2, d1, a, d2, b, f); }
int unlink(const char *p) {
    if (!watched(p)) return (int)syscall(SYS_unlink, p);
    struct ev e;
    if (begin(&e, 'm', "unlink", p)) return -1;
    return (int)done(&e, syscall(SYS_unlink, p));
}

/* /etc only */
int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict s) { char b[4096]; p = redirect(p, b, sizeof b); return (int)syscall(SYS_statx, d, p, f, m, s); }
int access(const char *p, int m) { char b[4096]; return (int)syscall(SYS_faccessat, AT_FDCWD, redirect(p, b, sizeof b), m); }
int stat64(const char *restrict p, struct stat64 *restrict s) { char b[4096]; REAL(int, stat64, const char *, struct stat64 *); return real_stat64(redirect(p, b, sizeof b), s); }
int lstat64(const char *restrict p, struct stat64 *restrict s) { char b[4096]; REAL(int, lstat64, const char *, struct stat64 *); return real_lstat64(redirect(p, b, sizeof b), s); }
char *realpath(const char *restrict p, char *restrict r) { char b[4096]; REAL(char *, realpath, const char *, char *); return real_realpath(redirect(p, b, sizeof b), r); }

/* Places where a thread has nothing to do, or waits for another one */
int sched_yield(void) { if (nsched || mfile >= 0) { release(); nap(); } return (int)raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
long syscall(long n, ...) {
    va_list a; va_start(a, n);
    long v[6];
    for (int i = 0; i < 6; i++) v[i] = va_arg(a, long);
    va_end(a);
    if (n == SYS_futex && (nsched || mfile >= 0)) {
        int op = (int)v[1] & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (running && running == me() && cur >= 0) blocked_total++;
            release();
            if (cur >= 0 && cur < 10) {
                waiting[cur] = 1;
                long r = raw(n, v[0], v[1], v[2], v[3], v[4], v[5]);
                waiting[cur] = 0;
                if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
                return r;
            }
        }
    }
    long r = raw(n, v[0], v[1], v[2], v[3], v[4], v[5]);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

/* Allocations as preemption points */
extern void *__libc_malloc(size_t);
extern void *__libc_realloc(void *, size_t);
static long others(void) { return progress; }
static void alloc_point(void) {
    if (inside || cur < 0) return;
    if (counting) { __atomic_add_fetch(&allocs[cur], 1, __ATOMIC_RELAXED); return; }
    if (mfile != cur || mdone) return;
    if (--mcount > 0) return;
    mdone = 1;
    inside = 1;
    note(-1, cur, "preempted", "-", 0);
    /* wait until nothing has happened for a while: the others are done, or wait for us */
    long seen = -1; int idle = 0;
    while (idle < 60) {
        nap();
        long p = nevents + others();
        if (p != seen) { seen = p; idle = 0; } else idle++;
    }
    note(-1, cur, "resumed", "-", nevents);
    inside = 0;
}
void *malloc(size_t n) { if (active && (counting || mfile >= 0)) alloc_point(); return __libc_malloc(n); }
void *realloc(void *p, size_t n) { if (active && (counting || mfile >= 0)) alloc_point(); return __libc_realloc(p, n); }
