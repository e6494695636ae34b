/*
 * Storage seam of the simulator.
 *
 * Preloaded into the simulated process, it sits between the Python runtime and
 * libc and owns every call that changes the file system.  Files below one root
 * directory form the simulated disk: each call on them is numbered, logged and
 * offered to the fault plan.  While the simulator is armed, a mutation of
 * anything outside the root is logged and refused.
 *
 * It draws no randomness and reads no clock: what it does is a function of the
 * plan it was given and of the calls it sees.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <time.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXFAULT 64
#define LOGCAP (8 << 20)
#define EXPORT __attribute__((visibility("default")))

enum { OP_OPEN = 1, OP_WRITE = 2, OP_CLOSE = 4, OP_SYNC = 8, OP_RENAME = 16,
       OP_UNLINK = 32, OP_TRUNC = 64, OP_META = 128 };
enum { F_ERR = 1, F_SHORT = 2, F_EINTR = 3, F_SIGINT = 4,
       F_CRASH_BEFORE = 5, F_CRASH_AFTER = 6, F_CRASH_PARTIAL = 7,
       F_HANG = 8 };

struct fault {
    int ordinal, opmask, kind, err, sticky, seen, fired;
    volatile int hanging;               /* 1 waits, 2 noticed, 3 may go on */
    long arg;
    char match[96];
};

static int armed;
static char root[PATH_MAX];
static size_t rootlen;
static char *fdpath[MAXFD];
static struct fault faults[MAXFAULT];
static int nfaults;
static char *logbuf;
static size_t loglen;
static long opcount, opcap = 100000, outside;

static void *real(const char *name)
{
    void *p = dlsym(RTLD_NEXT, name);
    if (!p) { fprintf(stderr, "shim: no %s\n", name); abort(); }
    return p;
}
#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = real(#name)

static void logline(const char *fmt, ...)
{
    va_list ap;
    int n;
    if (!logbuf || loglen + 1024 > LOGCAP) return;
    va_start(ap, fmt);
    n = vsnprintf(logbuf + loglen, LOGCAP - loglen, fmt, ap);
    va_end(ap);
    if (n > 0) loglen += n;
}

/*
 * Several simulated processes: before and after each operation on the simulated
 * disk, while it waits for a file lock and while it sleeps, a process hands control
 * back and goes on when it is told to.
 */
static int gate_out = -1, gate_in = -1;

static void gate(char what)
{
    char token;
    if (gate_out < 0) return;
    int saved = errno;
    while (syscall(SYS_write, gate_out, &what, 1) < 0 && errno == EINTR) ;
    for (;;) {
        long n = syscall(SYS_read, gate_in, &token, 1);
        if (n == 1) break;
        if (n == 0) _exit(79);
        if (errno != EINTR) _exit(79);
    }
    errno = saved;
}
EXPORT void sim_gate(int out, int in) { gate_out = out; gate_in = in; }
EXPORT void sim_yield(void) { gate('Z'); }

/* ---- control interface -------------------------------------------------- */

EXPORT void sim_reset(const char *r)
{
    char tmp[PATH_MAX];
    if (!logbuf) logbuf = malloc(LOGCAP);
    if (realpath(r, tmp)) strcpy(root, tmp); else strncpy(root, r, PATH_MAX - 1);
    rootlen = strlen(root);
    nfaults = 0; loglen = 0; logbuf[0] = 0; opcount = 0; outside = 0; armed = 0;
    for (int i = 0; i < MAXFD; i++) { free(fdpath[i]); fdpath[i] = 0; }
}
EXPORT void sim_arm(int on) { armed = on; }
EXPORT int sim_armed(void) { return armed; }
EXPORT void sim_opcap(long cap) { opcap = cap; }
EXPORT int sim_add_fault(int ordinal, int opmask, int kind, int err, long arg,
                         int sticky, const char *match)
{
    if (nfaults >= MAXFAULT) return -1;
    struct fault *f = &faults[nfaults];
    memset(f, 0, sizeof *f);
    f->ordinal = ordinal; f->opmask = opmask; f->kind = kind; f->err = err;
    f->arg = arg; f->sticky = sticky;
    strncpy(f->match, match, sizeof f->match - 1);
    return nfaults++;
}
EXPORT void sim_clear_faults(void) { nfaults = 0; }
EXPORT int sim_fault_fired(int i) { return i < nfaults ? faults[i].fired : -1; }
static volatile int over;
/* Waits until an operation hangs and returns its index; -1 after sim_over(). */
EXPORT int sim_hanging(void)
{
    struct timespec pause = { 0, 200000 };
    for (;; nanosleep(&pause, 0)) {
        for (int i = 0; i < nfaults; i++)
            if (faults[i].hanging == 1) { faults[i].hanging = 2; return i; }
        if (over) return -1;
    }
}
EXPORT void sim_over(void) { over = 1; }
EXPORT void sim_go_on(int i) { if (i >= 0 && i < nfaults) faults[i].hanging = 3; }
EXPORT const char *sim_log(void) { return logbuf ? logbuf : ""; }
EXPORT void sim_log_clear(void) { loglen = 0; if (logbuf) logbuf[0] = 0; }
EXPORT long sim_opcount(void) { return opcount; }
EXPORT long sim_outside(void) { return outside; }
EXPORT int sim_open_fds(void)
{
    int n = 0;
    for (int i = 0; i < MAXFD; i++) if (fdpath[i]) n++;
    return n;
}

/* ---- path handling ------------------------------------------------------ */

static void absolute(int dirfd, const char *path, char *out)
{
    char base[PATH_MAX], raw[2 * PATH_MAX], link[64];
    ssize_t n;
    if (path[0] == '/') { snprintf(raw, sizeof raw, "%s", path); }
    else {
        if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) base[0] = 0; }
        else {
            snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
            n = readlink(link, base, sizeof base - 1);
            base[n > 0 ? n : 0] = 0;
        }
        snprintf(raw, sizeof raw, "%s/%s", base, path);
    }
    /* resolve the parent directory, keep the last component as given */
    char *slash = strrchr(raw, '/');
    char last[PATH_MAX];
    snprintf(last, sizeof last, "%s", slash + 1);
    *slash = 0;
    if (!realpath(raw[0] ? raw : "/", base)) snprintf(base, sizeof base, "%s", raw);
    snprintf(out, PATH_MAX, "%s/%s", strcmp(base, "/") ? base : "", last);
}
static int inside(const char *p)
{
    return rootlen && !strncmp(p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen]);
}
static int exempt(const char *p)
{
    return !strncmp(p, "/dev/", 5) || !strncmp(p, "/proc/", 6) || !strncmp(p, "/sys/", 5);
}
static const char *rel(const char *p) { return inside(p) ? p + rootlen + 1 : p; }

static const char *opname(int op)
{
    switch (op) {
    case OP_OPEN: return "open"; case OP_WRITE: return "write";
    case OP_CLOSE: return "close"; case OP_SYNC: return "sync";
    case OP_RENAME: return "rename"; case OP_UNLINK: return "unlink";
    case OP_TRUNC: return "trunc"; default: return "meta";
    }
}

/* Offers one numbered operation to the plan; returns the fault to apply. */
static struct fault *consult(int op, const char *path)
{
    struct fault *hit = 0;
    gate('b');
    if (++opcount > opcap) { logline("CAP\n"); _exit(78); }
    for (int i = 0; i < nfaults; i++) {
        struct fault *f = &faults[i];
        if (!(f->opmask & op)) continue;
        if (f->match[0] && !strstr(rel(path), f->match)) continue;
        int k = f->seen++;
        if (!hit && (k == f->ordinal || (f->sticky && k > f->ordinal))) hit = f;
    }
    if (hit) {
        hit->fired++;
        if (hit->kind == F_CRASH_BEFORE) _exit(77);
        if (hit->kind == F_HANG) {
            struct timespec pause = { 0, 200000 };
            logline("HANG %s %s\n", opname(op), rel(path));
            hit->hanging = 1;
            while (hit->hanging != 3) nanosleep(&pause, 0);
        }
    }
    return hit;
}
static int refuse(int op, const char *path)
{
    outside++;
    logline("OUTSIDE %s %s\n", opname(op), path);
    errno = EPERM;
    return -1;
}
/* Common handling of an operation that can only succeed or fail as a whole. */
static int pre(int op, const char *path, struct fault **f)
{
    *f = consult(op, path);
    if (*f && ((*f)->kind == F_ERR || ((*f)->kind == F_HANG && (*f)->err))) {
        logline("%s %s -> errno %d\n", opname(op), rel(path), (*f)->err);
        errno = (*f)->err;
        return -1;
    }
    if (*f && ((*f)->kind == F_EINTR || (*f)->kind == F_SIGINT)) {
        logline("%s %s -> EINTR%s\n", opname(op), rel(path),
                (*f)->kind == F_SIGINT ? "+SIGINT" : "");
        if ((*f)->kind == F_SIGINT) raise(SIGINT);
        errno = EINTR;
        return -1;
    }
    return 0;
}
static void post(struct fault *f)
{
    if (f && (f->kind == F_CRASH_AFTER || f->kind == F_CRASH_PARTIAL)) _exit(77);
    gate('a');
}

/* ---- interposed calls --------------------------------------------------- */

static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    REAL(int, openat, int, const char *, int, ...);
    int writing = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (!armed || !path || !writing) return real_openat(dirfd, path, flags, mode);
    char abs[PATH_MAX];
    absolute(dirfd, path, abs);
    if (!inside(abs)) {
        if (exempt(abs)) return real_openat(dirfd, path, flags, mode);
        return refuse(OP_OPEN, abs);
    }
    struct fault *f;
    if (pre(OP_OPEN, abs, &f)) return -1;
    int fd = real_openat(dirfd, path, flags, mode);
    logline("open %s %s%s%s%s -> %s\n", rel(abs), flags & O_TRUNC ? "T" : "-",
            flags & O_APPEND ? "A" : "-", flags & O_CREAT ? "C" : "-",
            flags & O_EXCL ? "X" : "-", fd >= 0 ? "ok" : "fail");
    if (fd >= 0 && fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = strdup(abs); }
    post(f);
    return fd;
}
#define OPENBODY(dirfd) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); \
        mode = va_arg(ap, mode_t); va_end(ap); } \
    return do_open(dirfd, path, flags, mode)
EXPORT int open(const char *path, int flags, ...) { OPENBODY(AT_FDCWD); }
EXPORT int open64(const char *path, int flags, ...) { OPENBODY(AT_FDCWD); }
EXPORT int openat(int d, const char *path, int flags, ...) { OPENBODY(d); }
EXPORT int openat64(int d, const char *path, int flags, ...) { OPENBODY(d); }
EXPORT int creat(const char *path, mode_t mode)
{ return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
EXPORT int creat64(const char *path, mode_t mode)
{ return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static ssize_t do_write(int fd, const void *buf, size_t n, int positioned, off_t off)
{
    REAL(ssize_t, write, int, const void *, size_t);
    REAL(ssize_t, pwrite, int, const void *, size_t, off_t);
    if (!armed || fd < 0 || fd >= MAXFD || !fdpath[fd])
        return positioned ? real_pwrite(fd, buf, n, off) : real_write(fd, buf, n);
    const char *p = fdpath[fd];
    struct fault *f;
    if (pre(OP_WRITE, p, &f)) return -1;
    size_t m = n;
    if (f && (f->kind == F_SHORT || f->kind == F_CRASH_PARTIAL)) {
        /* arg is in 1/1000 of the request; a short write moves at least a byte */
        m = (size_t)((double)n * f->arg / 1000.0);
        if (m > n) m = n;
        if (m == 0 && n > 0 && f->kind == F_SHORT) m = 1;
    }
    ssize_t r = positioned ? real_pwrite(fd, buf, m, off) : real_write(fd, buf, m);
    logline("write %s %zu -> %zd\n", rel(p), n, r);
    post(f);
    return r;
}
EXPORT ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n, 0, 0); }
EXPORT ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) { return do_write(fd, buf, n, 1, o); }
EXPORT ssize_t pwrite64(int fd, const void *buf, size_t n, off_t o) { return do_write(fd, buf, n, 1, o); }
EXPORT ssize_t writev(int fd, const struct iovec *iov, int cnt)
{
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!armed || fd < 0 || fd >= MAXFD || !fdpath[fd]) return real_writev(fd, iov, cnt);
    ssize_t total = 0;
    for (int i = 0; i < cnt; i++) {
        ssize_t r = do_write(fd, iov[i].iov_base, iov[i].iov_len, 0, 0);
        if (r < 0) return total ? total : -1;
        total += r;
        if ((size_t)r < iov[i].iov_len) break;
    }
    return total;
}

EXPORT int close(int fd)
{
    REAL(int, close, int);
    if (fd < 0 || fd >= MAXFD || !fdpath[fd]) return real_close(fd);
    char p[PATH_MAX];
    snprintf(p, sizeof p, "%s", fdpath[fd]);
    free(fdpath[fd]);
    fdpath[fd] = 0;
    if (!armed) return real_close(fd);
    struct fault *f = consult(OP_CLOSE, p);
    int r = real_close(fd);             /* Linux: the descriptor is gone either way */
    if (f && (f->kind == F_ERR || (f->kind == F_HANG && f->err))) {
        logline("close %s -> errno %d\n", rel(p), f->err);
        errno = f->err;
        return -1;
    }
    if (f && (f->kind == F_EINTR || f->kind == F_SIGINT)) {
        logline("close %s -> EINTR\n", rel(p));
        if (f->kind == F_SIGINT) raise(SIGINT);
        errno = EINTR;
        return -1;
    }
    logline("close %s -> %d\n", rel(p), r);
    post(f);
    return r;
}

#define FDOP(name, op, sig, call) \
EXPORT int name sig { \
    static int (*r_) sig; \
    if (!r_) r_ = real(#name); \
    if (!armed || fd < 0 || fd >= MAXFD || !fdpath[fd]) return r_ call; \
    struct fault *f; \
    if (pre(op, fdpath[fd], &f)) return -1; \
    int r = r_ call; \
    logline("%s %s -> %d\n", opname(op), rel(fdpath[fd]), r); \
    post(f); \
    return r; }
FDOP(fsync, OP_SYNC, (int fd), (fd))
FDOP(fdatasync, OP_SYNC, (int fd), (fd))
FDOP(ftruncate, OP_TRUNC, (int fd, off_t n), (fd, n))
FDOP(ftruncate64, OP_TRUNC, (int fd, off64_t n), (fd, n))
FDOP(fchmod, OP_META, (int fd, mode_t m), (fd, m))

#define PATHOP(name, op, sig, call, dirfd, path) \
EXPORT int name sig { \
    static int (*r_) sig; \
    if (!r_) r_ = real(#name); \
    if (!armed) return r_ call; \
    char abs[PATH_MAX]; \
    absolute(dirfd, path, abs); \
    if (!inside(abs)) { if (exempt(abs)) return r_ call; return refuse(op, abs); } \
    struct fault *f; \
    if (pre(op, abs, &f)) return -1; \
    int r = r_ call; \
    logline("%s %s -> %d\n", opname(op), rel(abs), r); \
    post(f); \
    return r; }
PATHOP(unlink, OP_UNLINK, (const char *p), (p), AT_FDCWD, p)
PATHOP(unlinkat, OP_UNLINK, (int d, const char *p, int fl), (d, p, fl), d, p)
PATHOP(remove, OP_UNLINK, (const char *p), (p), AT_FDCWD, p)
PATHOP(rmdir, OP_UNLINK, (const char *p), (p), AT_FDCWD, p)
PATHOP(mkdir, OP_META, (const char *p, mode_t m), (p, m), AT_FDCWD, p)
PATHOP(mkdirat, OP_META, (int d, const char *p, mode_t m), (d, p, m), d, p)
PATHOP(truncate, OP_TRUNC, (const char *p, off_t n), (p, n), AT_FDCWD, p)
PATHOP(truncate64, OP_TRUNC, (const char *p, off64_t n), (p, n), AT_FDCWD, p)
PATHOP(chmod, OP_META, (const char *p, mode_t m), (p, m), AT_FDCWD, p)
PATHOP(fchmodat, OP_META, (int d, const char *p, mode_t m, int fl), (d, p, m, fl), d, p)
PATHOP(symlink, OP_META, (const char *t, const char *p), (t, p), AT_FDCWD, p)
PATHOP(symlinkat, OP_META, (const char *t, int d, const char *p), (t, d, p), d, p)
PATHOP(link, OP_META, (const char *t, const char *p), (t, p), AT_FDCWD, p)
PATHOP(linkat, OP_META, (int a, const char *t, int d, const char *p, int fl), (a, t, d, p, fl), d, p)
PATHOP(mkfifo, OP_META, (const char *p, mode_t m), (p, m), AT_FDCWD, p)

static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl)
{
    if (!armed) return syscall(SYS_renameat2, d1, a, d2, b, fl);
    char p1[PATH_MAX], p2[PATH_MAX];
    absolute(d1, a, p1);
    absolute(d2, b, p2);
    if (!inside(p1)) return refuse(OP_RENAME, p1);
    if (!inside(p2)) return refuse(OP_RENAME, p2);
    struct fault *f;
    if (pre(OP_RENAME, p2, &f)) return -1;
    int r = syscall(SYS_renameat2, d1, a, d2, b, fl);
    logline("rename %s %s -> %d\n", rel(p1), rel(p2), r);
    post(f);
    return r;
}
EXPORT int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
EXPORT int renameat2(int d1, const char *a, int d2, const char *b, unsigned fl)
{ return do_rename(d1, a, d2, b, fl); }

/* Waiting for a file lock is visible to whoever schedules the processes. */
EXPORT int flock(int fd, int operation)
{
    if (gate_out < 0 || (operation & LOCK_NB)) return syscall(SYS_flock, fd, operation);
    for (;;) {
        int r = syscall(SYS_flock, fd, operation | LOCK_NB);
        if (r == 0 || errno != EWOULDBLOCK) return r;
        gate('B');
    }
}
static int do_fcntl(int fd, int cmd, long arg)
{
    int wait = cmd == F_SETLKW || cmd == F_OFD_SETLKW;
    if (gate_out < 0 || !wait) return syscall(SYS_fcntl, fd, cmd, arg);
    for (;;) {
        int r = syscall(SYS_fcntl, fd, cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK, arg);
        if (r == 0 || (errno != EAGAIN && errno != EACCES)) return r;
        gate('B');
    }
}
#define FCNTLBODY \
    va_list ap; \
    va_start(ap, cmd); \
    long arg = va_arg(ap, long); \
    va_end(ap); \
    return do_fcntl(fd, cmd, arg)
EXPORT int fcntl(int fd, int cmd, ...) { FCNTLBODY; }
EXPORT int fcntl64(int fd, int cmd, ...) { FCNTLBODY; }
