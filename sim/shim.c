/* libc seam of the simulator (LD_PRELOAD).
 *
 * Inactive by default: every call goes straight to libc.  After sim_activate()
 * in a forked child, every file-system call on a path inside the simulated root
 * is first announced to the controller (one SOCK_SEQPACKET message), and the
 * controller's answer decides what happens: proceed, fail with an errno, transfer
 * fewer bytes, deliver SIGINT, or die at this very point (before, after, or in the
 * middle of the call) without any user-space cleanup.  Calls that would modify
 * anything outside the root are announced and refused.  Clock, sleeping,
 * randomness and the process id are simulated as well, so that the child is a
 * pure function of (code, answers of the controller).
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_RENAME, OP_UNLINK, OP_MKDIR,
       OP_RMDIR, OP_TRUNC, OP_FSYNC, OP_LINK, OP_SYMLINK, OP_LOCK, OP_CHMOD, OP_SLEEP, OP_MARK };
enum { ACT_GO = 0, ACT_FAIL, ACT_SHORT, ACT_CRASH, ACT_TORN, ACT_SIGINT, ACT_CRASH_AFTER };

static volatile int active = 0;
static int ctl = -1;
static char root[PATH_MAX];
static size_t rootlen = 0;
static unsigned char tracked[MAXFD];
static char *fdpath[MAXFD];
static int64_t now_real, now_mono;
static uint64_t rnd;
static int sim_pid = 0;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

/* allocation faults */
static volatile int alloc_armed = 0;
static volatile long alloc_countdown = -1, alloc_seen = 0, alloc_failed = 0;
static size_t alloc_min = 0;

struct req { int32_t op, fd; int64_t a, b; int32_t outside; int32_t plen; int64_t now; };
struct rep { int32_t act, err; int64_t val, dt_real, dt_mono; };

#define REAL(name) ({ static __typeof__(&name) f_; if (!f_) f_ = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f_; })

void sim_activate(const char *r, int fd, int64_t real_ns, int64_t mono_ns, uint64_t seed, int pid)
{
    snprintf(root, sizeof root, "%s", r);
    rootlen = strlen(root);
    ctl = fd; now_real = real_ns; now_mono = mono_ns; rnd = seed; sim_pid = pid;
    memset(tracked, 0, sizeof tracked);
    active = 1;
}
void sim_deactivate(void) { active = 0; }
int64_t sim_now(void) { return now_mono; }
void sim_alloc_arm(long nth, size_t minsize) { alloc_min = minsize; alloc_seen = 0; alloc_failed = 0; alloc_countdown = nth; alloc_armed = 1; }
long sim_alloc_disarm(void) { alloc_armed = 0; return alloc_seen; }
long sim_alloc_failures(void) { return alloc_failed; }

static void die(void) { syscall(SYS_exit_group, 137); __builtin_unreachable(); }

/* absolute, lexically normalised path */
static void resolve(int dirfd, const char *p, char *out)
{
    char buf[2 * PATH_MAX];
    int e = errno;
    if (p[0] == '/') snprintf(buf, sizeof buf, "%s", p);
    else {
        char cwd[PATH_MAX];
        if (dirfd == AT_FDCWD) { if (!getcwd(cwd, sizeof cwd)) strcpy(cwd, "/"); }
        else {
            char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t n = readlink(l, cwd, sizeof cwd - 1);
            if (n < 0) { n = 1; cwd[0] = '/'; }
            cwd[n] = 0;
        }
        snprintf(buf, sizeof buf, "%s/%s", cwd, p);
    }
    size_t n = 0; const char *s = buf;
    while (*s) {
        while (*s == '/') s++;
        if (!*s) break;
        const char *t = s; while (*t && *t != '/') t++;
        size_t len = (size_t)(t - s);
        if (len == 1 && s[0] == '.') { }
        else if (len == 2 && s[0] == '.' && s[1] == '.') { while (n > 0 && out[n - 1] != '/') n--; if (n > 0) n--; }
        else if (n + len + 2 < PATH_MAX) { out[n++] = '/'; memcpy(out + n, s, len); n += len; }
        s = t;
    }
    if (n == 0) out[n++] = '/';
    out[n] = 0;
    errno = e;
}
static int inside(const char *p) { return rootlen && !strncmp(p, root, rootlen) && (p[rootlen] == 0 || p[rootlen] == '/'); }

static struct rep ask(int op, int fd, int64_t a, int64_t b, int outside, const char *p1, const char *p2)
{
    char msg[sizeof(struct req) + 2 * PATH_MAX + 2];
    struct req q; struct rep r; int e = errno;
    memset(&q, 0, sizeof q);
    q.op = op; q.fd = fd; q.a = a; q.b = b; q.outside = outside; q.now = now_mono;
    size_t l1 = p1 ? strlen(p1) : 0, l2 = p2 ? strlen(p2) : 0;
    q.plen = (int32_t)l1;
    memcpy(msg, &q, sizeof q);
    if (l1) memcpy(msg + sizeof q, p1, l1);
    msg[sizeof q + l1] = 0;
    if (l2) memcpy(msg + sizeof q + l1 + 1, p2, l2);
    pthread_mutex_lock(&mu);
    if (send(ctl, msg, sizeof q + l1 + 1 + l2, MSG_NOSIGNAL) < 0) die();
    ssize_t n;
    do n = recv(ctl, &r, sizeof r, 0); while (n < 0 && errno == EINTR);
    if (n != (ssize_t)sizeof r) die();
    now_real += r.dt_real; now_mono += r.dt_mono;
    pthread_mutex_unlock(&mu);
    errno = e;
    if (r.act == ACT_CRASH) die();
    if (r.act == ACT_SIGINT) { raise(SIGINT); r.act = ACT_GO; }
    return r;
}
static const char *rel(const char *p) { const char *s = p + rootlen; return *s == '/' ? s + 1 : s; }

static void track(int fd, const char *path)
{
    if (fd < 0 || fd >= MAXFD) return;
    tracked[fd] = 1; free(fdpath[fd]); fdpath[fd] = strdup(path);
}
static int istracked(int fd) { return active && fd >= 0 && fd < MAXFD && tracked[fd]; }
static void untrack(int fd) { if (fd >= 0 && fd < MAXFD) tracked[fd] = 0; }

#define WRFLAGS(f) (((f) & O_ACCMODE) != O_RDONLY || ((f) & (O_CREAT | O_TRUNC)))
static int special(const char *p) { return !strncmp(p, "/dev/", 5) || !strncmp(p, "/proc/", 6); }

static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    static int (*ro)(int, const char *, int, ...);
    if (!ro) ro = (int (*)(int, const char *, int, ...))dlsym(RTLD_NEXT, "openat64");
    if (!active || !path) return ro(dirfd, path, flags, mode);
    char p[PATH_MAX]; resolve(dirfd, path, p);
    if (!inside(p)) {
        if (!WRFLAGS(flags) || special(p)) return ro(dirfd, path, flags, mode);
        ask(OP_OPEN, -1, flags, 0, 1, p, NULL);
        errno = EACCES; return -1;
    }
    if (flags & O_DIRECTORY) { return ro(dirfd, path, flags, mode); }
    struct rep r = ask(OP_OPEN, -1, flags, 0, 0, rel(p), NULL);
    if (r.act == ACT_FAIL) { errno = r.err; return -1; }
    int fd = ro(dirfd, path, flags, mode);
    if (r.act == ACT_CRASH_AFTER || r.act == ACT_TORN) die();
    if (fd >= 0) track(fd, rel(p));
    return fd;
}
#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags, mode); }
int __open_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int __open64_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int __openat_2(int d, const char *path, int flags) { return do_open(d, path, flags, 0); }
int __openat64_2(int d, const char *path, int flags) { return do_open(d, path, flags, 0); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static FILE *do_fopen(const char *path, const char *m, FILE *(*f)(const char *, const char *))
{
    if (!active || !path) return f(path, m);
    char p[PATH_MAX]; resolve(AT_FDCWD, path, p);
    int wr = strpbrk(m, "wa+") != NULL;
    if (!inside(p)) {
        if (!wr || special(p)) return f(path, m);
        ask(OP_OPEN, -1, O_WRONLY | O_CREAT, 0, 1, p, NULL);
        errno = EACCES; return NULL;
    }
    struct rep r = ask(OP_OPEN, -1, wr ? O_WRONLY | O_CREAT | O_TRUNC : O_RDONLY, 0, 0, rel(p), NULL);
    if (r.act == ACT_FAIL) { errno = r.err; return NULL; }
    FILE *fp = f(path, m);
    if (r.act == ACT_CRASH_AFTER || r.act == ACT_TORN) die();
    return fp;
}
FILE *fopen(const char *p, const char *m) { return do_fopen(p, m, REAL(fopen)); }
FILE *fopen64(const char *p, const char *m) { return do_fopen(p, m, REAL(fopen64)); }

static ssize_t do_read(int fd, size_t n, ssize_t (*go)(int, size_t, void *), void *arg)
{
    if (!istracked(fd)) return go(fd, n, arg);
    struct rep r = ask(OP_READ, fd, (int64_t)n, 0, 0, fdpath[fd], NULL);
    if (r.act == ACT_FAIL) { errno = r.err; return -1; }
    if ((r.act == ACT_SHORT || r.act == ACT_TORN) && r.val >= 0 && (size_t)r.val < n) n = r.val ? (size_t)r.val : 1;
    ssize_t k = go(fd, n, arg);
    if (r.act == ACT_CRASH_AFTER || r.act == ACT_TORN) die();
    return k;
}
static ssize_t do_write(int fd, size_t n, ssize_t (*go)(int, size_t, void *), void *arg)
{
    if (!istracked(fd)) return go(fd, n, arg);
    struct rep r = ask(OP_WRITE, fd, (int64_t)n, 0, 0, fdpath[fd], NULL);
    if (r.act == ACT_FAIL) { errno = r.err; return -1; }
    if ((r.act == ACT_SHORT || r.act == ACT_TORN) && r.val >= 0 && (size_t)r.val < n) n = r.val ? (size_t)r.val : 1;
    ssize_t k = go(fd, n, arg);
    if (r.act == ACT_CRASH_AFTER || r.act == ACT_TORN) die();
    return k;
}
struct rw { void *buf; const void *cbuf; off64_t off; };
static ssize_t g_read(int fd, size_t n, void *v) { return REAL(read)(fd, ((struct rw *)v)->buf, n); }
static ssize_t g_write(int fd, size_t n, void *v) { return REAL(write)(fd, ((struct rw *)v)->cbuf, n); }
static ssize_t g_pread(int fd, size_t n, void *v) { struct rw *w = v; return REAL(pread64)(fd, w->buf, n, w->off); }
static ssize_t g_pwrite(int fd, size_t n, void *v) { struct rw *w = v; return REAL(pwrite64)(fd, w->cbuf, n, w->off); }
ssize_t read(int fd, void *b, size_t n) { struct rw w = { b, 0, 0 }; return do_read(fd, n, g_read, &w); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t bl) { (void)bl; struct rw w = { b, 0, 0 }; return do_read(fd, n, g_read, &w); }
ssize_t write(int fd, const void *b, size_t n) { struct rw w = { 0, b, 0 }; return do_write(fd, n, g_write, &w); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { struct rw w = { b, 0, o }; return do_read(fd, n, g_pread, &w); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { struct rw w = { b, 0, o }; return do_read(fd, n, g_pread, &w); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { struct rw w = { 0, b, o }; return do_write(fd, n, g_pwrite, &w); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { struct rw w = { 0, b, o }; return do_write(fd, n, g_pwrite, &w); }

static ssize_t vtotal(const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) t += v[i].iov_len; return t; }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (!istracked(fd)) return REAL(writev)(fd, v, c);
    size_t n = (size_t)vtotal(v, c); char *b = malloc(n ? n : 1); size_t k = 0;
    for (int i = 0; i < c; i++) { memcpy(b + k, v[i].iov_base, v[i].iov_len); k += v[i].iov_len; }
    ssize_t r = write(fd, b, n); int e = errno; free(b); errno = e; return r;
}
ssize_t readv(int fd, const struct iovec *v, int c)
{
    if (!istracked(fd)) return REAL(readv)(fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n)
{
    if (!istracked(o) && !istracked(i)) return REAL(sendfile64)(o, i, off, n);
    errno = ENOTSOCK; return -1;           /* makes Python fall back to read/write */
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f)
{
    if (!istracked(o) && !istracked(i)) return REAL(copy_file_range)(i, a, o, b, n, f);
    errno = EXDEV; return -1;
}

int close(int fd)
{
    if (active && fd == ctl) { errno = EBADF; return -1; }
    if (!istracked(fd)) return REAL(close)(fd);
    struct rep r = ask(OP_CLOSE, fd, 0, 0, 0, fdpath[fd], NULL);
    untrack(fd);
    int k = REAL(close)(fd);
    if (r.act == ACT_CRASH_AFTER || r.act == ACT_TORN) die();
    if (r.act == ACT_FAIL) { errno = r.err; return -1; }
    return k;
}
int dup(int fd) { int n = REAL(dup)(fd); if (n >= 0 && istracked(fd)) track(n, fdpath[fd]); return n; }
int dup2(int fd, int to) { int n = REAL(dup2)(fd, to); if (n >= 0 && active) { if (istracked(fd)) track(n, fdpath[fd]); else untrack(n); } return n; }
int dup3(int fd, int to, int f) { int n = REAL(dup3)(fd, to, f); if (n >= 0 && active) { if (istracked(fd)) track(n, fdpath[fd]); else untrack(n); } return n; }
static int do_fcntl(int fd, int cmd, void *arg, int (*f)(int, int, ...))
{
    if (istracked(fd) && cmd == F_SETLKW) {    /* never block for real: poll under the scheduler */
        for (int i = 0; i < 10000; i++) {
            struct rep r = ask(OP_LOCK, fd, i, 0, 0, fdpath[fd], NULL);
            if (r.act == ACT_FAIL) { errno = r.err; return -1; }
            int k = f(fd, F_SETLK, arg);
            if (k == 0 || (errno != EAGAIN && errno != EACCES)) return k;
        }
        errno = EDEADLK; return -1;
    }
    int n = f(fd, cmd, arg);
    if (n >= 0 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && istracked(fd)) track(n, fdpath[fd]);
    return n;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a, REAL(fcntl)); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a, REAL(fcntl64)); }
int flock(int fd, int op)
{
    if (!istracked(fd) || (op & LOCK_NB) || (op & LOCK_UN)) return REAL(flock)(fd, op);
    for (int i = 0; i < 10000; i++) {
        struct rep r = ask(OP_LOCK, fd, i, 0, 0, fdpath[fd], NULL);
        if (r.act == ACT_FAIL) { errno = r.err; return -1; }
        int k = REAL(flock)(fd, op | LOCK_NB);
        if (k == 0 || errno != EWOULDBLOCK) return k;
    }
    errno = EDEADLK; return -1;
}

/* path operations: announce; refuse when outside the root */
static int pathop(int op, int d1, const char *p1, int d2, const char *p2, struct rep *r)
{
    char a[PATH_MAX], b[PATH_MAX]; b[0] = 0;
    resolve(d1, p1, a); if (p2) resolve(d2, p2, b);
    int out = !inside(a) || (p2 && op != OP_SYMLINK && !inside(b));
    if (out && special(a)) { r->act = ACT_GO; return 0; }
    *r = ask(op, -1, 0, 0, out, out ? a : rel(a), p2 ? (out ? b : (inside(b) ? rel(b) : b)) : NULL);
    if (out) { errno = EACCES; return -1; }
    if (r->act == ACT_FAIL) { errno = r->err; return -1; }
    return 0;
}
#define AFTER(r) if ((r).act == ACT_CRASH_AFTER || (r).act == ACT_TORN) die();
#define PATHOP(OP, D1, P1, D2, P2, CALL) if (!active) return CALL; struct rep r; if (pathop(OP, D1, P1, D2, P2, &r) < 0) return -1; int k = CALL; AFTER(r) return k;
int rename(const char *a, const char *b) { PATHOP(OP_RENAME, AT_FDCWD, a, AT_FDCWD, b, REAL(rename)(a, b)) }
int renameat(int d, const char *a, int e, const char *b) { PATHOP(OP_RENAME, d, a, e, b, REAL(renameat)(d, a, e, b)) }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { PATHOP(OP_RENAME, d, a, e, b, REAL(renameat2)(d, a, e, b, f)) }
int unlink(const char *a) { PATHOP(OP_UNLINK, AT_FDCWD, a, 0, NULL, REAL(unlink)(a)) }
int unlinkat(int d, const char *a, int f) { PATHOP((f & AT_REMOVEDIR) ? OP_RMDIR : OP_UNLINK, d, a, 0, NULL, REAL(unlinkat)(d, a, f)) }
int remove(const char *a) { PATHOP(OP_UNLINK, AT_FDCWD, a, 0, NULL, REAL(remove)(a)) }
int mkdir(const char *a, mode_t m) { PATHOP(OP_MKDIR, AT_FDCWD, a, 0, NULL, REAL(mkdir)(a, m)) }
int mkdirat(int d, const char *a, mode_t m) { PATHOP(OP_MKDIR, d, a, 0, NULL, REAL(mkdirat)(d, a, m)) }
int rmdir(const char *a) { PATHOP(OP_RMDIR, AT_FDCWD, a, 0, NULL, REAL(rmdir)(a)) }
int truncate(const char *a, off_t n) { PATHOP(OP_TRUNC, AT_FDCWD, a, 0, NULL, REAL(truncate)(a, n)) }
int truncate64(const char *a, off64_t n) { PATHOP(OP_TRUNC, AT_FDCWD, a, 0, NULL, REAL(truncate64)(a, n)) }
int link(const char *a, const char *b) { PATHOP(OP_LINK, AT_FDCWD, a, AT_FDCWD, b, REAL(link)(a, b)) }
int linkat(int d, const char *a, int e, const char *b, int f) { PATHOP(OP_LINK, d, a, e, b, REAL(linkat)(d, a, e, b, f)) }
int symlink(const char *t, const char *a) { PATHOP(OP_SYMLINK, AT_FDCWD, a, AT_FDCWD, t, REAL(symlink)(t, a)) }
int chmod(const char *a, mode_t m) { PATHOP(OP_CHMOD, AT_FDCWD, a, 0, NULL, REAL(chmod)(a, m)) }
int chown(const char *a, uid_t u, gid_t g) { PATHOP(OP_CHMOD, AT_FDCWD, a, 0, NULL, REAL(chown)(a, u, g)) }

#define FDOP(OP, CALL) if (!istracked(fd)) return CALL; struct rep r = ask(OP, fd, 0, 0, 0, fdpath[fd], NULL); if (r.act == ACT_FAIL) { errno = r.err; return -1; } int k = CALL; AFTER(r) return k;
int ftruncate(int fd, off_t n) { FDOP(OP_TRUNC, REAL(ftruncate)(fd, n)) }
int ftruncate64(int fd, off64_t n) { FDOP(OP_TRUNC, REAL(ftruncate64)(fd, n)) }
int fsync(int fd) { FDOP(OP_FSYNC, REAL(fsync)(fd)) }
int fdatasync(int fd) { FDOP(OP_FSYNC, REAL(fdatasync)(fd)) }

/* clock, sleep, randomness, identity */
static void fill(struct timespec *t, int64_t ns) { t->tv_sec = ns / 1000000000; t->tv_nsec = ns % 1000000000; if (t->tv_nsec < 0) { t->tv_nsec += 1000000000; t->tv_sec--; } }
int clock_gettime(clockid_t c, struct timespec *t)
{
    if (!active) return REAL(clock_gettime)(c, t);
    switch (c) {
    case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: now_real += 1000; fill(t, now_real); return 0;
    case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW: case CLOCK_MONOTONIC_COARSE: case CLOCK_BOOTTIME:
    case CLOCK_PROCESS_CPUTIME_ID: case CLOCK_THREAD_CPUTIME_ID:
        now_mono += 1000; fill(t, now_mono); return 0;
    }
    return REAL(clock_gettime)(c, t);
}
int gettimeofday(struct timeval *tv, void *tz)
{
    if (!active) return REAL(gettimeofday)(tv, tz);
    now_real += 1000; tv->tv_sec = now_real / 1000000000; tv->tv_usec = (now_real % 1000000000) / 1000; return 0;
}
time_t time(time_t *o)
{
    if (!active) return REAL(time)(o);
    now_real += 1000; time_t s = now_real / 1000000000; if (o) *o = s; return s;
}
/* a sleep is announced (so that others may run meanwhile) and takes no real time */
static void advance(int64_t ns)
{
    if (ns < 0) ns = 0;
    now_real += ns; now_mono += ns;
    if (ctl >= 0) ask(OP_SLEEP, -1, ns, 0, 0, "", NULL);
}
int nanosleep(const struct timespec *q, struct timespec *m)
{
    if (!active) return REAL(nanosleep)(q, m);
    advance((int64_t)q->tv_sec * 1000000000 + q->tv_nsec); if (m) { m->tv_sec = 0; m->tv_nsec = 0; } return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *q, struct timespec *m)
{
    if (!active) return REAL(clock_nanosleep)(c, flags, q, m);
    int64_t ns = (int64_t)q->tv_sec * 1000000000 + q->tv_nsec;
    if (flags & TIMER_ABSTIME) ns -= (c == CLOCK_REALTIME ? now_real : now_mono);
    advance(ns); if (m) { m->tv_sec = 0; m->tv_nsec = 0; } return 0;
}
int usleep(useconds_t us) { if (!active) return REAL(usleep)(us); advance((int64_t)us * 1000); return 0; }
unsigned sleep(unsigned s) { if (!active) return REAL(sleep)(s); advance((int64_t)s * 1000000000); return 0; }
/* harness code inside a simulated process: its own file work is not announced */
void sim_pause(int p) { active = p ? 0 : (ctl >= 0); }
/* a named point in the event sequence */
void sim_mark(int k) { if (active) ask(OP_MARK, -1, k, 0, 0, "", NULL); }
static uint64_t next(void) { uint64_t z = (rnd += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
ssize_t getrandom(void *b, size_t n, unsigned f)
{
    if (!active) return REAL(getrandom)(b, n, f);
    unsigned char *p = b; for (size_t i = 0; i < n; i++) p[i] = (unsigned char)next();
    return (ssize_t)n;
}
int getentropy(void *b, size_t n) { if (!active) return REAL(getentropy)(b, n); getrandom(b, n, 0); return 0; }
pid_t getpid(void) { if (!active || !sim_pid) return REAL(getpid)(); return sim_pid; }
int kill(pid_t p, int s)
{
    if (!active) return REAL(kill)(p, s);
    if (p == sim_pid || p == REAL(getpid)()) return raise(s);
    errno = EPERM; return -1;              /* a simulated process never signals real ones */
}

/* allocation faults: counts (and may fail) blocks of at least alloc_min bytes */
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t);
static int alloc_fail(size_t n)
{
    if (!alloc_armed || n < alloc_min) return 0;
    alloc_seen++;
    if (alloc_countdown >= 0 && alloc_countdown-- == 0) { alloc_failed++; return 1; }
    return 0;
}
void *malloc(size_t n) { if (alloc_fail(n)) { errno = ENOMEM; return NULL; } return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (alloc_fail(a * b)) { errno = ENOMEM; return NULL; } return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (alloc_fail(n)) { errno = ENOMEM; return NULL; } return __libc_realloc(p, n); }
