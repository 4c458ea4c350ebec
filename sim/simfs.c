/* LD_PRELOAD seam between the process under simulation and the file system.
 *
 * Inactive until simfs_begin() is called.  From then on every file system call
 * on a path below the watched prefix is announced to the controller (a pipe
 * pair) before it happens; the controller answers with what shall happen:
 * proceed, fail with an errno, transfer only n bytes, or die (before, in the
 * middle of, or after the call).  Mutations are appended to a log from which
 * the controller computes what would survive a power loss.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_TRUNC, OP_RENAME, OP_UNLINK, OP_FSYNC,
       OP_CLOSE, OP_MKDIR, OP_LOCK };
enum { ACT_GO = 0, ACT_ERR, ACT_SHORT, ACT_DIE_BEFORE, ACT_DIE_MID, ACT_DIE_AFTER };

struct req { int32_t op, plen; int64_t a, b; };
struct rep { int32_t act, err; int64_t n; };

static int active = 0, req_fd = -1, rep_fd = -1, log_fd = -1;
static unsigned mask = 0;
static char prefix[PATH_MAX];
static size_t plen = 0;
#define MAXFD 4096
static char *fdpath[MAXFD];
static __thread int inside = 0;

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__) = 0; \
    if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name);

static int raw_write(int fd, const void *p, size_t n) {
    const char *c = p;
    while (n) {
        long r = syscall(SYS_write, fd, c, n);
        if (r < 0) { if (errno == EINTR) continue; return -1; }
        c += r; n -= r;
    }
    return 0;
}
static int raw_read(int fd, void *p, size_t n) {
    char *c = p;
    while (n) {
        long r = syscall(SYS_read, fd, c, n);
        if (r < 0) { if (errno == EINTR) continue; return -1; }
        if (r == 0) return -1;
        c += r; n -= r;
    }
    return 0;
}
static void die(void) { syscall(SYS_exit_group, 137); }

static void logrec(int op, const char *path, const char *path2, int64_t off, const void *data, int64_t n) {
    if (log_fd < 0) return;
    struct { int32_t op, pl, pl2, pad; int64_t off, n; } h;
    h.op = op; h.pl = path ? strlen(path) : 0; h.pl2 = path2 ? strlen(path2) : 0; h.pad = 0;
    h.off = off; h.n = data ? n : 0;
    size_t total = sizeof h + h.pl + h.pl2 + h.n;
    char *buf = malloc(total), *p = buf;
    memcpy(p, &h, sizeof h); p += sizeof h;
    if (h.pl) { memcpy(p, path, h.pl); p += h.pl; }
    if (h.pl2) { memcpy(p, path2, h.pl2); p += h.pl2; }
    if (h.n) memcpy(p, data, h.n);
    raw_write(log_fd, buf, total);
    free(buf);
}

static struct rep ask(int op, const char *path, int64_t a, int64_t b) {
    struct rep r = { ACT_GO, 0, 0 };
    if (!(mask & (1u << op))) return r;
    struct req q = { op, (int32_t)strlen(path), a, b };
    char buf[sizeof q + PATH_MAX];
    memcpy(buf, &q, sizeof q);
    memcpy(buf + sizeof q, path, q.plen);
    if (raw_write(req_fd, buf, sizeof q + q.plen) < 0) die();
    if (raw_read(rep_fd, &r, sizeof r) < 0) die();
    if (r.act == ACT_DIE_BEFORE) die();
    return r;
}

static int resolve(int dirfd, const char *path, char *out) {
    char tmp[PATH_MAX * 2];
    if (!path) return 0;
    if (path[0] == '/') snprintf(tmp, sizeof tmp, "%s", path);
    else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
        else {
            char lnk[64]; snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", dirfd);
            ssize_t k = readlink(lnk, base, sizeof base - 1);
            if (k < 0) return 0;
            base[k] = 0;
        }
        snprintf(tmp, sizeof tmp, "%s/%s", base, path);
    }
    /* normalise . and // and .. textually */
    char *res = out; *res = 0; char *save = 0; size_t len = 0;
    for (char *tok = strtok_r(tmp, "/", &save); tok; tok = strtok_r(0, "/", &save)) {
        if (!strcmp(tok, ".")) continue;
        if (!strcmp(tok, "..")) { while (len && res[--len] != '/'); res[len] = 0; continue; }
        size_t k = strlen(tok);
        if (len + k + 2 >= PATH_MAX) return 0;
        res[len++] = '/'; memcpy(res + len, tok, k); len += k; res[len] = 0;
    }
    return !strncmp(out, prefix, plen) && (out[plen] == '/' || out[plen] == 0);
}

static int live(void) { return active && !inside; }
static const char *tracked(int fd) {
    return live() && fd >= 0 && fd < MAXFD ? fdpath[fd] : 0;
}

/* ---- control ---------------------------------------------------------- */
void simfs_begin(const char *pfx, int rq, int rp, int lg, unsigned m) {
    snprintf(prefix, sizeof prefix, "%s", pfx); plen = strlen(prefix);
    req_fd = rq; rep_fd = rp; log_fd = lg; mask = m; active = 1;
}
void simfs_end(void) { active = 0; }
int simfs_active(void) { return active; }

/* ---- open ------------------------------------------------------------- */
static int do_open(int (*fn)(int, const char *, int, mode_t), int dirfd, const char *path, int flags, mode_t mode) {
    char full[PATH_MAX];
    if (!live() || !resolve(dirfd, path, full)) return fn(dirfd, path, flags, mode);
    struct rep r = ask(OP_OPEN, full, flags, 0);
    if (r.act == ACT_ERR) { errno = r.err; return -1; }
    struct stat st; inside = 1;
    int existed = stat(full, &st) == 0;
    inside = 0;
    int fd = fn(dirfd, path, flags, mode);
    int e = errno;
    if (fd >= 0 && fd < MAXFD) {
        free(fdpath[fd]);
        fdpath[fd] = strdup(full);
        if (!existed && (flags & O_CREAT)) logrec(OP_OPEN, full, 0, 0, 0, 0);
        else if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) logrec(OP_TRUNC, full, 0, 0, 0, 0);
    }
    if (r.act == ACT_DIE_AFTER || r.act == ACT_DIE_MID) die();
    errno = e;
    return fd;
}
static int fn_openat(int d, const char *p, int f, mode_t m) {
    REAL(int, openat, int, const char *, int, ...)
    return real_openat(d, p, f, m);
}
#define MODE(flags) mode_t m = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODE(flags) return do_open(fn_openat, AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE(flags) return do_open(fn_openat, AT_FDCWD, p, flags | O_LARGEFILE, m); }
int openat(int d, const char *p, int flags, ...) { MODE(flags) return do_open(fn_openat, d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE(flags) return do_open(fn_openat, d, p, flags | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(fn_openat, AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int __open_2(const char *p, int flags) { return do_open(fn_openat, AT_FDCWD, p, flags, 0); }
int __open64_2(const char *p, int flags) { return do_open(fn_openat, AT_FDCWD, p, flags, 0); }

int close(int fd) {
    REAL(int, close, int)
    const char *p = tracked(fd);
    if (p) {
        struct rep r = ask(OP_CLOSE, p, 0, 0);
        free(fdpath[fd]); fdpath[fd] = 0;
        int rc = real_close(fd);
        if (r.act == ACT_DIE_AFTER || r.act == ACT_DIE_MID) die();
        if (r.act == ACT_ERR) { errno = r.err; return -1; }
        return rc;
    }
    if (fd >= 0 && fd < MAXFD && fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = 0; }
    return real_close(fd);
}

/* ---- read ------------------------------------------------------------- */
ssize_t read(int fd, void *buf, size_t n) {
    REAL(ssize_t, read, int, void *, size_t)
    const char *p = tracked(fd);
    if (!p) return real_read(fd, buf, n);
    struct rep r = ask(OP_READ, p, n, -1);
    if (r.act == ACT_ERR) { errno = r.err; return -1; }
    if (r.act == ACT_SHORT && (size_t)r.n < n) n = r.n;
    return real_read(fd, buf, n);
}
static ssize_t do_pread(int fd, void *buf, size_t n, off64_t off) {
    REAL(ssize_t, pread64, int, void *, size_t, off64_t)
    const char *p = tracked(fd);
    if (!p) return real_pread64(fd, buf, n, off);
    struct rep r = ask(OP_READ, p, n, off);
    if (r.act == ACT_ERR) { errno = r.err; return -1; }
    if (r.act == ACT_SHORT && (size_t)r.n < n) n = r.n;
    return real_pread64(fd, buf, n, off);
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return do_pread(fd, buf, n, off); }
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) { return do_pread(fd, buf, n, off); }

/* ---- write ------------------------------------------------------------ */
static ssize_t do_pwrite(int fd, const void *buf, size_t n, off64_t off, int seq) {
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t)
    REAL(ssize_t, write, int, const void *, size_t)
    const char *p = tracked(fd);
    if (!p) return seq ? real_write(fd, buf, n) : real_pwrite64(fd, buf, n, off);
    if (seq) {
        int fl = fcntl(fd, F_GETFL);
        off = fl & O_APPEND ? lseek64(fd, 0, SEEK_END) : lseek64(fd, 0, SEEK_CUR);
    }
    struct rep r = ask(OP_WRITE, p, n, off);
    if (r.act == ACT_ERR) { errno = r.err; return -1; }
    if ((r.act == ACT_SHORT || r.act == ACT_DIE_MID) && (size_t)r.n < n) n = r.n;
    ssize_t k = seq ? real_write(fd, buf, n) : real_pwrite64(fd, buf, n, off);
    int e = errno;
    if (k > 0) logrec(OP_WRITE, p, 0, off, buf, k);
    if (r.act == ACT_DIE_MID || r.act == ACT_DIE_AFTER) die();
    errno = e;
    return k;
}
ssize_t write(int fd, const void *buf, size_t n) { return do_pwrite(fd, buf, n, 0, 1); }
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return do_pwrite(fd, buf, n, off, 0); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) { return do_pwrite(fd, buf, n, off, 0); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int)
    if (!tracked(fd)) return real_writev(fd, v, c);
    ssize_t tot = 0;
    for (int i = 0; i < c; i++) {
        ssize_t k = write(fd, v[i].iov_base, v[i].iov_len);
        if (k < 0) return tot ? tot : -1;
        tot += k;
        if ((size_t)k < v[i].iov_len) break;
    }
    return tot;
}
static ssize_t copied(int out, const char *p, off64_t at, ssize_t k, struct rep r) {
    int e = errno;
    if (k > 0) {
        char *b = malloc(k);
        ssize_t got = 0;
        int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDONLY, 0);
        while (got < k) {
            ssize_t g = syscall(SYS_pread64, fd, b + got, k - got, at + got);
            if (g <= 0) break;
            got += g;
        }
        syscall(SYS_close, fd);
        logrec(OP_WRITE, p, 0, at, b, got);
        free(b);
    }
    if (r.act == ACT_DIE_MID || r.act == ACT_DIE_AFTER) die();
    errno = e;
    return k;
}
static ssize_t do_sendfile(int out, int in, off64_t *off, size_t n) {
    REAL(ssize_t, sendfile64, int, int, off64_t *, size_t)
    const char *p = tracked(out);
    if (!p) return real_sendfile64(out, in, off, n);
    struct stat st; size_t len = n;
    off64_t from = off ? *off : lseek64(in, 0, SEEK_CUR);
    if (fstat(in, &st) == 0) { off64_t left = st.st_size - from; if (left < 0) left = 0; if ((off64_t)len > left) len = left; }
    if (len == 0) return real_sendfile64(out, in, off, n);
    struct rep r = ask(OP_WRITE, p, len, lseek64(out, 0, SEEK_CUR));
    if (r.act == ACT_ERR) { errno = r.err; return -1; }
    if ((r.act == ACT_SHORT || r.act == ACT_DIE_MID) && (size_t)r.n < len) len = r.n;
    off64_t at = lseek64(out, 0, SEEK_CUR);
    ssize_t k = real_sendfile64(out, in, off, len);
    return copied(out, p, at, k, r);
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) { return do_sendfile(out, in, off, n); }
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) { return do_sendfile(out, in, off, n); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl) {
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned)
    const char *p = tracked(out);
    if (!p) return real_copy_file_range(in, oi, out, oo, n, fl);
    struct rep r = ask(OP_WRITE, p, n, oo ? *oo : lseek64(out, 0, SEEK_CUR));
    if (r.act == ACT_ERR) { errno = r.err; return -1; }
    if ((r.act == ACT_SHORT || r.act == ACT_DIE_MID) && (size_t)r.n < n) n = r.n;
    off64_t at = oo ? *oo : lseek64(out, 0, SEEK_CUR);
    ssize_t k = real_copy_file_range(in, oi, out, oo, n, fl);
    return copied(out, p, at, k, r);
}

/* ---- metadata --------------------------------------------------------- */
static int do_ftrunc(int fd, off64_t n) {
    REAL(int, ftruncate64, int, off64_t)
    const char *p = tracked(fd);
    if (!p) return real_ftruncate64(fd, n);
    struct rep r = ask(OP_TRUNC, p, n, 0);
    if (r.act == ACT_ERR) { errno = r.err; return -1; }
    int rc = real_ftruncate64(fd, n);
    int e = errno;
    if (rc == 0) logrec(OP_TRUNC, p, 0, n, 0, 0);
    if (r.act == ACT_DIE_MID || r.act == ACT_DIE_AFTER) die();
    errno = e;
    return rc;
}
int ftruncate(int fd, off_t n) { return do_ftrunc(fd, n); }
int ftruncate64(int fd, off64_t n) { return do_ftrunc(fd, n); }

static int do_rename(int da, const char *a, int db, const char *b, unsigned fl) {
    char fa[PATH_MAX], fb[PATH_MAX];
    int hit = live() && resolve(da, a, fa); int hit2 = live() && resolve(db, b, fb);
    if (!hit && !hit2) return syscall(SYS_renameat2, da, a, db, b, fl);
    struct rep r = ask(OP_RENAME, fb, 0, 0);
    if (r.act == ACT_ERR) { errno = r.err; return -1; }
    int rc = syscall(SYS_renameat2, da, a, db, b, fl);
    int e = errno;
    if (rc == 0) {
        logrec(OP_RENAME, fa, fb, 0, 0, 0);
        for (int i = 0; i < MAXFD; i++) {
            if (fdpath[i] && !strcmp(fdpath[i], fb)) { free(fdpath[i]); fdpath[i] = strdup("/replaced"); }
            else if (fdpath[i] && !strcmp(fdpath[i], fa)) { free(fdpath[i]); fdpath[i] = strdup(fb); }
        }
    }
    if (r.act == ACT_DIE_MID || r.act == ACT_DIE_AFTER) die();
    errno = e;
    return rc;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int da, const char *a, int db, const char *b) { return do_rename(da, a, db, b, 0); }
int renameat2(int da, const char *a, int db, const char *b, unsigned f) { return do_rename(da, a, db, b, f); }

static int do_unlink(int d, const char *path, int fl) {
    char full[PATH_MAX];
    if (!live() || !resolve(d, path, full)) return syscall(SYS_unlinkat, d, path, fl);
    struct rep r = ask(OP_UNLINK, full, 0, 0);
    if (r.act == ACT_ERR) { errno = r.err; return -1; }
    int rc = syscall(SYS_unlinkat, d, path, fl);
    int e = errno;
    if (rc == 0) logrec(OP_UNLINK, full, 0, 0, 0, 0);
    if (r.act == ACT_DIE_MID || r.act == ACT_DIE_AFTER) die();
    errno = e;
    return rc;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int fl) { return do_unlink(d, p, fl); }
int remove(const char *p) {
    struct stat st;
    int dir = lstat(p, &st) == 0 && S_ISDIR(st.st_mode);
    return do_unlink(AT_FDCWD, p, dir ? AT_REMOVEDIR : 0);
}

static int do_sync(int fd, int which) {
    const char *p = tracked(fd);
    if (!p) return syscall(which, fd);
    struct rep r = ask(OP_FSYNC, p, 0, 0);
    if (r.act == ACT_ERR) { errno = r.err; return -1; }
    /* the sandbox's disk need not really be flushed: durability is modelled */
    logrec(OP_FSYNC, p, 0, 0, 0, 0);
    if (r.act == ACT_DIE_MID || r.act == ACT_DIE_AFTER) die();
    return 0;
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }

/* ---- locks ------------------------------------------------------------ */
int flock(int fd, int how) {
    const char *p = tracked(fd);
    if (!p) return syscall(SYS_flock, fd, how);
    struct rep r = ask(OP_LOCK, p, how, 0);
    if (r.act == ACT_ERR) { errno = r.err; return -1; }
    int rc = syscall(SYS_flock, fd, how);
    if (r.act == ACT_DIE_MID || r.act == ACT_DIE_AFTER) die();
    return rc;
}

/* ---- clocks ----------------------------------------------------------- */
/* mode 0: real.  1: every reading is shown `step` seconds after the one
 * before, starting `offset` seconds off, and from reading `at` on `jump`
 * seconds off (which may be back).  A step of 0 is a stopped clock. */
#include <sys/time.h>
#include <time.h>

static int clk_mode = 0;
static double clk_base[16], clk_step, clk_jump;
static long clk_at, clk_n;

int simfs_clock(int mode, double offset, double step, long at, double jump) {
    clk_mode = 0;
    for (int i = 0; i < 16; i++) {
        struct timespec ts;
        clk_base[i] = syscall(SYS_clock_gettime, i, &ts) == 0 ? ts.tv_sec + 1e-9 * ts.tv_nsec + offset : 0;
        if (clk_base[i] < 1) clk_base[i] = 1;
    }
    clk_step = step; clk_at = at; clk_jump = jump; clk_n = 0; clk_mode = mode;
    return 0;
}
long simfs_clock_readings(void) { return clk_n; }

static double clk_now(int id) {
    double t = clk_base[id & 15] + clk_step * clk_n;
    if (clk_at >= 0 && clk_n >= clk_at) t += clk_jump;
    clk_n++;
    return t < 0 ? 0 : t;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!clk_mode || id < 0 || id > 15) return syscall(SYS_clock_gettime, id, ts) ? -1 : 0;
    double t = clk_now(id);
    ts->tv_sec = (time_t)t; ts->tv_nsec = (long)((t - (double)ts->tv_sec) * 1e9);
    return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    (void)tz;
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
