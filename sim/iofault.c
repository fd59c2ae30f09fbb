/* Disk seam of the simulator: an LD_PRELOAD shim between the interpreter and
 * libc.  It is inert until sim_io_begin() is called; afterwards it watches every
 * file below one scratch prefix and executes a fault plan that the (seeded)
 * scenario supplies:
 *
 *   rule = (op, nth, action, arg): at the nth watched call of kind `op`
 *     action ERR    fail with errno `arg` (nothing done)
 *     action SHORT  transfer at most `arg` bytes (>= 1)
 *     action EINTR  fail once with EINTR
 *     action ERRDONE  (close only) do the close, then report errno `arg`
 *   space  = number of bytes the disk still takes (-1: unlimited); the write
 *            crossing the limit is short, the next one fails with ENOSPC
 *   crash_at = cumulative number of written bytes after which the machine dies
 *            (the process is ended with status 77; -1: never)
 *   crash_op = number of watched operations after which the machine dies
 *
 * A log of all watched operations is kept (fixed size ring, no allocation).
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN_R, OP_OPEN_W, OP_READ, OP_WRITE, OP_CLOSE, OP_FSYNC, OP_RENAME,
       OP_UNLINK, OP_TRUNC, OP_MKDIR, N_OPS };
enum { ACT_ERR = 1, ACT_SHORT = 2, ACT_EINTR = 3, ACT_ERRDONE = 4 };

#define MAXFD 4096
#define MAXRULES 64
#define MAXLOG 8192

static int active;
static char prefix[1024];
static size_t prefix_len;
static struct { int op; long nth; int action; long arg; int fired; } rules[MAXRULES];
static int n_rules;
static long counts[N_OPS];
static long total_ops, space_left, crash_at, crash_op, written;
static signed char watched[MAXFD]; /* 1: reading, 2: writing */
static struct { int op; long size; long result; } oplog[MAXLOG];
static long n_log;

void sim_io_begin(const char *p)
{
    strncpy(prefix, p, sizeof prefix - 1);
    prefix_len = strlen(prefix);
    n_rules = 0;
    memset(counts, 0, sizeof counts);
    total_ops = 0; space_left = -1; crash_at = -1; crash_op = -1; written = 0;
    n_log = 0;
    memset(watched, 0, sizeof watched);
    active = 1;
}
void sim_io_end(void) { active = 0; }
void sim_io_rule(int op, long nth, int action, long arg)
{
    if (n_rules < MAXRULES) {
        rules[n_rules].op = op; rules[n_rules].nth = nth;
        rules[n_rules].action = action; rules[n_rules].arg = arg;
        rules[n_rules].fired = 0;
        n_rules++;
    }
}
void sim_io_space(long n) { space_left = n; }
void sim_io_crash_at(long n) { crash_at = n; }
void sim_io_crash_op(long n) { crash_op = n; }
long sim_io_count(int op) { return counts[op]; }
long sim_io_fired(int i) { return i < n_rules ? rules[i].fired : -1; }
long sim_io_written(void) { return written; }
long sim_io_total(void) { return total_ops; }
long sim_io_open_fds(void)
{
    long n = 0;
    for (int i = 0; i < MAXFD; i++) n += watched[i] != 0;
    return n;
}
long sim_io_log(long i, long what)
{
    if (i >= n_log || i >= MAXLOG) return -1;
    return what == 0 ? oplog[i].op : what == 1 ? oplog[i].size : oplog[i].result;
}
long sim_io_log_len(void) { return n_log < MAXLOG ? n_log : MAXLOG; }

static void note(int op, long size, long result)
{
    if (n_log < MAXLOG) {
        oplog[n_log].op = op; oplog[n_log].size = size; oplog[n_log].result = result;
    }
    n_log++;
}

/* returns index of the rule that fires for this call, or -1 */
static int step(int op)
{
    long n = ++counts[op];
    ++total_ops;
    if (crash_op >= 0 && total_ops > crash_op) _exit(77);
    for (int i = 0; i < n_rules; i++)
        if (rules[i].op == op && rules[i].nth == n) { rules[i].fired++; return i; }
    return -1;
}

static int below(int dirfd, const char *path)
{
    char buf[4096];
    if (!active || !path) return 0;
    if (path[0] != '/') {
        char link[64];
        ssize_t n;
        if (dirfd == AT_FDCWD) {
            if (!getcwd(buf, sizeof buf - 2)) return 0;
            n = (ssize_t)strlen(buf);
        } else {
            snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
            n = readlink(link, buf, sizeof buf - 2);
            if (n < 0) return 0;
        }
        buf[n] = '/';
        buf[n + 1] = 0;
        strncat(buf, path, sizeof buf - strlen(buf) - 1);
        path = buf;
        return strncmp(path, prefix, prefix_len) == 0;
    }
    return strncmp(path, prefix, prefix_len) == 0;
}

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

static int do_open(const char *which, int at, int dirfd, const char *path, int flags, mode_t mode)
{
    static int (*r_openat)(int, const char *, int, ...);
    if (!r_openat) r_openat = (int (*)(int, const char *, int, ...))dlsym(RTLD_NEXT, "openat");
    (void)which; (void)at;
    if (!below(dirfd, path) || (flags & O_DIRECTORY)) return r_openat(dirfd, path, flags, mode);
    int w = (flags & O_ACCMODE) != O_RDONLY;
    int op = w ? OP_OPEN_W : OP_OPEN_R;
    int i = step(op);
    if (i >= 0) {
        int e = rules[i].action == ACT_EINTR ? EINTR : (int)rules[i].arg;
        note(op, 0, -e);
        errno = e;
        return -1;
    }
    int fd = r_openat(dirfd, path, flags, mode);
    note(op, 0, fd >= 0 ? 0 : -errno);
    if (fd >= 0 && fd < MAXFD) watched[fd] = w ? 2 : 1;
    return fd;
}

#define GETMODE mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }

int open(const char *path, int flags, ...) { GETMODE return do_open("open", 0, AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { GETMODE return do_open("open64", 0, AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { GETMODE return do_open("openat", 1, d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { GETMODE return do_open("openat64", 1, d, path, flags, mode); }

static int is_watched(int fd) { return active && fd >= 0 && fd < MAXFD && watched[fd]; }

static ssize_t sim_write(int fd, const void *buf, size_t n, off_t off, int positioned)
{
    static ssize_t (*r_write)(int, const void *, size_t);
    static ssize_t (*r_pwrite)(int, const void *, size_t, off_t);
    if (!r_write) r_write = (ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
    if (!r_pwrite) r_pwrite = (ssize_t (*)(int, const void *, size_t, off_t))dlsym(RTLD_NEXT, "pwrite");
    if (!is_watched(fd)) return positioned ? r_pwrite(fd, buf, n, off) : r_write(fd, buf, n);
    int i = step(OP_WRITE);
    size_t want = n;
    if (i >= 0) {
        if (rules[i].action == ACT_SHORT) { if ((long)want > rules[i].arg) want = rules[i].arg; }
        else {
            int e = rules[i].action == ACT_EINTR ? EINTR : (int)rules[i].arg;
            note(OP_WRITE, (long)n, -e);
            errno = e;
            return -1;
        }
    }
    if (space_left >= 0 && n > 0) {
        if (space_left == 0) { note(OP_WRITE, (long)n, -ENOSPC); errno = ENOSPC; return -1; }
        if ((long)want > space_left) want = (size_t)space_left;
    }
    int die = 0;
    if (crash_at >= 0 && written + (long)want >= crash_at) { want = (size_t)(crash_at - written); die = 1; }
    ssize_t r = want || !n ? (positioned ? r_pwrite(fd, buf, want, off) : r_write(fd, buf, want)) : 0;
    if (r > 0) { written += r; if (space_left >= 0) space_left -= r; }
    note(OP_WRITE, (long)n, r < 0 ? -errno : (long)r);
    if (die) _exit(77);
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return sim_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return sim_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return sim_write(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (!is_watched(fd)) return real(fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return sim_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
}

static ssize_t sim_read(int fd, void *buf, size_t n, off_t off, int positioned)
{
    static ssize_t (*r_read)(int, void *, size_t);
    static ssize_t (*r_pread)(int, void *, size_t, off_t);
    if (!r_read) r_read = (ssize_t (*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
    if (!r_pread) r_pread = (ssize_t (*)(int, void *, size_t, off_t))dlsym(RTLD_NEXT, "pread");
    if (!is_watched(fd)) return positioned ? r_pread(fd, buf, n, off) : r_read(fd, buf, n);
    int i = step(OP_READ);
    size_t want = n;
    if (i >= 0) {
        if (rules[i].action == ACT_SHORT) { if ((long)want > rules[i].arg) want = rules[i].arg; }
        else {
            int e = rules[i].action == ACT_EINTR ? EINTR : (int)rules[i].arg;
            note(OP_READ, (long)n, -e);
            errno = e;
            return -1;
        }
    }
    ssize_t r = positioned ? r_pread(fd, buf, want, off) : r_read(fd, buf, want);
    note(OP_READ, (long)n, r < 0 ? -errno : (long)r);
    return r;
}
ssize_t read(int fd, void *b, size_t n) { return sim_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return sim_read(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return sim_read(fd, b, n, o, 1); }

int close(int fd)
{
    REAL(int, "close", int);
    if (!is_watched(fd)) { if (fd >= 0 && fd < MAXFD) watched[fd] = 0; return real(fd); }
    int i = step(OP_CLOSE);
    watched[fd] = 0;
    int r = real(fd);
    if (i >= 0) {
        int e = rules[i].action == ACT_EINTR ? EINTR : (int)rules[i].arg;
        note(OP_CLOSE, 0, -e);
        errno = e;
        return -1;
    }
    note(OP_CLOSE, 0, r);
    return r;
}

int fsync(int fd)
{
    REAL(int, "fsync", int);
    if (!is_watched(fd)) return real(fd);
    int i = step(OP_FSYNC);
    if (i >= 0) { note(OP_FSYNC, 0, -(long)rules[i].arg); errno = (int)rules[i].arg; return -1; }
    note(OP_FSYNC, 0, 0);
    return 0;
}
int fdatasync(int fd)
{
    REAL(int, "fdatasync", int);
    if (!is_watched(fd)) return real(fd);
    int i = step(OP_FSYNC);
    if (i >= 0) { note(OP_FSYNC, 0, -(long)rules[i].arg); errno = (int)rules[i].arg; return -1; }
    note(OP_FSYNC, 0, 0);
    return 0;
}

#define PATHOP(op, call) \
    int i = step(op); \
    if (i >= 0) { note(op, 0, -(long)rules[i].arg); errno = (int)rules[i].arg; return -1; } \
    int r = call; note(op, 0, r ? -errno : 0); return r

int rename(const char *a, const char *b)
{
    REAL(int, "rename", const char *, const char *);
    if (!below(AT_FDCWD, a) && !below(AT_FDCWD, b)) return real(a, b);
    PATHOP(OP_RENAME, real(a, b));
}
int renameat(int da, const char *a, int db, const char *b)
{
    REAL(int, "renameat", int, const char *, int, const char *);
    if (!below(da, a) && !below(db, b)) return real(da, a, db, b);
    PATHOP(OP_RENAME, real(da, a, db, b));
}
int unlink(const char *a)
{
    REAL(int, "unlink", const char *);
    if (!below(AT_FDCWD, a)) return real(a);
    PATHOP(OP_UNLINK, real(a));
}
int ftruncate(int fd, off_t n)
{
    REAL(int, "ftruncate", int, off_t);
    if (!is_watched(fd)) return real(fd, n);
    PATHOP(OP_TRUNC, real(fd, n));
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int mkdir(const char *a, mode_t m)
{
    REAL(int, "mkdir", const char *, mode_t);
    if (!below(AT_FDCWD, a)) return real(a, m);
    PATHOP(OP_MKDIR, real(a, m));
}
