// LD_PRELOAD seam between the tool and the operating system. Every file operation on a path below SIM_ROOT (and on
// standard output and error) is announced to the simulator on the socket SIM_FD, which decides whether it goes
// ahead, fails, transfers less, or is the last thing the process does. Changes outside SIM_ROOT are refused.
// Randomness and clocks come from SIM_RAND and SIM_TIME.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <stddef.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OPEN = 1, READ, WRITE, CLOSE, STAT, MKDIR, REALPATH, READLINK, RENAME, UNLINK, RMDIR, LINK, SYMLINK, CHMOD, TRUNC, SYNC, COPY, UTIME, OPENDIR, SEEK };
enum { GO, FAIL, SHORT, KILL_BEFORE, KILL_AFTER, SHORT_KILL };

struct req { uint32_t op, outside; int64_t a, b, last_ret, last_errno; char path[2 * PATH_MAX]; };
struct rep { uint32_t action; uint32_t pad; int64_t arg; };

static int ctl = -1;
static char root[PATH_MAX];
static size_t rootlen;
static uint64_t rnd = 1;
static int64_t now_ns;
static uint64_t wild;
static char *fdpath[1024];
static int64_t last_ret, last_errno;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

#define REAL(name) static __typeof__(&name) real_##name; if (!real_##name) real_##name = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

__attribute__((constructor)) static void init(void) {
    const char *s = getenv("SIM_ROOT");
    if (s) { strncpy(root, s, sizeof root - 1); rootlen = strlen(root); }
    if ((s = getenv("SIM_RAND"))) rnd = strtoull(s, 0, 10) * 2 + 1;
    if ((s = getenv("SIM_TIME"))) now_ns = strtoll(s, 0, 10) * 1000000000LL;
    if ((s = getenv("SIM_FD"))) ctl = atoi(s);
    if ((s = getenv("SIM_ENV"))) wild = strtoull(s, 0, 10);
    if (ctl >= 0) { fdpath[1] = strdup("<stdout>"); fdpath[2] = strdup("<stderr>"); }
    unsetenv("SIM_ROOT"); unsetenv("SIM_RAND"); unsetenv("SIM_TIME"); unsetenv("SIM_FD"); unsetenv("SIM_ENV"); unsetenv("LD_PRELOAD");
}

// An environment in which any variable the program asks for may happen to be set.
char *getenv(const char *name) {
    REAL(getenv);
    char *v = real_getenv(name);
    if (v || !wild || !strncmp(name, "SIM_", 4) || !strncmp(name, "RUST_", 5) || !strncmp(name, "LD_", 3)) return v;
    static char *vals[] = { 0, 0, "1", "0", "", "x", "/", "true", "/nonexistent", "42", "off", "a b" };
    uint64_t h = wild * 0x9E3779B97F4A7C15ull;
    for (const char *p = name; *p; p++) h = (h ^ (unsigned char)*p) * 0x100000001B3ull;
    return vals[(h >> 33) % (sizeof vals / sizeof *vals)];
}

static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

// Absolute spelling of a path (not resolved).
static void absolute(int dirfd, const char *p, char *out, size_t n) {
    if (!p) { out[0] = 0; return; }
    if (p[0] == '/') { snprintf(out, n, "%s", p); return; }
    if (dirfd != AT_FDCWD && dirfd >= 0 && dirfd < 1024 && fdpath[dirfd]) { snprintf(out, n, "%s/%s", fdpath[dirfd], p); return; }
    char cwd[PATH_MAX];
    if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) strcpy(cwd, "?");
    snprintf(out, n, "%s/%s", cwd, p);
}

static int inside(const char *abs) { return rootlen && !strncmp(abs, root, rootlen) && (abs[rootlen] == '/' || abs[rootlen] == 0); }

// Ask the simulator. Returns the action; FAIL has set errno.
static struct rep ask_abs(int op, const char *p, const char *q, int64_t a, int64_t b, int outside) {
    struct rep r = { GO, 0, 0 };
    if (ctl < 0) return r;
    static struct req m;
    pthread_mutex_lock(&mu);
    m.op = op; m.outside = outside; m.a = a; m.b = b; m.last_ret = last_ret; m.last_errno = last_errno;
    size_t n = strlen(p), k = q ? strlen(q) : 0;
    memcpy(m.path, p, n); m.path[n] = '\n';
    if (k) memcpy(m.path + n + 1, q, k);
    size_t len = offsetof(struct req, path) + n + 1 + k;
    ssize_t s;
    do s = syscall(SYS_sendto, ctl, &m, len, MSG_NOSIGNAL, NULL, 0); while (s < 0 && errno == EINTR);
    if (s < 0) die();
    do s = syscall(SYS_recvfrom, ctl, &r, sizeof r, 0, NULL, NULL); while (s < 0 && errno == EINTR);
    if (s != sizeof r) die();
    pthread_mutex_unlock(&mu);
    if (r.action == KILL_BEFORE) die();
    if (r.action == FAIL) { errno = (int)r.arg; last_ret = -1; last_errno = r.arg; }
    return r;
}

static int64_t done(struct rep r, int64_t ret) {
    last_ret = ret; last_errno = ret < 0 ? errno : 0;
    if (r.action == KILL_AFTER || r.action == SHORT_KILL) die();
    return ret;
}

// A path operation: in scope when inside the root; changes outside of it are refused.
#define PATHOP(op, dirfd, p, a, b, changes, call, bad)                                   \
    char abs_[PATH_MAX]; absolute(dirfd, p, abs_, sizeof abs_);                          \
    if (ctl < 0) return call;                                                            \
    if (!inside(abs_)) {                                                                 \
        if (!(changes) || !strncmp(abs_, "/dev/", 5)) return call;                       \
        ask_abs(op, abs_, NULL, a, b, 1); errno = EROFS; return bad;                     \
    }                                                                                    \
    struct rep r_ = ask_abs(op, abs_, NULL, a, b, 0);                                    \
    if (r_.action == FAIL) return bad;                                                   \
    __typeof__(call) v_ = call;                                                          \
    done(r_, (int64_t)(intptr_t)v_);                                                     \
    return v_;

static int do_open(int dirfd, const char *p, int flags, mode_t mode) {
    REAL(openat64);
    char abs[PATH_MAX];
    absolute(dirfd, p, abs, sizeof abs);
    int changes = (flags & (O_CREAT | O_TRUNC)) || (flags & O_ACCMODE) != O_RDONLY;
    if (ctl < 0) return real_openat64(dirfd, p, flags, mode);
    if (!inside(abs)) {
        if (!changes || !strncmp(abs, "/dev/", 5)) return real_openat64(dirfd, p, flags, mode);
        ask_abs(OPEN, abs, NULL, flags, mode, 1);
        errno = EROFS;
        return -1;
    }
    struct rep r = ask_abs(OPEN, abs, NULL, flags, mode, 0);
    if (r.action == FAIL) return -1;
    int fd = real_openat64(dirfd, p, flags, mode);
    if (fd >= 0 && fd < 1024) { free(fdpath[fd]); fdpath[fd] = strdup(abs); }
    return (int)done(r, fd);
}

#define MODE mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, mode); }
int creat(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static const char *known(int fd) { return ctl >= 0 && fd >= 0 && fd < 1024 && fd != ctl ? fdpath[fd] : NULL; }

int close(int fd) {
    REAL(close);
    const char *p = known(fd);
    if (!p) return real_close(fd);
    struct rep r = ask_abs(CLOSE, p, NULL, fd, 0, 0);
    if (fd > 2) { free(fdpath[fd]); fdpath[fd] = NULL; }
    int v = real_close(fd);
    if (r.action == FAIL) { errno = (int)r.arg; return -1; }
    return (int)done(r, v);
}

int dup(int fd) {
    REAL(dup);
    int n = real_dup(fd);
    if (n >= 0 && n < 1024 && known(fd)) { free(fdpath[n]); fdpath[n] = strdup(fdpath[fd]); }
    return n;
}
static int do_fcntl(int fd, int cmd, long arg) {
    int n = (int)syscall(SYS_fcntl, fd, cmd, arg);
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && n >= 0 && n < 1024 && known(fd)) { free(fdpath[n]); fdpath[n] = strdup(fdpath[fd]); }
    return n;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }

#define CLAMP(n) if ((r.action == SHORT || r.action == SHORT_KILL) && (int64_t)(n) > r.arg) n = (size_t)r.arg

ssize_t read(int fd, void *b, size_t n) {
    REAL(read);
    const char *p = known(fd);
    if (!p) return real_read(fd, b, n);
    struct rep r = ask_abs(READ, p, NULL, (int64_t)n, lseek64(fd, 0, SEEK_CUR), 0);
    if (r.action == FAIL) return -1;
    CLAMP(n);
    return done(r, real_read(fd, b, n));
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    REAL(pread64);
    const char *p = known(fd);
    if (!p) return real_pread64(fd, b, n, o);
    struct rep r = ask_abs(READ, p, NULL, (int64_t)n, o, 0);
    if (r.action == FAIL) return -1;
    CLAMP(n);
    return done(r, real_pread64(fd, b, n, o));
}
ssize_t readv(int fd, const struct iovec *v, int k) {
    REAL(readv);
    if (!known(fd)) return real_readv(fd, v, k);
    return k > 0 ? read(fd, v[0].iov_base, v[0].iov_len) : 0;
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    const char *p = known(fd);
    if (!p) return real_write(fd, b, n);
    struct rep r = ask_abs(WRITE, p, NULL, (int64_t)n, lseek64(fd, 0, SEEK_CUR), 0);
    if (r.action == FAIL) return -1;
    CLAMP(n);
    if (r.action == SHORT_KILL && n == 0) die();
    return done(r, real_write(fd, b, n));
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(pwrite64);
    const char *p = known(fd);
    if (!p) return real_pwrite64(fd, b, n, o);
    struct rep r = ask_abs(WRITE, p, NULL, (int64_t)n, o, 0);
    if (r.action == FAIL) return -1;
    CLAMP(n);
    return done(r, real_pwrite64(fd, b, n, o));
}
ssize_t writev(int fd, const struct iovec *v, int k) {
    REAL(writev);
    if (!known(fd)) return real_writev(fd, v, k);
    for (int i = 0; i < k; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
// Kernel-side copies are declined, so that the data passes through read and write.
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) {
    if (ctl >= 0) { errno = ENOSYS; return -1; }
    return syscall(SYS_copy_file_range, a, b, c, d, e, f);
}
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) {
    if (ctl >= 0) { errno = ENOSYS; return -1; }
    return syscall(SYS_sendfile, a, b, c, d);
}

int stat64(const char *p, struct stat64 *s) { REAL(stat64); PATHOP(STAT, AT_FDCWD, p, 0, 0, 0, real_stat64(p, s), -1) }
int lstat64(const char *p, struct stat64 *s) { REAL(lstat64); PATHOP(STAT, AT_FDCWD, p, 1, 0, 0, real_lstat64(p, s), -1) }
int stat(const char *p, struct stat *s) { return stat64(p, (struct stat64 *)s); }
int lstat(const char *p, struct stat *s) { return lstat64(p, (struct stat64 *)s); }
int fstat64(int fd, struct stat64 *s) {
    REAL(fstat64);
    const char *p = known(fd);
    if (!p || fd <= 2) return real_fstat64(fd, s);
    struct rep r = ask_abs(STAT, p, NULL, 2, 0, 0);
    if (r.action == FAIL) return -1;
    return (int)done(r, real_fstat64(fd, s));
}
int fstat(int fd, struct stat *s) { return fstat64(fd, (struct stat64 *)s); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { REAL(fstatat64); PATHOP(STAT, d, p, 0, f, 0, real_fstatat64(d, p, s, f), -1) }
int fstatat(int d, const char *p, struct stat *s, int f) { return fstatat64(d, p, (struct stat64 *)s, f); }
int statx(int d, const char *restrict p0, int f, unsigned m, struct statx *restrict s) {
    REAL(statx);
    const char *volatile pv = p0; // declared nonnull, but Rust probes with NULL
    const char *p = pv;
    if (p && !p[0]) {
        const char *q = known(d);
        if (!q || d <= 2) return real_statx(d, p, f, m, s);
        struct rep r = ask_abs(STAT, q, NULL, 2, 0, 0);
        if (r.action == FAIL) return -1;
        return (int)done(r, real_statx(d, p, f, m, s));
    }
    if (!p) return real_statx(d, p, f, m, s);
    PATHOP(STAT, d, p, 0, f, 0, real_statx(d, p, f, m, s), -1)
}
int access(const char *p, int m) { REAL(access); PATHOP(STAT, AT_FDCWD, p, 3, m, 0, real_access(p, m), -1) }
int faccessat(int d, const char *p, int m, int f) { REAL(faccessat); PATHOP(STAT, d, p, 3, m, 0, real_faccessat(d, p, m, f), -1) }
char *realpath(const char *restrict p, char *restrict o) { REAL(realpath); PATHOP(REALPATH, AT_FDCWD, p, 0, 0, 0, real_realpath(p, o), NULL) }
ssize_t readlink(const char *restrict p, char *restrict b, size_t n) { REAL(readlink); PATHOP(READLINK, AT_FDCWD, p, 0, 0, 0, real_readlink(p, b, n), -1) }
int mkdir(const char *p, mode_t m) { REAL(mkdir); PATHOP(MKDIR, AT_FDCWD, p, m, 0, 1, real_mkdir(p, m), -1) }
int mkdirat(int d, const char *p, mode_t m) { REAL(mkdirat); PATHOP(MKDIR, d, p, m, 0, 1, real_mkdirat(d, p, m), -1) }
int unlink(const char *p) { REAL(unlink); PATHOP(UNLINK, AT_FDCWD, p, 0, 0, 1, real_unlink(p), -1) }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); PATHOP(UNLINK, d, p, f, 0, 1, real_unlinkat(d, p, f), -1) }
int rmdir(const char *p) { REAL(rmdir); PATHOP(RMDIR, AT_FDCWD, p, 0, 0, 1, real_rmdir(p), -1) }
int chmod(const char *p, mode_t m) { REAL(chmod); PATHOP(CHMOD, AT_FDCWD, p, m, 0, 1, real_chmod(p, m), -1) }
int truncate64(const char *p, off64_t n) { REAL(truncate64); PATHOP(TRUNC, AT_FDCWD, p, n, 0, 1, real_truncate64(p, n), -1) }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { REAL(utimensat); PATHOP(UTIME, d, p, 0, f, 1, real_utimensat(d, p, t, f), -1) }
DIR *opendir(const char *p) { REAL(opendir); PATHOP(OPENDIR, AT_FDCWD, p, 0, 0, 0, real_opendir(p), NULL) }

#define FDOP(op, fd, a, call)                                     \
    const char *p_ = known(fd);                                   \
    if (!p_) return call;                                         \
    struct rep r_ = ask_abs(op, p_, NULL, a, 0, 0);               \
    if (r_.action == FAIL) return -1;                             \
    return (int)done(r_, call);
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); FDOP(TRUNC, fd, n, real_ftruncate64(fd, n)) }
int fchmod(int fd, mode_t m) { REAL(fchmod); FDOP(CHMOD, fd, m, real_fchmod(fd, m)) }
int fsync(int fd) { REAL(fsync); FDOP(SYNC, fd, 0, real_fsync(fd)) }
int fdatasync(int fd) { REAL(fdatasync); FDOP(SYNC, fd, 1, real_fdatasync(fd)) }
int futimens(int fd, const struct timespec t[2]) { REAL(futimens); FDOP(UTIME, fd, 0, real_futimens(fd, t)) }

#define TWO(op, d1, p1, d2, p2, call)                                                     \
    char x_[PATH_MAX], y_[PATH_MAX];                                                      \
    absolute(d1, p1, x_, sizeof x_); absolute(d2, p2, y_, sizeof y_);                     \
    if (ctl < 0) return call;                                                             \
    int out_ = !inside(x_) || !inside(y_);                                                \
    struct rep r_ = ask_abs(op, x_, y_, 0, 0, out_);                                      \
    if (out_) { errno = EROFS; return -1; }                                               \
    if (r_.action == FAIL) return -1;                                                     \
    return (int)done(r_, call);
int rename(const char *a, const char *b) { REAL(rename); TWO(RENAME, AT_FDCWD, a, AT_FDCWD, b, real_rename(a, b)) }
int renameat(int c, const char *a, int d, const char *b) { REAL(renameat); TWO(RENAME, c, a, d, b, real_renameat(c, a, d, b)) }
int renameat2(int c, const char *a, int d, const char *b, unsigned f) { REAL(renameat2); TWO(RENAME, c, a, d, b, real_renameat2(c, a, d, b, f)) }
int link(const char *a, const char *b) { REAL(link); TWO(LINK, AT_FDCWD, a, AT_FDCWD, b, real_link(a, b)) }
int linkat(int c, const char *a, int d, const char *b, int f) { REAL(linkat); TWO(LINK, c, a, d, b, real_linkat(c, a, d, b, f)) }
int symlink(const char *a, const char *b) { REAL(symlink); PATHOP(SYMLINK, AT_FDCWD, b, 0, 0, 1, real_symlink(a, b), -1) }

// ---- randomness and time ----
static uint64_t next(void) { rnd += 0x9e3779b97f4a7c15ULL; uint64_t z = rnd; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (ctl < 0) return syscall(SYS_getrandom, b, n, f);
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)next();
    return (ssize_t)n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
int clock_gettime(clockid_t c, struct timespec *t) {
    if (ctl < 0) return (int)syscall(SYS_clock_gettime, c, t);
    now_ns += 1000000;
    t->tv_sec = now_ns / 1000000000LL;
    t->tv_nsec = now_ns % 1000000000LL;
    return 0;
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
    (void)z;
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *o) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (o) *o = s.tv_sec;
    return s.tv_sec;
}
