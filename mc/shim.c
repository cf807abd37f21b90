/* Interposes on the file operations of one process below one folder.
 *
 *  mode 1  counts and logs the operations, and carries out a plan: fail the k-th operation with an
 *          errno, cut a write short, kill the process before or in the middle of it, or let every
 *          operation of a class fail from the k-th one on.
 *  mode 2  asks a scheduler before every operation (one pipe each way), and turns blocking locks
 *          into "blocked" reports, so that the scheduler decides the interleaving.
 *  The clock (clock_gettime, gettimeofday, time) can be set by the controller.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OPEN = 1, CLOSE, READ, WRITE, TRUNC, FTRUNC, SYNC, RENAME, UNLINK, RMDIR, MKDIR, LOCK, UNLOCK, STAT, LINK, SYMLINK, LIST, SLEEP, COPY, SEEK, CHMOD, BLOCKED, DONE };
enum { PASS = 0, FAIL, SHORT, KILL, TORN };

#define MAXPLAN 8
#define MAXFD 1024

struct plan { int32_t at, action, arg, persist; };
struct shared {
    int32_t mode, nops, nplan, full;
    struct plan plan[MAXPLAN];
    int32_t clock_on, rfd, wfd, hit;
    int64_t clock_ns, clock_step;
    int64_t loglen, logmax;
    int64_t clock_calls, clock_limit;
    char prefix[512];
    char log[];
};

static struct shared *S;
static char *fdpath[MAXFD];
static int fdflags[MAXFD];
static int inside;

#define REAL(name) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)

static void full(int dirfd, const char *path, char *out)
{
    char base[4096];
    if (!path) path = "";
    if (path[0] == '/') { base[0] = 0; }
    else if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, base, sizeof base) < 0) base[0] = 0; }
    else if (dirfd >= 0 && dirfd < MAXFD && fdpath[dirfd]) snprintf(base, sizeof base, "%s", fdpath[dirfd]);
    else {
        char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
        ssize_t n = syscall(SYS_readlink, l, base, sizeof base - 1);
        base[n > 0 ? n : 0] = 0;
    }
    char tmp[8192];
    if (path[0]) snprintf(tmp, sizeof tmp, "%s%s%s", base, base[0] ? "/" : "", path);
    else snprintf(tmp, sizeof tmp, "%s", base);
    /* normalise //, /./ and /../ */
    char *o = out; *o = 0;
    for (char *p = tmp; *p;) {
        while (*p == '/') p++;
        char *e = p; while (*e && *e != '/') e++;
        size_t n = e - p;
        if (n == 1 && p[0] == '.') ;
        else if (n == 2 && p[0] == '.' && p[1] == '.') { while (o > out && *--o != '/') ; *o = 0; }
        else if (n) { *o++ = '/'; memcpy(o, p, n); o += n; *o = 0; }
        p = e;
    }
    if (o == out) { strcpy(out, "/"); }
}

static int under(const char *p)
{
    if (!S || !S->mode) return 0;
    size_t n = strlen(S->prefix);
    return !strncmp(p, S->prefix, n) && (p[n] == 0 || p[n] == '/');
}

static void put(const void *d, int32_t n)
{
    if (S->loglen + n > S->logmax) { S->full = 1; return; }
    memcpy(S->log + S->loglen, d, n); S->loglen += n;
}

struct rec { int32_t op, no, fd, err; int64_t arg, ret; int32_t l1, l2, l3, pad; };

static void record(int op, int no, int fd, int64_t arg, int64_t ret, int err, const char *p1, const char *p2, const void *d, int64_t nd)
{
    if (S->mode != 1) return;
    struct rec r = { op, no, fd, err, arg, ret, p1 ? (int)strlen(p1) : 0, p2 ? (int)strlen(p2) : 0, d ? (int)nd : 0, 0 };
    put(&r, sizeof r);
    if (p1) put(p1, r.l1);
    if (p2) put(p2, r.l2);
    if (d) put(d, r.l3);
}

static void die(void) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) ; }

static int creates(int op, int64_t arg) { return op == WRITE || op == TRUNC || op == FTRUNC || op == MKDIR || op == LINK || op == SYMLINK || op == SYNC || op == COPY || (op == OPEN && (arg & (O_CREAT | O_TRUNC))); }
static int changes(int op, int64_t arg) { return (op == OPEN && (arg & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR))) || op == RENAME || op == UNLINK || op == RMDIR || op == MKDIR || op == LINK || op == SYMLINK || op == TRUNC || op == CHMOD; }

/* what the plan says for this operation; *arg: errno or number of bytes */
static int planned(int op, int no, int64_t arg, int *val)
{
    for (int i = 0; i < S->nplan; i++) {
        struct plan *p = &S->plan[i];
        int yes = 0;
        if (p->persist == 0) yes = p->at == no;
        else if (no >= p->at) {
            if (p->persist == 1) yes = creates(op, arg);
            else if (p->persist == 2) yes = changes(op, arg);
            else if (p->persist == 4) yes = op == WRITE || op == COPY;
            else yes = op != CLOSE && op != UNLOCK && op != SLEEP;
        }
        if (yes) { S->hit++; *val = p->arg; return p->action; }
    }
    return PASS;
}

static void sayall(const void *b, size_t n)
{
    const char *p = b;
    while (n) {
        ssize_t k = syscall(SYS_write, S->wfd, p, n);
        if (k < 0) { if (errno == EINTR) continue; die(); }
        p += k; n -= k;
    }
}

static void ask(int op, int64_t arg, const char *p1, const char *p2)
{
    int e = errno;
    char b[8300];
    int l1 = p1 ? strlen(p1) : 0, l2 = p2 ? strlen(p2) : 0;
    int32_t h[4] = { op, (int32_t)arg, l1, l2 };
    memcpy(b, h, 16); memcpy(b + 16, p1, l1); if (l2) memcpy(b + 16 + l1, p2, l2);
    sayall(b, 16 + l1 + l2);
    char c;
    for (;;) {
        ssize_t n = syscall(SYS_read, S->rfd, &c, 1);
        if (n == 1) break;
        if (n == 0 || errno != EINTR) die();
    }
    if (c == 'k') die();
    errno = e;
}

/* before an operation: its number; *act and *val say what to do */
static int begin(int op, int64_t arg, const char *p1, const char *p2, int *act, int *val)
{
    int no = S->nops++;
    *act = PASS; *val = 0;
    if (S->mode == 2) { ask(op, arg, p1, p2); return no; }
    *act = planned(op, no, arg, val);
    if (*act == KILL) die();
    return no;
}

#define SIMPLE(op, arg, p1, p2, fd, call, logdata, logn) do { \
        int act, val, no = begin(op, arg, p1, p2, &act, &val); \
        int64_t r; \
        if (act == FAIL) { r = -1; errno = val; } else { inside++; r = (call); inside--; } \
        int e = errno; \
        record(op, no, fd, arg, r, r < 0 ? e : 0, p1, p2, logdata, logn); \
        errno = e; \
        return r; } while (0)

/* ---- open / close ---- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    char p[8192];
    if (inside || !S || !S->mode) return syscall(SYS_openat, dirfd, path, flags, mode);
    full(dirfd, path, p);
    if (!under(p)) return syscall(SYS_openat, dirfd, path, flags, mode);
    int act, val, no = begin(OPEN, flags, p, 0, &act, &val);
    int r;
    if (act == FAIL) { r = -1; errno = val; }
    else r = syscall(SYS_openat, dirfd, path, flags, mode);
    int e = errno;
    if (r >= 0 && r < MAXFD) { free(fdpath[r]); fdpath[r] = strdup(p); fdflags[r] = flags; }
    record(OPEN, no, r, flags, r, r < 0 ? e : 0, p, 0, 0, 0);
    errno = e;
    return r;
}
#define OMODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { OMODE return do_open(AT_FDCWD, path, flags, m); }
int open64(const char *path, int flags, ...) { OMODE return do_open(AT_FDCWD, path, flags | O_LARGEFILE, m); }
int openat(int d, const char *path, int flags, ...) { OMODE return do_open(d, path, flags, m); }
int openat64(int d, const char *path, int flags, ...) { OMODE return do_open(d, path, flags | O_LARGEFILE, m); }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

static char *known(int fd)
{
    if (inside || !S || !S->mode || fd < 0 || fd >= MAXFD) return 0;
    return fdpath[fd] && under(fdpath[fd]) ? fdpath[fd] : 0;
}

static void forget(int fd) { if (fd >= 0 && fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = 0; } }

int close(int fd)
{
    char *p = known(fd);
    if (!p) { if (S && fd >= 0 && fd < MAXFD && fdpath[fd]) forget(fd); return syscall(SYS_close, fd); }
    int act, val, no = begin(CLOSE, 0, p, 0, &act, &val);
    int r = syscall(SYS_close, fd); /* Linux closes also when it reports an error */
    int e = errno;
    if (act == FAIL) { r = -1; e = val; }
    record(CLOSE, no, fd, 0, r, r < 0 ? e : 0, p, 0, 0, 0);
    forget(fd);
    errno = e;
    return r;
}

int dup(int fd)
{
    char *p = known(fd);
    int r = syscall(SYS_dup, fd);
    if (p && r >= 0 && r < MAXFD) { free(fdpath[r]); fdpath[r] = strdup(p); fdflags[r] = fdflags[fd]; }
    return r;
}

/* ---- data ---- */
ssize_t read(int fd, void *b, size_t n)
{
    char *p = known(fd);
    if (!p) return syscall(SYS_read, fd, b, n);
    int act, val, no = begin(READ, n, p, 0, &act, &val);
    ssize_t r;
    if (act == FAIL) { r = -1; errno = val; }
    else r = syscall(SYS_read, fd, b, n);
    int e = errno;
    record(READ, no, fd, n, r, r < 0 ? e : 0, p, 0, 0, 0);
    errno = e;
    return r;
}
ssize_t pread64(int fd, void *b, size_t n, off_t o)
{
    char *p = known(fd);
    if (!p) return syscall(SYS_pread64, fd, b, n, o);
    SIMPLE(READ, n, p, 0, fd, syscall(SYS_pread64, fd, b, n, o), 0, 0);
}

static ssize_t do_write(int fd, const void *b, size_t n, int64_t off, char *p)
{
    int act, val, no = begin(WRITE, n, p, 0, &act, &val);
    ssize_t r;
    size_t want = n;
    if (act == SHORT || act == TORN) { want = val < 0 ? (size_t)(n * -(int64_t)val / 100) : (size_t)val; if (want > n) want = n; }
    if (act == SHORT && !want) want = n ? 1 : 0;
    if (act == FAIL) { r = -1; errno = val; }
    else if (off >= 0) r = syscall(SYS_pwrite64, fd, b, want, off);
    else r = syscall(SYS_write, fd, b, want);
    if (act == TORN) die();
    int e = errno;
    if (off < 0 && r >= 0 && !(fdflags[fd] & O_APPEND)) off = syscall(SYS_lseek, fd, 0, SEEK_CUR) - r;
    record(WRITE, no, fd, (fdflags[fd] & O_APPEND) ? -1 : off, r, r < 0 ? e : 0, p, 0, b, r > 0 ? r : 0);
    errno = e;
    return r;
}
ssize_t write(int fd, const void *b, size_t n)
{
    char *p = known(fd);
    if (!p) return syscall(SYS_write, fd, b, n);
    return do_write(fd, b, n, -1, p);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o)
{
    char *p = known(fd);
    if (!p) return syscall(SYS_pwrite64, fd, b, n, o);
    return do_write(fd, b, n, o, p);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    char *p = known(fd);
    if (!p) return syscall(SYS_writev, fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        if (!v[i].iov_len) continue;
        ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, -1, p);
        if (r < 0) return t ? t : -1;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
static int do_ftruncate(int fd, off_t n)
{
    char *p = known(fd);
    if (!p) return syscall(SYS_ftruncate, fd, n);
    SIMPLE(FTRUNC, n, p, 0, fd, syscall(SYS_ftruncate, fd, n), 0, 0);
}
int ftruncate(int fd, off_t n) { return do_ftruncate(fd, n); }
int ftruncate64(int fd, off_t n) { return do_ftruncate(fd, n); }
static int do_truncate(const char *path, off_t n)
{
    char p[8192];
    if (inside || !S || !S->mode || (full(AT_FDCWD, path, p), !under(p))) return syscall(SYS_truncate, path, n);
    SIMPLE(TRUNC, n, p, 0, -1, syscall(SYS_truncate, path, n), 0, 0);
}
int truncate(const char *path, off_t n) { return do_truncate(path, n); }
int truncate64(const char *path, off_t n) { return do_truncate(path, n); }
int fsync(int fd)
{
    char *p = known(fd);
    if (!p) return syscall(SYS_fsync, fd);
    SIMPLE(SYNC, 0, p, 0, fd, 0, 0, 0);
}
int fdatasync(int fd)
{
    char *p = known(fd);
    if (!p) return syscall(SYS_fdatasync, fd);
    SIMPLE(SYNC, 1, p, 0, fd, 0, 0, 0);
}
void sync(void)
{
    if (!S || !S->mode) { syscall(SYS_sync); return; }
    int act, val, no = begin(SYNC, 2, S->prefix, 0, &act, &val);
    record(SYNC, no, -1, 2, 0, 0, S->prefix, 0, 0, 0);
}
/* copies in the kernel: not available here, Python falls back to read and write */
ssize_t sendfile64(int o, int i, off_t *f, size_t n)
{
    if (known(o) || known(i)) { errno = EINVAL; return -1; }
    return syscall(SYS_sendfile, o, i, f, n);
}
ssize_t sendfile(int o, int i, off_t *f, size_t n) { return sendfile64(o, i, f, n); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f)
{
    if (known(o) || known(i)) { errno = EXDEV; return -1; }
    return syscall(SYS_copy_file_range, i, a, o, b, n, f);
}

/* ---- names ---- */
#define P1(d, x) char p[8192]; int u = !inside && S && S->mode && (full(d, x, p), under(p))
static int do_rename(int d1, const char *a, int d2, const char *b, unsigned f)
{
    char p[8192], q[8192];
    if (inside || !S || !S->mode) return syscall(SYS_renameat2, d1, a, d2, b, f);
    full(d1, a, p); full(d2, b, q);
    if (!under(p) && !under(q)) return syscall(SYS_renameat2, d1, a, d2, b, f);
    SIMPLE(RENAME, f, p, q, -1, syscall(SYS_renameat2, d1, a, d2, b, f), 0, 0);
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d, const char *a, int e, const char *b) { return do_rename(d, a, e, b, 0); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { return do_rename(d, a, e, b, f); }
static int do_unlink(int d, const char *a, int f)
{
    P1(d, a);
    if (!u) return syscall(SYS_unlinkat, d, a, f);
    SIMPLE((f & AT_REMOVEDIR) ? RMDIR : UNLINK, f, p, 0, -1, syscall(SYS_unlinkat, d, a, f), 0, 0);
}
int unlink(const char *a) { return do_unlink(AT_FDCWD, a, 0); }
int unlinkat(int d, const char *a, int f) { return do_unlink(d, a, f); }
int rmdir(const char *a) { return do_unlink(AT_FDCWD, a, AT_REMOVEDIR); }
int remove(const char *a) { int r = do_unlink(AT_FDCWD, a, 0); if (r < 0 && errno == EISDIR) r = do_unlink(AT_FDCWD, a, AT_REMOVEDIR); return r; }
static int do_mkdir(int d, const char *a, mode_t m)
{
    P1(d, a);
    if (!u) return syscall(SYS_mkdirat, d, a, m);
    SIMPLE(MKDIR, m, p, 0, -1, syscall(SYS_mkdirat, d, a, m), 0, 0);
}
int mkdir(const char *a, mode_t m) { return do_mkdir(AT_FDCWD, a, m); }
int mkdirat(int d, const char *a, mode_t m) { return do_mkdir(d, a, m); }
static int do_link(int d, const char *a, int e, const char *b, int f)
{
    char p[8192], q[8192];
    if (inside || !S || !S->mode) return syscall(SYS_linkat, d, a, e, b, f);
    full(d, a, p); full(e, b, q);
    if (!under(p) && !under(q)) return syscall(SYS_linkat, d, a, e, b, f);
    SIMPLE(LINK, f, p, q, -1, syscall(SYS_linkat, d, a, e, b, f), 0, 0);
}
int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int d, const char *a, int e, const char *b, int f) { return do_link(d, a, e, b, f); }
int symlinkat(const char *a, int d, const char *b)
{
    P1(d, b);
    if (!u) return syscall(SYS_symlinkat, a, d, b);
    SIMPLE(SYMLINK, 0, p, a, -1, syscall(SYS_symlinkat, a, d, b), 0, 0);
}
int symlink(const char *a, const char *b) { return symlinkat(a, AT_FDCWD, b); }

/* ---- looking ---- */
static int do_stat(int d, const char *a, struct stat *s, int f)
{
    P1(d, a);
    if (!u || (f & AT_EMPTY_PATH)) return syscall(SYS_newfstatat, d, a, s, f);
    SIMPLE(STAT, 0, p, 0, -1, syscall(SYS_newfstatat, d, a, s, f), 0, 0);
}
int stat(const char *a, struct stat *s) { return do_stat(AT_FDCWD, a, s, 0); }
int stat64(const char *a, struct stat64 *s) { return do_stat(AT_FDCWD, a, (struct stat *)s, 0); }
int lstat(const char *a, struct stat *s) { return do_stat(AT_FDCWD, a, s, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *a, struct stat64 *s) { return do_stat(AT_FDCWD, a, (struct stat *)s, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *a, struct stat *s, int f) { return do_stat(d, a, s, f); }
int fstatat64(int d, const char *a, struct stat64 *s, int f) { return do_stat(d, a, (struct stat *)s, f); }
int access(const char *a, int m)
{
    P1(AT_FDCWD, a);
    if (!u) return syscall(SYS_faccessat, AT_FDCWD, a, m);
    SIMPLE(STAT, 1, p, 0, -1, syscall(SYS_faccessat, AT_FDCWD, a, m), 0, 0);
}
DIR *opendir(const char *a)
{
    REAL(opendir);
    P1(AT_FDCWD, a);
    if (!u) return real(a);
    int act, val, no = begin(LIST, 0, p, 0, &act, &val);
    DIR *r;
    if (act == FAIL) { r = 0; errno = val; } else { inside++; r = real(a); inside--; }
    int e = errno;
    record(LIST, no, -1, 0, r ? 0 : -1, r ? 0 : e, p, 0, 0, 0);
    errno = e;
    return r;
}

/* ---- locks ---- */
static int blocking(int fd, char *p, int (*try)(int, void *), void *x)
{
    for (;;) {
        ask(LOCK, 0, p, 0);
        S->nops++;
        for (;;) {
            int r = try(fd, x);
            if (r == 0 || (errno != EWOULDBLOCK && errno != EAGAIN && errno != EACCES)) return r;
            ask(BLOCKED, 0, p, 0);
        }
    }
}
static int try_flock(int fd, void *x) { return syscall(SYS_flock, fd, *(int *)x | LOCK_NB); }
int flock(int fd, int op)
{
    char *p = known(fd);
    if (!p) return syscall(SYS_flock, fd, op);
    int kind = (op & LOCK_UN) ? UNLOCK : LOCK;
    if (S->mode == 2 && kind == LOCK && !(op & LOCK_NB)) return blocking(fd, p, try_flock, &op);
    SIMPLE(kind, op, p, 0, fd, syscall(SYS_flock, fd, op), 0, 0);
}
struct fc { int cmd; struct flock *l; };
static int try_fcntl(int fd, void *x) { struct fc *c = x; return syscall(SYS_fcntl, fd, c->cmd, c->l); }
static int do_fcntl(int fd, int cmd, void *arg)
{
    char *p = known(fd);
    if (p && (cmd == F_SETLKW || cmd == F_OFD_SETLKW || cmd == F_SETLK || cmd == F_OFD_SETLK)) {
        struct flock *l = arg;
        int kind = l->l_type == F_UNLCK ? UNLOCK : LOCK;
        if (S->mode == 2 && kind == LOCK && (cmd == F_SETLKW || cmd == F_OFD_SETLKW)) {
            struct fc c = { cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK, l };
            return blocking(fd, p, try_fcntl, &c);
        }
        SIMPLE(kind, cmd, p, 0, fd, syscall(SYS_fcntl, fd, cmd, arg), 0, 0);
    }
    int r = syscall(SYS_fcntl, fd, cmd, arg);
    if (p && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0 && r < MAXFD) { free(fdpath[r]); fdpath[r] = strdup(p); fdflags[r] = fdflags[fd]; }
    return r;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }

/* ---- time ---- */
static int fake(struct timespec *t)
{
    if (!S || !S->clock_on) return 0;
    int64_t now = S->clock_ns;
    S->clock_calls++;
    if (S->clock_limit == 0 || S->clock_calls < S->clock_limit) S->clock_ns += S->clock_step;
    t->tv_sec = now / 1000000000; t->tv_nsec = now % 1000000000;
    return 1;
}
int clock_gettime(clockid_t c, struct timespec *t)
{
    if ((c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) && fake(t)) return 0;
    REAL(clock_gettime);
    return real(c, t);
}
int gettimeofday(struct timeval *restrict v, void *restrict z)
{
    struct timespec t;
    if (fake(&t)) { v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000; return 0; }
    REAL(clock_gettime);
    real(CLOCK_REALTIME, &t);
    v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *p)
{
    struct timespec t;
    if (!fake(&t)) { REAL(clock_gettime); real(CLOCK_REALTIME, &t); }
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
static int sleeping(void) { if (inside || !S || S->mode != 2) return 0; ask(SLEEP, 0, S->prefix, 0); S->nops++; return 1; }
int nanosleep(const struct timespec *a, struct timespec *b)
{
    if (sleeping()) return 0;
    REAL(nanosleep);
    return real(a, b);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b)
{
    if (sleeping()) return 0;
    REAL(clock_nanosleep);
    return real(c, f, a, b);
}
int usleep(useconds_t u) { struct timespec t = { u / 1000000, (u % 1000000) * 1000 }; return nanosleep(&t, 0); }
unsigned sleep(unsigned s) { struct timespec t = { s, 0 }; nanosleep(&t, 0); return 0; }

/* ---- control (ctypes) ---- */
void wgmc_use(void *p) { S = p; memset(fdpath, 0, sizeof fdpath); }
void wgmc_done(void) { if (S && S->mode == 2) { char b[16]; int32_t h[4] = { DONE, 0, 0, 0 }; memcpy(b, h, 16); sayall(b, 16); S->mode = 0; } }
int wgmc_present(void) { return 4242; }
