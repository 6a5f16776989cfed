/* LD_PRELOAD seam: every libc file call that a simulated process makes on the simulated disk goes through one
 * callback (installed from Python), which lets it pass, fails it with an errno, or limits its length. Threads that
 * have no owner id (the harness) and paths outside the simulated disk are passed straight through.
 * Also: numpy memory handler with seeded dirty fill and injected allocation failure. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OPEN = 1, READ, WRITE, CLOSE, FSYNC, TRUNC, RENAME, LINK, UNLINK, MKDIR, RMDIR, SYMLINK, STAT, CHMOD, READLINK, COPY };

typedef long (*cb_t)(int op, int owner, int fd, const char *p1, const char *p2, long a);
typedef void (*post_t)(int op, int owner, int fd, const char *p1, const char *p2, long result);
static cb_t cb;
static post_t post;
static char root[1024];
static size_t rootlen;
static int cwd_in_root;
static __thread int tl_owner;
static __thread int tl_in;
#define NFD 65536
static short fdo[NFD];              /* owner+1 of a simulated fd, 0: not simulated */
static unsigned char dead[4096];

void sim_install(cb_t c, post_t p) { cb = c; post = p; }
void sim_root(const char *r, int cwd_in) { strncpy(root, r, sizeof root - 1); rootlen = strlen(root); cwd_in_root = cwd_in; }
void sim_owner(int o) { tl_owner = o; }
int sim_get_owner(void) { return tl_owner; }
void sim_kill(int o) { dead[o] = 1; }
void sim_revive(int o) { dead[o] = 0; }
int sim_is_dead(int o) { return dead[o]; }
int sim_open_fds(int o) { int n = 0; for (int i = 0; i < NFD; i++) if (fdo[i] == o + 1) n++; return n; }

static int in_root(int dirfd, const char *p) {
    if (!p || !rootlen) return 0;
    if (p[0] == '/') return strncmp(p, root, rootlen) == 0 && (p[rootlen] == '/' || p[rootlen] == 0);
    if (dirfd == AT_FDCWD) return cwd_in_root;
    return dirfd >= 0 && dirfd < NFD && fdo[dirfd] != 0;
}
static int active(void) { return cb && tl_owner && !tl_in; }
static long ask(int op, int owner, int fd, const char *p1, const char *p2, long a) {
    tl_in++;
    long r = cb(op, owner, fd, p1, p2, a);
    tl_in--;
    return r;
}
static void tell(int op, int owner, int fd, const char *p1, const char *p2, long res) {
    int e = errno;
    tl_in++;
    if (post) post(op, owner, fd, p1, p2, res);
    tl_in--;
    errno = e;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

/* ---- paths ---- */
#define PATHOP(op, dirfd, p1, p2, a, call) \
    do { \
        if (!active() || !(in_root(dirfd, p1) || (p2 && in_root(dirfd, p2)))) return call; \
        long _r = ask(op, tl_owner, -1, p1, p2, a); \
        if (_r < 0) { errno = (int)-_r; return -1; } \
        long _v = call; \
        tell(op, tl_owner, -1, p1, p2, _v); \
        return _v; \
    } while (0)

#define OPENBODY(dirfd, realcall) \
    int mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } \
    if (!active() || !in_root(dirfd, path)) { int f = realcall; return f; } \
    long r = ask(OPEN, tl_owner, -1, path, 0, flags); \
    if (r < 0) { errno = (int)-r; return -1; } \
    int f = realcall; \
    if (f >= 0 && f < NFD) fdo[f] = tl_owner + 1; \
    tell(OPEN, tl_owner, f, path, 0, f); \
    return f;

int open(const char *path, int flags, ...) { REAL(int, "open", const char *, int, ...); OPENBODY(AT_FDCWD, real(path, flags, mode)) }
int open64(const char *path, int flags, ...) { REAL(int, "open64", const char *, int, ...); OPENBODY(AT_FDCWD, real(path, flags, mode)) }
int openat(int d, const char *path, int flags, ...) { REAL(int, "openat", int, const char *, int, ...); OPENBODY(d, real(d, path, flags, mode)) }
int openat64(int d, const char *path, int flags, ...) { REAL(int, "openat64", int, const char *, int, ...); OPENBODY(d, real(d, path, flags, mode)) }

int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); PATHOP(RENAME, AT_FDCWD, a, b, 0, real(a, b)); }
int renameat(int d, const char *a, int e, const char *b) { REAL(int, "renameat", int, const char *, int, const char *); PATHOP(RENAME, d, a, b, 0, real(d, a, e, b)); }
int link(const char *a, const char *b) { REAL(int, "link", const char *, const char *); PATHOP(LINK, AT_FDCWD, a, b, 0, real(a, b)); }
int linkat(int d, const char *a, int e, const char *b, int f) { REAL(int, "linkat", int, const char *, int, const char *, int); PATHOP(LINK, d, a, b, 0, real(d, a, e, b, f)); }
int symlink(const char *a, const char *b) { REAL(int, "symlink", const char *, const char *); PATHOP(SYMLINK, AT_FDCWD, b, a, 0, real(a, b)); }
int symlinkat(const char *a, int d, const char *b) { REAL(int, "symlinkat", const char *, int, const char *); PATHOP(SYMLINK, d, b, a, 0, real(a, d, b)); }
int unlink(const char *a) { REAL(int, "unlink", const char *); PATHOP(UNLINK, AT_FDCWD, a, NULL, 0, real(a)); }
int unlinkat(int d, const char *a, int f) { REAL(int, "unlinkat", int, const char *, int); PATHOP((f & AT_REMOVEDIR) ? RMDIR : UNLINK, d, a, NULL, 0, real(d, a, f)); }
int rmdir(const char *a) { REAL(int, "rmdir", const char *); PATHOP(RMDIR, AT_FDCWD, a, NULL, 0, real(a)); }
int mkdir(const char *a, mode_t m) { REAL(int, "mkdir", const char *, mode_t); PATHOP(MKDIR, AT_FDCWD, a, NULL, 0, real(a, m)); }
int mkdirat(int d, const char *a, mode_t m) { REAL(int, "mkdirat", int, const char *, mode_t); PATHOP(MKDIR, d, a, NULL, 0, real(d, a, m)); }
int truncate64(const char *a, off64_t n) { REAL(int, "truncate64", const char *, off64_t); PATHOP(TRUNC, AT_FDCWD, a, NULL, n, real(a, n)); }
int chmod(const char *a, mode_t m) { REAL(int, "chmod", const char *, mode_t); PATHOP(CHMOD, AT_FDCWD, a, NULL, 0, real(a, m)); }
int fchmodat(int d, const char *a, mode_t m, int f) { REAL(int, "fchmodat", int, const char *, mode_t, int); PATHOP(CHMOD, d, a, NULL, 0, real(d, a, m, f)); }
int utimensat(int d, const char *a, const struct timespec t[2], int f) { REAL(int, "utimensat", int, const char *, const struct timespec[2], int); PATHOP(CHMOD, d, a, NULL, 0, real(d, a, t, f)); }
int stat64(const char *a, struct stat64 *s) { REAL(int, "stat64", const char *, struct stat64 *); PATHOP(STAT, AT_FDCWD, a, NULL, 0, real(a, s)); }
int lstat64(const char *a, struct stat64 *s) { REAL(int, "lstat64", const char *, struct stat64 *); PATHOP(STAT, AT_FDCWD, a, NULL, 0, real(a, s)); }
int fstatat64(int d, const char *a, struct stat64 *s, int f) { REAL(int, "fstatat64", int, const char *, struct stat64 *, int); PATHOP(STAT, d, a, NULL, 0, real(d, a, s, f)); }
int access(const char *a, int m) { REAL(int, "access", const char *, int); PATHOP(STAT, AT_FDCWD, a, NULL, 0, real(a, m)); }
int faccessat(int d, const char *a, int m, int f) { REAL(int, "faccessat", int, const char *, int, int); PATHOP(STAT, d, a, NULL, 0, real(d, a, m, f)); }

/* ---- descriptors ---- */
static int fdown(int fd) { return (fd >= 0 && fd < NFD && fdo[fd]) ? fdo[fd] - 1 : -1; }
#define FDOP(op, fd, n, limited, call) \
    int o = fdown(fd); \
    if (o < 0 || !cb || tl_in) return call; \
    long _r = ask(op, o, fd, NULL, NULL, n); \
    if (_r < 0) { errno = (int)-_r; return -1; } \
    if (limited && _r > 0 && (size_t)_r < (size_t)n) n = _r; \
    long _v = call; \
    tell(op, o, fd, NULL, NULL, _v); \
    return _v;

ssize_t read(int fd, void *b, size_t n) { REAL(ssize_t, "read", int, void *, size_t); FDOP(READ, fd, n, 1, real(fd, b, n)) }
ssize_t pread64(int fd, void *b, size_t n, off64_t off) { REAL(ssize_t, "pread64", int, void *, size_t, off64_t); FDOP(READ, fd, n, 1, real(fd, b, n, off)) }
ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, "write", int, const void *, size_t); FDOP(WRITE, fd, n, 1, real(fd, b, n)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off) { REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t); FDOP(WRITE, fd, n, 1, real(fd, b, n, off)) }
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (fdown(fd) < 0 || !cb || tl_in) return real(fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);  /* a legal short write */
    return 0;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, "readv", int, const struct iovec *, int);
    if (fdown(fd) < 0 || !cb || tl_in) return real(fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
int fsync(int fd) { REAL(int, "fsync", int); int n = 0; FDOP(FSYNC, fd, n, 0, real(fd)) }
int fdatasync(int fd) { REAL(int, "fdatasync", int); int n = 0; FDOP(FSYNC, fd, n, 0, real(fd)) }
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64", int, off64_t); FDOP(TRUNC, fd, n, 0, real(fd, n)) }
int fchmod(int fd, mode_t m) { REAL(int, "fchmod", int, mode_t); int n = 0; FDOP(CHMOD, fd, n, 0, real(fd, m)) }
/* In-kernel copies: not simulated byte by byte, so tell callers to fall back to read and write. */
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) {
    REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
    if ((fdown(out) < 0 && fdown(in) < 0) || !cb || tl_in) return real(out, in, off, n);
    errno = ENOTSOCK; return -1;
}
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f) {
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
    if ((fdown(out) < 0 && fdown(in) < 0) || !cb || tl_in) return real(in, oi, out, oo, n, f);
    errno = EXDEV; return -1;
}
int close(int fd) {
    REAL(int, "close", int);
    int o = fdown(fd);
    if (o < 0) return real(fd);
    if (!cb || tl_in) { fdo[fd] = 0; return real(fd); }
    long r = ask(CLOSE, o, fd, NULL, NULL, 0);
    fdo[fd] = 0;
    int v = real(fd);
    if (r < 0) { errno = (int)-r; v = -1; }   /* the descriptor is gone even when close reports an error */
    tell(CLOSE, o, fd, NULL, NULL, v);
    return v;
}

/* ---- numpy memory handler ---- */
typedef struct { void *ctx; void *(*malloc)(void *, size_t); void *(*calloc)(void *, size_t, size_t);
    void *(*realloc)(void *, void *, size_t); void (*free)(void *, void *, size_t); } Alloc;
typedef struct { char name[127]; uint8_t version; Alloc allocator; } Handler;
static volatile long al_count, al_from = -1, al_to = -1, al_failed;
static volatile int al_fill, al_armed;
static volatile uint64_t al_seed;
static __thread int tl_alloc;     /* only threads that opted in are counted and failed */
void sim_alloc_thread(int on) { tl_alloc = on; }
void sim_alloc_arm(int on, long from, long to) { al_count = 0; al_failed = 0; al_from = from; al_to = to; al_armed = on; }
long sim_alloc_count(void) { return al_count; }
long sim_alloc_failed(void) { return al_failed; }
void sim_alloc_fill(int on, uint64_t seed) { al_fill = on; al_seed = seed; }
static int al_hit(void) {
    if (!al_armed || !tl_alloc) return 0;
    long k = al_count++;
    if (al_from >= 0 && k >= al_from && k <= al_to) { al_failed++; return 1; }
    return 0;
}
static void dirty(void *p, size_t n) {
    if (!p || !al_fill) return;
    uint64_t x = al_seed * 0x9E3779B97F4A7C15ull + n;
    uint64_t *q = p; size_t i = 0;
    for (; i + 8 <= n; i += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        /* mostly ordinary looking doubles, so that garbage is not just NaN */
        *q++ = (al_fill == 2) ? 0x7ff8000000000000ull : ((x & 0x000fffffffffffffull) | 0x4000000000000000ull | (x & 0x8000000000000000ull)); }
    unsigned char *c = (unsigned char *)p + i; for (; i < n; i++) *c++ = (unsigned char)(x >> (i % 8)) & 1;
}
static void *h_malloc(void *c, size_t n) { if (al_hit()) return NULL; void *p = malloc(n); dirty(p, n); return p; }
static void *h_calloc(void *c, size_t a, size_t b) { if (al_hit()) return NULL; return calloc(a, b); }
static void *h_realloc(void *c, void *p, size_t n) { if (al_hit()) return NULL; return realloc(p, n); }
static void h_free(void *c, void *p, size_t n) { free(p); }
static Handler handler = { "sim_handler", 1, { NULL, h_malloc, h_calloc, h_realloc, h_free } };
void *sim_handler(void) { return &handler; }
