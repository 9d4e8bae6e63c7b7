/* Deterministic-simulation seam at the libc boundary (LD_PRELOAD).
 *
 * Inactive until sim_attach() is called (by the node after fork) or, in a child
 * process started by a node (sh, the compiler), until the constructor finds the
 * SIM_* variables.  When active:
 *   - /tmp and /var/tmp live inside the run's private world directory;
 *   - every file operation on the world is announced to the controller before
 *     it happens and waits for its verdict (MODE_GATE), or just happens in the
 *     private world (MODE_PASS, used for reference executions);
 *   - clocks, sleeps, process ids, kernel randomness and temporary names come
 *     from the simulation.
 */
#define _GNU_SOURCE
#define _LARGEFILE64_SOURCE
#undef _FORTIFY_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MODE_OFF 0
#define MODE_PASS 1
#define MODE_GATE 2
#define V_GO 0
#define V_ERR 1
#define V_SPLIT 2
#define V_SHORT 3
#define V_KILL 4

static int g_mode = MODE_OFF, g_fd = -1, g_vpid = 0;
static char g_world[512]; static size_t g_wlen = 0;
static char g_ccbin[512];
static uint64_t g_rng = 88172645463325252ull;
static int64_t g_mono = 1000000000ll, g_wall = 1700000000000000000ll;
static long g_prev_ret = 0; static int g_prev_errno = 0;
static pthread_mutex_t g_mx = PTHREAD_MUTEX_INITIALIZER;
static __thread int g_in = 0;
static long g_events = 0; static int g_child = 0;

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__) = 0; \
    if (!real_##name) real_##name = (ret (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, #name);

static uint64_t rnd(void) {
    uint64_t z = (g_rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

void sim_attach(int fd, const char *world, int mode, int vpid, uint64_t seed, const char *ccbin) {
    char b[64];
    g_fd = fd; g_vpid = vpid; g_rng = seed * 2654435761ull + 12345;
    strncpy(g_world, world, sizeof g_world - 1); g_wlen = strlen(g_world);
    strncpy(g_ccbin, ccbin ? ccbin : "", sizeof g_ccbin - 1);
    g_prev_ret = 0; g_prev_errno = 0; g_events = 0;
    g_mono = 1000000000ll; g_wall = 1700000000000000000ll;
    snprintf(b, sizeof b, "%d", fd); setenv("SIM_FD", b, 1);
    snprintf(b, sizeof b, "%d", mode); setenv("SIM_MODE", b, 1);
    snprintf(b, sizeof b, "%d", vpid); setenv("SIM_VPID", b, 1);
    snprintf(b, sizeof b, "%llu", (unsigned long long) seed); setenv("SIM_SEED", b, 1);
    setenv("SIM_WORLD", world, 1); setenv("SIM_CCBIN", g_ccbin, 1);
    g_mode = mode;
}
static int64_t g_tick = 1000;
void sim_set_tick(int64_t t) { g_tick = t; }
void sim_set_mode(int mode) { g_mode = mode; }
int sim_get_mode(void) { return g_mode; }
void sim_set_clock(int64_t mono, int64_t wall) { g_mono = mono; g_wall = wall; }
long sim_events(void) { return g_events; }

__attribute__((constructor)) static void init(void) {
    const char *fd = getenv("SIM_FD"), *w = getenv("SIM_WORLD"), *m = getenv("SIM_MODE");
    if (fd && w && m && atoi(m)) {
        const char *v = getenv("SIM_VPID"), *s = getenv("SIM_SEED"), *c = getenv("SIM_CCBIN");
        sim_attach(atoi(fd), w, atoi(m), (v ? atoi(v) : 100) + 1, s ? strtoull(s, 0, 10) + 1 : 1, c);
        g_child = 1;
    }
}

static const char *map_path(const char *p, char *buf) {
    if (g_mode == MODE_OFF || !p || p[0] != '/') return p;
    const char *rest = 0;
    if (!strncmp(p, "/tmp", 4) && (p[4] == 0 || p[4] == '/')) rest = p + 4;
    else if (!strncmp(p, "/var/tmp", 8) && (p[8] == 0 || p[8] == '/')) rest = p + 8;
    if (!rest) return p;
    if (snprintf(buf, 4096, "%s/tmp%s", g_world, rest) >= 4096) return p;
    return buf;
}
static int watched(const char *p) {
    if (g_mode != MODE_GATE || g_in || !p) return 0;
    if (p[0] == '/') return !strncmp(p, g_world, g_wlen) && p[g_wlen] == '/';
    char cwd[4096];
    if (syscall(SYS_getcwd, cwd, sizeof cwd) <= 0) return 0;
    return !strncmp(cwd, g_world, g_wlen);
}
static int fd_path(int fd, char *buf) {
    if (g_mode != MODE_GATE || g_in || fd < 3 || fd == g_fd) return 0;
    char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlink, l, buf, 4095);
    if (n <= 0) return 0;
    buf[n] = 0;
    return !strncmp(buf, g_world, g_wlen) && buf[g_wlen] == '/';
}
static const char *canon(const char *p) { /* strip the world prefix for the log */
    if (p && !strncmp(p, g_world, g_wlen)) return p + g_wlen;
    return p ? p : "";
}

struct verdict { int code; long arg; };

/* thread mode: a file operation made without the interpreter lock is a scheduling point */
static void (*g_yield)(const char *) = 0;
void sim_set_yield(void (*f)(const char *)) { g_yield = f; }
static int gil_held(void) {
    static int (*check)(void) = 0;
    if (!check) check = (int (*)(void)) dlsym(RTLD_DEFAULT, "PyGILState_Check");
    return check ? check() : 1;
}

/* times of files follow the simulated clock: what an operation changed is stamped when it is done */
static char g_s1[4096], g_s2[4096]; static int g_stamp = 0;
enum { S_SELF = 1, S_DIR = 2, S_DIR2 = 4 };
static void stamp_one(const char *p, int dir) {
    struct timespec ts[2] = { { g_wall/1000000000, g_wall%1000000000 }, { g_wall/1000000000, g_wall%1000000000 } };
    char b[4096];
    snprintf(b, sizeof b, "%s", p);
    if (dir) { char *s = strrchr(b, '/'); if (!s) strcpy(b, "."); else if (s == b) return; else *s = 0; }
    syscall(SYS_utimensat, AT_FDCWD, b, ts, AT_SYMLINK_NOFOLLOW);
}
static void will_stamp(const char *op, const char *p1, const char *p2) {
    int s = 0;
    if (!strcmp(op, "opentrunc") || !strcmp(op, "openexcl") || !strcmp(op, "openw")) {
        int is_new = syscall(SYS_faccessat, AT_FDCWD, p1, F_OK) != 0;
        s = is_new ? S_SELF | S_DIR : op[4] == 't' ? S_SELF : 0;
    } else if (!strcmp(op, "write") || !strcmp(op, "write2") || !strcmp(op, "flush") || !strcmp(op, "trunc")) s = S_SELF;
    else if (!strcmp(op, "mkdir") || !strcmp(op, "link")) s = S_SELF | S_DIR;
    else if (!strcmp(op, "unlink")) s = S_DIR;
    else if (!strcmp(op, "rename")) s = S_DIR | S_DIR2;
    g_stamp = s;
    if (s) { snprintf(g_s1, sizeof g_s1, "%s", p1); snprintf(g_s2, sizeof g_s2, "%s", p2); }
}
static void stamp(void) {
    int s = g_stamp; g_stamp = 0;
    if (s & S_SELF) stamp_one(g_s1, 0);
    if (s & S_DIR) stamp_one(g_s1, 1);
    if (s & S_DIR2) stamp_one(g_s2, 1);
}

static struct verdict gate(const char *op, const char *p1, const char *p2, long n) {
    struct verdict v = { V_GO, 0 };
    g_stamp = 0;
    if (g_mode != MODE_GATE || g_in) return v;
    if (g_yield && !g_child && !gil_held()) g_yield(op);
    pthread_mutex_lock(&g_mx);
    g_in = 1; g_events++;
    char msg[9000];
    int len = snprintf(msg, sizeof msg, "%s\x1f%s\x1f%s\x1f%s\x1f%ld\x1f%ld\x1f%d\x1f%lld\x1f%lld", g_child ? "C" : "G", op, canon(p1), canon(p2), n,
                       g_prev_ret, g_prev_errno, (long long) g_mono, (long long) g_wall);
    if (len >= (int) sizeof msg) len = sizeof msg - 1;
    long r;
    do r = syscall(SYS_sendto, g_fd, msg, len, MSG_NOSIGNAL, 0, 0); while (r < 0 && errno == EINTR);
    if (r < 0) syscall(SYS_exit_group, 99);
    char rep[256];
    do r = syscall(SYS_recvfrom, g_fd, rep, sizeof rep - 1, 0, 0, 0); while (r < 0 && errno == EINTR);
    if (r <= 0) syscall(SYS_exit_group, 99);
    rep[r] = 0;
    long long mono = 0, wall = 0;
    sscanf(rep, "%d %ld %lld %lld", &v.code, &v.arg, &mono, &wall);
    if (mono > g_mono) g_mono = mono;
    if (wall) g_wall = wall;
    if (v.code != V_ERR) will_stamp(op, p1, p2);
    g_in = 0;
    pthread_mutex_unlock(&g_mx);
    if (v.code == V_KILL && v.arg == 1 && g_child) {      /* with the shell that runs it */
        char f[64], b[64] = ""; long pp = syscall(SYS_getppid);
        snprintf(f, sizeof f, "/proc/%ld/comm", pp);
        int fd = syscall(SYS_openat, AT_FDCWD, f, O_RDONLY, 0);
        if (fd >= 0) { if (syscall(SYS_read, fd, b, sizeof b - 1) < 0) b[0] = 0; syscall(SYS_close, fd); }
        if (!strcmp(b, "sh\n") || !strcmp(b, "dash\n") || !strcmp(b, "bash\n")) syscall(SYS_kill, pp, SIGKILL);
    }
    if (v.code == V_KILL) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); }
    return v;
}
static void done(long ret) {
    g_prev_ret = ret < 0 ? -1 : ret; g_prev_errno = ret < 0 ? errno : 0;
    if (ret >= 0 && g_stamp) { int e = errno; stamp(); errno = e; }
    g_stamp = 0;
}

/* generic: gate, then fail or run EXPR */
#define GATED(op, p1, p2, n, type, expr) do { \
    struct verdict _v = gate(op, p1, p2, n); type _r; \
    if (_v.code == V_ERR) { errno = (int) _v.arg; done(-1); errno = (int) _v.arg; return (type) -1; } \
    _r = (expr); int _e = errno; done((long) _r); errno = _e; return _r; } while (0)

/* ---------- open ---------- */
static long do_open(int dfd, const char *path, int flags, mode_t mode) {
    char b[4096]; const char *p = map_path(path, b);
    if ((dfd == AT_FDCWD || (p && p[0] == '/')) && watched(p)) {
        int w = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND)) != 0;
        const char *op = (flags & O_DIRECTORY) ? "opendir" : !w ? "openr" : (flags & O_TRUNC) ? "opentrunc" : (flags & O_EXCL) ? "openexcl" : "openw";
        GATED(op, p, "", flags, long, syscall(SYS_openat, dfd, p, flags, mode));
    }
    return syscall(SYS_openat, dfd, p, flags, mode);
}
#define GETMODE(last) mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, last); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { GETMODE(flags) return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { GETMODE(flags) return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { GETMODE(flags) return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { GETMODE(flags) return do_open(d, path, flags | O_LARGEFILE, mode); }
int __open_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int __open64_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return creat(path, m); }

static FILE *do_fopen(const char *path, const char *mode, FILE *(*realf)(const char *, const char *)) {
    char b[4096]; const char *p = map_path(path, b);
    if (!watched(p)) return realf(p, mode);
    int w = strpbrk(mode, "wa+") != 0;
    struct verdict v = gate(!w ? "openr" : strchr(mode, 'w') ? "opentrunc" : "openw", p, "", 0);
    if (v.code == V_ERR) { errno = v.arg; done(-1); errno = v.arg; return 0; }
    FILE *f = realf(p, mode); int e = errno; done(f ? 0 : -1); errno = e; return f;
}
FILE *fopen(const char *path, const char *mode) { REAL(FILE *, fopen, const char *, const char *) return do_fopen(path, mode, real_fopen); }
FILE *fopen64(const char *path, const char *mode) { REAL(FILE *, fopen64, const char *, const char *) return do_fopen(path, mode, real_fopen64); }

/* ---------- data ---------- */
ssize_t read(int fd, void *buf, size_t n) {
    char p[4096];
    if (fd_path(fd, p)) {
        struct verdict v = gate("read", p, "", (long) n);
        if (v.code == V_ERR) { errno = v.arg; done(-1); errno = v.arg; return -1; }
        if (v.code == V_SHORT && v.arg > 0 && (size_t) v.arg < n) n = v.arg;
        ssize_t r = syscall(SYS_read, fd, buf, n); int e = errno; done(r); errno = e; return r;
    }
    return syscall(SYS_read, fd, buf, n);
}
static ssize_t pread_(int fd, void *buf, size_t n, off64_t off) {
    char p[4096];
    if (fd_path(fd, p)) GATED("read", p, "", (long) n, ssize_t, syscall(SYS_pread64, fd, buf, n, off));
    return syscall(SYS_pread64, fd, buf, n, off);
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return pread_(fd, buf, n, off); }
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) { return pread_(fd, buf, n, off); }

static ssize_t do_write(int fd, const void *buf, size_t n) {
    char p[4096];
    if (!fd_path(fd, p)) return syscall(SYS_write, fd, buf, n);
    struct verdict v = gate("write", p, "", (long) n);
    if (v.code == V_ERR) { errno = v.arg; done(-1); errno = v.arg; return -1; }
    if (v.code == V_SHORT && n > 1) { /* a short count: legal, callers must go on */
        size_t k = 1 + (size_t) v.arg % (n - 1);
        ssize_t r = syscall(SYS_write, fd, buf, k); int e = errno; done(r); errno = e; return r;
    }
    if (v.code == V_SPLIT && n > 1) { /* the same write, observable half-way */
        size_t k = 1 + (size_t) v.arg % (n - 1);
        ssize_t r = syscall(SYS_write, fd, buf, k); int e = errno; done(r); errno = e;
        if (r < (ssize_t) k) return r;
        struct verdict v2 = gate("write2", p, "", (long) (n - k));
        if (v2.code == V_ERR) { done(r); return r; } /* error after partial: short count now, errno next time */
        ssize_t r2 = syscall(SYS_write, fd, (const char *) buf + k, n - k); e = errno; done(r2); errno = e;
        return r2 < 0 ? r : r + r2;
    }
    ssize_t r = syscall(SYS_write, fd, buf, n); int e = errno; done(r); errno = e; return r;
}
ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n); }
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) {
    char p[4096];
    if (fd_path(fd, p)) GATED("write", p, "", (long) n, ssize_t, syscall(SYS_pwrite64, fd, buf, n, off));
    return syscall(SYS_pwrite64, fd, buf, n, off);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) { return pwrite(fd, buf, n, off); }
ssize_t writev(int fd, const struct iovec *iov, int c) {
    char p[4096];
    if (!fd_path(fd, p)) return syscall(SYS_writev, fd, iov, c);
    size_t tot = 0; for (int i = 0; i < c; i++) tot += iov[i].iov_len;
    char *tmp = malloc(tot + 1); size_t o = 0;
    for (int i = 0; i < c; i++) { memcpy(tmp + o, iov[i].iov_base, iov[i].iov_len); o += iov[i].iov_len; }
    ssize_t r = do_write(fd, tmp, tot); int e = errno; free(tmp); errno = e; return r;
}
size_t fwrite(const void *buf, size_t sz, size_t n, FILE *f) {
    REAL(size_t, fwrite, const void *, size_t, size_t, FILE *) REAL(int, fflush, FILE *)
    char p[4096];
    if (!f || !sz || !n || !fd_path(fileno(f), p)) return real_fwrite(buf, sz, n, f);
    size_t tot = sz * n;
    struct verdict v = gate("write", p, "", (long) tot);
    if (v.code == V_ERR) { errno = v.arg; done(-1); errno = v.arg; return 0; }
    if ((v.code == V_SPLIT || v.code == V_SHORT) && tot > 1) {
        size_t k = 1 + (size_t) v.arg % (tot - 1);
        size_t r = real_fwrite(buf, 1, k, f); real_fflush(f); done((long) r);
        struct verdict v2 = gate("write2", p, "", (long) (tot - k));
        if (v2.code == V_ERR) { errno = v2.arg; done(-1); errno = v2.arg; return k / sz; }
        r += real_fwrite((const char *) buf + k, 1, tot - k, f); done((long) r);
        return r / sz;
    }
    size_t r = real_fwrite(buf, sz, n, f); int e = errno; done((long) r); errno = e; return r;
}
size_t fread(void *buf, size_t sz, size_t n, FILE *f) {
    REAL(size_t, fread, void *, size_t, size_t, FILE *)
    char p[4096];
    if (f && sz && n && fd_path(fileno(f), p)) {
        struct verdict v = gate("read", p, "", (long) (sz * n));
        if (v.code == V_ERR) { errno = v.arg; done(-1); errno = v.arg; return 0; }
        size_t r = real_fread(buf, sz, n, f); int e = errno; done((long) r); errno = e; return r;
    }
    return real_fread(buf, sz, n, f);
}
int fflush(FILE *f) {
    REAL(int, fflush, FILE *)
    char p[4096];
    if (f && fd_path(fileno(f), p)) GATED("flush", p, "", 0, int, real_fflush(f));
    return real_fflush(f);
}
int fclose(FILE *f) {
    REAL(int, fclose, FILE *)
    char p[4096];
    if (f && (fcntl(fileno(f), F_GETFL) & O_ACCMODE) != O_RDONLY && fd_path(fileno(f), p)) {
        struct verdict v = gate("flush", p, "", 0);
        if (v.code == V_ERR) { real_fclose(f); errno = v.arg; done(-1); errno = v.arg; return -1; }
        int r = real_fclose(f); int e = errno; done(r); errno = e; return r;
    }
    return real_fclose(f);
}
int fsync(int fd) { char p[4096]; if (fd_path(fd, p)) GATED("fsync", p, "", 0, int, 0); return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { char p[4096]; if (fd_path(fd, p)) GATED("fsync", p, "", 0, int, 0); return syscall(SYS_fdatasync, fd); }
int ftruncate64(int fd, off64_t n) { char p[4096]; if (fd_path(fd, p)) GATED("trunc", p, "", n, int, syscall(SYS_ftruncate, fd, n)); return syscall(SYS_ftruncate, fd, n); }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int truncate64(const char *path, off64_t n) { char b[4096]; const char *p = map_path(path, b); if (watched(p)) GATED("trunc", p, "", n, int, syscall(SYS_truncate, p, n)); return syscall(SYS_truncate, p, n); }
int truncate(const char *path, off_t n) { return truncate64(path, n); }
ssize_t sendfile(int o, int i, off_t *off, size_t n) { char p[4096]; if (fd_path(o, p)) GATED("write", p, "", (long) n, ssize_t, syscall(SYS_sendfile, o, i, off, n)); return syscall(SYS_sendfile, o, i, off, n); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return sendfile(o, i, (off_t *) off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned fl) {
    char p[4096]; if (fd_path(o, p)) GATED("write", p, "", (long) n, ssize_t, syscall(SYS_copy_file_range, i, io, o, oo, n, fl));
    return syscall(SYS_copy_file_range, i, io, o, oo, n, fl);
}

/* ---------- names ---------- */
static int do_stat(int d, const char *path, struct stat *st, int fl) {
    char b[4096]; const char *p = map_path(path, b);
    if (p && p[0] && (d == AT_FDCWD || p[0] == '/') && watched(p)) GATED("stat", p, "", fl, int, (int) syscall(SYS_newfstatat, d, p, st, fl));
    return syscall(SYS_newfstatat, d, p, st, fl);
}
int stat(const char *p, struct stat *s) { return do_stat(AT_FDCWD, p, s, 0); }
int stat64(const char *p, struct stat64 *s) { return do_stat(AT_FDCWD, p, (struct stat *) s, 0); }
int lstat(const char *p, struct stat *s) { return do_stat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *s) { return do_stat(AT_FDCWD, p, (struct stat *) s, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *p, struct stat *s, int f) { return do_stat(d, p, s, f); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { return do_stat(d, p, (struct stat *) s, f); }
int __xstat(int v, const char *p, struct stat *s) { (void) v; return do_stat(AT_FDCWD, p, s, 0); }
int __lxstat(int v, const char *p, struct stat *s) { (void) v; return do_stat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int statx(int d, const char *path, int fl, unsigned mask, struct statx *s) {
    char b[4096]; const char *p = map_path(path, b);
    if (p && p[0] && (d == AT_FDCWD || p[0] == '/') && watched(p)) GATED("stat", p, "", fl, int, (int) syscall(SYS_statx, d, p, fl, mask, s));
    return syscall(SYS_statx, d, p, fl, mask, s);
}
static int do_access(int d, const char *path, int m, int f) {
    char b[4096]; const char *p = map_path(path, b);
    if ((d == AT_FDCWD || (p && p[0] == '/')) && watched(p)) GATED("stat", p, "", m, int, (int) syscall(SYS_faccessat2, d, p, m, f));
    return syscall(SYS_faccessat2, d, p, m, f);
}
int access(const char *p, int m) { return do_access(AT_FDCWD, p, m, 0); }
int eaccess(const char *p, int m) { return do_access(AT_FDCWD, p, m, 0); }
int euidaccess(const char *p, int m) { return do_access(AT_FDCWD, p, m, 0); }
int faccessat(int d, const char *p, int m, int f) { return do_access(d, p, m, f); }
int mkdirat(int d, const char *path, mode_t m) {
    char b[4096]; const char *p = map_path(path, b);
    if ((d == AT_FDCWD || (p && p[0] == '/')) && watched(p)) GATED("mkdir", p, "", 0, int, (int) syscall(SYS_mkdirat, d, p, m));
    return syscall(SYS_mkdirat, d, p, m);
}
int mkdir(const char *p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }
static int do_rename(int d1, const char *a, int d2, const char *c, unsigned fl) {
    char b1[4096], b2[4096]; const char *p = map_path(a, b1), *q = map_path(c, b2);
    if (watched(p) || watched(q)) GATED("rename", p, q, fl, int, (int) syscall(SYS_renameat2, d1, p, d2, q, fl));
    return syscall(SYS_renameat2, d1, p, d2, q, fl);
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return do_rename(d1, a, d2, b, f); }
int linkat(int d1, const char *a, int d2, const char *c, int f) {
    char b1[4096], b2[4096]; const char *p = map_path(a, b1), *q = map_path(c, b2);
    if (watched(p) || watched(q)) GATED("link", p, q, 0, int, (int) syscall(SYS_linkat, d1, p, d2, q, f));
    return syscall(SYS_linkat, d1, p, d2, q, f);
}
int link(const char *a, const char *b) { return linkat(AT_FDCWD, a, AT_FDCWD, b, 0); }
int symlinkat(const char *a, int d, const char *c) {
    char b2[4096]; const char *q = map_path(c, b2);
    if (watched(q)) GATED("link", q, a, 0, int, (int) syscall(SYS_symlinkat, a, d, q));
    return syscall(SYS_symlinkat, a, d, q);
}
int symlink(const char *a, const char *b) { return symlinkat(a, AT_FDCWD, b); }
int unlinkat(int d, const char *path, int f) {
    char b[4096]; const char *p = map_path(path, b);
    if ((d == AT_FDCWD || (p && p[0] == '/')) && watched(p)) GATED("unlink", p, "", f, int, (int) syscall(SYS_unlinkat, d, p, f));
    return syscall(SYS_unlinkat, d, p, f);
}
int unlink(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
int rmdir(const char *p) { return unlinkat(AT_FDCWD, p, AT_REMOVEDIR); }
int remove(const char *p) {
    int r = unlinkat(AT_FDCWD, p, 0);
    if (r < 0 && errno == EISDIR) r = unlinkat(AT_FDCWD, p, AT_REMOVEDIR);
    return r;
}
int chmod(const char *path, mode_t m) {
    char b[4096]; const char *p = map_path(path, b);
    if (watched(p)) GATED("chmod", p, "", m, int, (int) syscall(SYS_fchmodat, AT_FDCWD, p, m));
    return syscall(SYS_fchmodat, AT_FDCWD, p, m);
}
int fchmodat(int d, const char *path, mode_t m, int f) { (void) f; char b[4096]; const char *p = map_path(path, b); return syscall(SYS_fchmodat, d, p, m); }
int chdir(const char *path) { char b[4096]; return syscall(SYS_chdir, map_path(path, b)); }
DIR *opendir(const char *path) {
    REAL(DIR *, opendir, const char *)
    char b[4096]; const char *p = map_path(path, b);
    if (watched(p)) {
        struct verdict v = gate("opendir", p, "", 0);
        if (v.code == V_ERR) { errno = v.arg; done(-1); errno = v.arg; return 0; }
        DIR *d = real_opendir(p); int e = errno; done(d ? 0 : -1); errno = e; return d;
    }
    return real_opendir(p);
}
int utimensat(int d, const char *path, const struct timespec ts[2], int f) { char b[4096]; return syscall(SYS_utimensat, d, map_path(path, b), ts, f); }
char *realpath(const char *path, char *res) { REAL(char *, realpath, const char *, char *) char b[4096]; return real_realpath(map_path(path, b), res); }
ssize_t readlink(const char *path, char *buf, size_t n) { char b[4096]; return syscall(SYS_readlink, map_path(path, b), buf, n); }

/* ---------- temporary names ---------- */
static void tmpl_fill(char *s) { static const char A[] = "abcdefghijklmnopqrstuvwxyz0123456789"; for (int i = 0; i < 6; i++) s[i] = A[rnd() % 36]; }
static int do_mkstemps(char *t, int suf, int fl) {
    size_t n = strlen(t);
    if (n < 6u + suf || memcmp(t + n - suf - 6, "XXXXXX", 6)) { errno = EINVAL; return -1; }
    for (int i = 0; i < 100; i++) {
        tmpl_fill(t + n - suf - 6);
        int fd = do_open(AT_FDCWD, t, O_RDWR | O_CREAT | O_EXCL | fl, 0600);
        if (fd >= 0 || errno != EEXIST) return fd;
    }
    errno = EEXIST; return -1;
}
int mkstemp(char *t) { return do_mkstemps(t, 0, 0); }
int mkstemp64(char *t) { return do_mkstemps(t, 0, 0); }
int mkstemps(char *t, int s) { return do_mkstemps(t, s, 0); }
int mkstemps64(char *t, int s) { return do_mkstemps(t, s, 0); }
int mkostemp(char *t, int f) { return do_mkstemps(t, 0, f & ~O_ACCMODE); }
int mkostemp64(char *t, int f) { return do_mkstemps(t, 0, f & ~O_ACCMODE); }
int mkostemps(char *t, int s, int f) { return do_mkstemps(t, s, f & ~O_ACCMODE); }
int mkostemps64(char *t, int s, int f) { return do_mkstemps(t, s, f & ~O_ACCMODE); }
char *mkdtemp(char *t) {
    size_t n = strlen(t);
    if (n < 6) { errno = EINVAL; return 0; }
    for (int i = 0; i < 100; i++) { tmpl_fill(t + n - 6); if (!mkdirat(AT_FDCWD, t, 0700)) return t; if (errno != EEXIST) return 0; }
    return 0;
}
char *tmpnam(char *s) { static char st[64]; if (!s) s = st; strcpy(s, "/tmp/fileXXXXXX"); tmpl_fill(s + 9); return s; }
char *mktemp(char *t) { size_t n = strlen(t); if (n >= 6) tmpl_fill(t + n - 6); return t; }

/* ---------- processes and libraries ---------- */
int system(const char *cmd) {
    REAL(int, system, const char *)
    if (g_mode == MODE_GATE && cmd && !g_in) {
        struct verdict v = gate("system", "", "", (long) strlen(cmd));
        if (v.code == V_ERR) { errno = v.arg; done(-1); errno = v.arg; return -1; }
        int r = real_system(cmd); done(r); return r;
    }
    return real_system(cmd);
}
void *dlopen(const char *path, int fl) {
    REAL(void *, dlopen, const char *, int)
    if (g_mode == MODE_OFF || !path) return real_dlopen(path, fl);
    char b[4096]; const char *p = map_path(path, b);
    if (watched(p)) {
        struct verdict v = gate("dlopen", p, "", 0);
        if (v.code == V_ERR) { real_dlopen("/nonexistent/sim-injected.so", fl); done(-1); return 0; }
    }
    return real_dlopen(p, fl);
}
static const char *map_exec(const char *path, char *buf) {
    static const char *cc[] = { "c++", "g++", "gcc", "cc", "clang++", "clang", "g++-13", "gcc-13", "c++-13", 0 };
    if (g_mode == MODE_OFF || !g_ccbin[0] || !path) return path;
    const char *base = 0;
    if (!strncmp(path, "/usr/bin/", 9)) base = path + 9;
    else if (!strncmp(path, "/bin/", 5)) base = path + 5;
    else if (!strncmp(path, "/usr/local/bin/", 15)) base = path + 15;
    if (base) for (int i = 0; cc[i]; i++) if (!strcmp(base, cc[i])) { snprintf(buf, 4096, "%s/c++", g_ccbin); return buf; }
    return map_path(path, buf);
}
int execve(const char *path, char *const argv[], char *const envp[]) {
    REAL(int, execve, const char *, char *const *, char *const *)
    char b[4096]; return real_execve(map_exec(path, b), argv, envp);
}

/* ---------- locks ---------- */
int flock(int fd, int op) {
    char p[4096];
    if (!fd_path(fd, p)) return syscall(SYS_flock, fd, op);
    struct verdict v = gate("lock", p, "", op);
    if (v.code == V_ERR) { errno = v.arg; done(-1); errno = v.arg; return -1; }
    for (;;) {
        int r = syscall(SYS_flock, fd, op | LOCK_NB);
        if (r == 0 || errno != EWOULDBLOCK || (op & LOCK_NB)) { int e = errno; done(r); errno = e; return r; }
        gate("lockwait", p, "", op);
    }
}
static int do_fcntl(int fd, int cmd, void *arg) {
    char p[4096];
    if ((cmd == F_SETLKW || cmd == F_SETLK || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW) && fd_path(fd, p)) {
        int nb = cmd == F_SETLKW ? F_SETLK : cmd == F_OFD_SETLKW ? F_OFD_SETLK : cmd;
        gate("lock", p, "", cmd);
        for (;;) {
            int r = syscall(SYS_fcntl, fd, nb, arg);
            if (r == 0 || (errno != EAGAIN && errno != EACCES) || nb == cmd) { int e = errno; done(r); errno = e; return r; }
            gate("lockwait", p, "", cmd);
        }
    }
    return syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }
int lockf64(int fd, int cmd, off64_t len) {
    struct flock fl = { .l_type = cmd == F_ULOCK ? F_UNLCK : F_WRLCK, .l_whence = SEEK_CUR, .l_start = 0, .l_len = len };
    return do_fcntl(fd, cmd == F_LOCK ? F_SETLKW : F_SETLK, &fl);
}
int lockf(int fd, int cmd, off_t len) { return lockf64(fd, cmd, len); }

/* ---------- time, identity, randomness ---------- */
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (g_mode == MODE_OFF) return syscall(SYS_clock_gettime, id, ts);
    g_mono += g_tick; g_wall += g_tick;
    int64_t t = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) ? g_wall : g_mono;
    ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    if (g_mode == MODE_OFF) return syscall(SYS_gettimeofday, tv, tz);
    g_mono += g_tick; g_wall += g_tick;
    if (tv) { tv->tv_sec = g_wall / 1000000000; tv->tv_usec = g_wall % 1000000000 / 1000; }
    return 0;
}
time_t time(time_t *t) {
    time_t r;
    if (g_mode == MODE_OFF) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec; }
    else r = g_wall / 1000000000;
    if (t) *t = r;
    return r;
}
static int do_sleep(int64_t ns) {
    if (g_mode == MODE_GATE && !g_in) gate("sleep", "", "", (long) ns);
    g_mono += ns; g_wall += ns;
    return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b) { if (g_mode == MODE_OFF) return syscall(SYS_nanosleep, a, b); return do_sleep(a->tv_sec * 1000000000ll + a->tv_nsec); }
int clock_nanosleep(clockid_t id, int fl, const struct timespec *a, struct timespec *b) {
    if (g_mode == MODE_OFF) { return syscall(SYS_clock_nanosleep, id, fl, a, b) < 0 ? errno : 0; }
    int64_t ns = a->tv_sec * 1000000000ll + a->tv_nsec;
    if (fl & TIMER_ABSTIME) ns -= (id == CLOCK_REALTIME ? g_wall : g_mono);
    return ns > 0 ? do_sleep(ns) : 0;
}
int usleep(useconds_t us) { if (g_mode == MODE_OFF) { struct timespec t = { us / 1000000, us % 1000000 * 1000 }; return syscall(SYS_nanosleep, &t, 0); } return do_sleep(us * 1000ll); }
unsigned sleep(unsigned s) { if (g_mode == MODE_OFF) { struct timespec t = { s, 0 }; syscall(SYS_nanosleep, &t, 0); return 0; } do_sleep(s * 1000000000ll); return 0; }
pid_t getpid(void) { if (g_mode == MODE_OFF || !g_vpid) return syscall(SYS_getpid); return g_vpid; }
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (g_mode == MODE_OFF) return syscall(SYS_getrandom, b, n, f);
    for (size_t i = 0; i < n; i++) ((unsigned char *) b)[i] = rnd() >> 13;
    return n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t) n ? 0 : -1; }

/* The interpreter's waits for its own lock have deadlines read from the simulated clock: wait the same interval of real time. */
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    static int (*real)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *) = 0;
    static int (*clockwait)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *) = 0;
    if (!real) real = dlvsym(RTLD_NEXT, "pthread_cond_timedwait", "GLIBC_2.3.2");
    if (!clockwait) clockwait = dlsym(RTLD_NEXT, "pthread_cond_clockwait");
    if (g_mode == MODE_OFF) return real(c, m, ts);
    struct timespec t;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    t.tv_nsec += 5000000;
    if (t.tv_nsec >= 1000000000) { t.tv_nsec -= 1000000000; t.tv_sec++; }
    return clockwait(c, m, CLOCK_MONOTONIC, &t);
}
