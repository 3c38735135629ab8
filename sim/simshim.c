/* simshim.c - deterministic operating-system seam for the hftools simulator.
 *
 * Preloaded (LD_PRELOAD) in front of libc in the one process that runs the
 * real hftools code, CPython's io module, h5py and the HDF5 library.  Every
 * file-system call whose path lies under the simulated root becomes one
 * numbered operation; a fault plan (operation number -> action) decides
 * whether it proceeds, is cut short, fails with an errno or kills the
 * process.  The realtime clock, directory listing order and getrandom() are
 * driven from the plan as well.  Nothing outside the root is touched.
 */
#define _GNU_SOURCE
#undef _FORTIFY_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { K_OPEN = 1, K_READ, K_WRITE, K_CLOSE, K_TRUNC, K_SYNC, K_RENAME,
       K_UNLINK, K_MKDIR, K_RMDIR, K_LIST, K_LINK };
/* actions */
enum { A_NONE = 0, A_ERRNO = 1, A_SHORT = 2, A_CRASH = 3, A_CRASH_AFTER = 4,
       A_EIO_FROM = 5 };

#define MAXFD 4096
#define MAXPLAN 4096
#define MAXLOG 65536

static int active = 0;
static char root[1024];
static size_t rootlen = 0;
static char *fdpath[MAXFD];
static int fdmode[MAXFD];

struct plan { long idx; int action; long arg; };
static struct plan plan[MAXPLAN];
static int nplan = 0;
static long op_index = 0;
static long budget = -1;            /* bytes the simulated disk still has */
static long dead_from = -1;         /* every data op from here fails */
static int dead_errno = 0;
static long max_ops = 200000;
static int runaway = 0;

struct logrec { long idx; int kind; int action; long size; long result; int err; int mode; char path[160]; };
static struct logrec *oplog = NULL;
static long nlog = 0;
static long faults_fired[8];

static uint64_t rng_dir = 0, rng_rand = 0;
static int dir_mode = 0;
static int rand_on = 0;
static int clock_on = 0;
static int64_t clock_ns = 0;
static int64_t clock_steps[256];
static int nsteps = 0, istep = 0;
static long clock_reads = 0;

static uint64_t nextrand(uint64_t *s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__) = NULL; \
    if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name);

/* ---- process scheduling: every operation waits for the scheduler's token ---- */
static int gate_out = -1, gate_in = -1;
static __thread int gating = 0;
void sim_gate(int out, int in) { gate_out = out; gate_in = in; }
static void gate(int kind, const char *path) {
    if (gate_out < 0 || gating || !active) return;
    struct { int kind; char path[124]; } m;
    memset(&m, 0, sizeof m);
    const char *rel = path ? path : "";
    if (strncmp(rel, root, rootlen) == 0) rel += rootlen;
    m.kind = kind; snprintf(m.path, sizeof m.path, "%s", rel);
    int e = errno; char tok = 0; ssize_t n;
    if (syscall(SYS_write, gate_out, &m, sizeof m) != (ssize_t)sizeof m) _exit(98);
    do n = syscall(SYS_read, gate_in, &tok, 1); while (n < 0 && errno == EINTR);
    if (n != 1) _exit(98);
    if (tok == 'k') _exit(77);
    errno = e;
}

/* ---- control interface (ctypes) ---- */
void sim_reset(void) {
    active = 0; nplan = 0; op_index = 0; budget = -1; dead_from = -1;
    dead_errno = 0; nlog = 0; runaway = 0; dir_mode = 0; rand_on = 0;
    clock_on = 0; nsteps = 0; istep = 0; clock_reads = 0;
    memset(faults_fired, 0, sizeof faults_fired);
    for (int i = 0; i < MAXFD; i++) if (fdpath[i]) { free(fdpath[i]); fdpath[i] = NULL; }
}
void sim_begin(const char *r) {
    if (!oplog) oplog = malloc(sizeof(struct logrec) * MAXLOG);
    snprintf(root, sizeof root, "%s", r); rootlen = strlen(root); active = 1;
}
void sim_pause(void) { active = 0; }
void sim_resume(void) { active = 1; }
void sim_plan_clear(void) { nplan = 0; budget = -1; dead_from = -1; }
int sim_plan_add(long idx, int action, long arg) {
    if (nplan >= MAXPLAN) return -1;
    plan[nplan].idx = idx; plan[nplan].action = action; plan[nplan].arg = arg; nplan++; return 0;
}
void sim_set_budget(long b) { budget = b; }
void sim_set_dead(long from, int e) { dead_from = from; dead_errno = e; }
void sim_set_max_ops(long n) { max_ops = n; }
long sim_op_index(void) { return op_index; }
long sim_log_len(void) { return nlog; }
int sim_runaway(void) { return runaway; }
long sim_fired(int action) { return faults_fired[action]; }
struct logrec *sim_log_at(long i) { return &oplog[i]; }
int sim_open_fds(int writable_only) {
    int n = 0;
    for (int i = 0; i < MAXFD; i++)
        if (fdpath[i] && (!writable_only || (fdmode[i] & O_ACCMODE) != O_RDONLY)) n++;
    return n;
}
const char *sim_fd_path(int fd) { return (fd >= 0 && fd < MAXFD && fdpath[fd]) ? fdpath[fd] : ""; }
void sim_dir_order(int mode, uint64_t seed) { dir_mode = mode; rng_dir = seed; }
void sim_random(uint64_t seed) { rand_on = 1; rng_rand = seed; }
void sim_clock(int64_t ns) { clock_on = 1; clock_ns = ns; istep = 0; nsteps = 0; clock_reads = 0; }
int sim_clock_step(int64_t ns) { if (nsteps >= 256) return -1; clock_steps[nsteps++] = ns; return 0; }
void sim_clock_off(void) { clock_on = 0; }
int64_t sim_clock_now(void) { return clock_ns; }
void sim_clock_advance(int64_t ns) { clock_ns += ns; }
long sim_clock_reads(void) { return clock_reads; }

/* ---- helpers ---- */
static int resolve(int dirfd, const char *p, char *out, size_t n) {
    /* absolute path of p, or "" if not under root */
    if (!active || !p) return 0;
    char tmp[2048];
    if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
    else {
        char cwd[1024];
        if (dirfd == AT_FDCWD) { if (!getcwd(cwd, sizeof cwd)) return 0; }
        else if (dirfd >= 0 && dirfd < MAXFD && fdpath[dirfd]) snprintf(cwd, sizeof cwd, "%s", fdpath[dirfd]);
        else return 0;
        snprintf(tmp, sizeof tmp, "%s/%s", cwd, p);
    }
    if (strncmp(tmp, root, rootlen) != 0) return 0;
    if (tmp[rootlen] != '/' && tmp[rootlen] != 0) return 0;
    snprintf(out, n, "%s", tmp);
    return 1;
}

static struct logrec *rec(int kind, const char *path, long size, int mode) {
    gate(kind, path);
    struct logrec *r = &oplog[nlog < MAXLOG ? nlog : MAXLOG - 1];
    if (nlog < MAXLOG) nlog++;
    r->idx = op_index++; r->kind = kind; r->action = 0; r->size = size; r->result = 0; r->err = 0; r->mode = mode;
    const char *rel = path ? path : "";
    if (strncmp(rel, root, rootlen) == 0) rel += rootlen;
    snprintf(r->path, sizeof r->path, "%s", rel);
    if (op_index > max_ops) { runaway = 1; _exit(99); }
    return r;
}

/* returns action; *arg filled */
static int decide(struct logrec *r, long *arg) {
    for (int i = 0; i < nplan; i++)
        if (plan[i].idx == r->idx) {
            /* an interruption is only planned for calls that are restarted */
            if (plan[i].action == A_ERRNO && plan[i].arg == EINTR && r->kind != K_READ && r->kind != K_WRITE) return A_NONE;
            r->action = plan[i].action; *arg = plan[i].arg;
            faults_fired[plan[i].action]++;
            return plan[i].action;
        }
    if (dead_from >= 0 && r->idx >= dead_from && (r->kind == K_WRITE || r->kind == K_READ || r->kind == K_SYNC || r->kind == K_TRUNC || r->kind == K_OPEN)) {
        r->action = A_EIO_FROM; *arg = dead_errno; faults_fired[A_EIO_FROM]++;
        return A_ERRNO;
    }
    return A_NONE;
}
#define SIMPLE(kind, path, mode) \
    struct logrec *r_ = rec(kind, path, 0, mode); long arg_ = 0; int act_ = decide(r_, &arg_); \
    if (act_ == A_CRASH) _exit(77); \
    if (act_ == A_ERRNO) { r_->err = (int)arg_; r_->result = -1; errno = (int)arg_; return -1; }
#define SIMPLE_END(res) \
    int e_ = errno; r_->result = (res); if ((res) < 0) r_->err = e_; \
    if (act_ == A_CRASH_AFTER) _exit(77); errno = e_;

static void track(int fd, const char *path, int flags) {
    if (fd >= 0 && fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = strdup(path); fdmode[fd] = flags; }
}

/* ---- open family ---- */
static int real_openat_(int dirfd, const char *p, int flags, mode_t mode) {
    REAL(int, openat64, int, const char *, int, ...)
    return real_openat64(dirfd, p, flags, mode);
}
static int do_open(int dirfd, const char *p, int flags, mode_t mode) {
    char full[2048];
    if (!resolve(dirfd, p, full, sizeof full)) return real_openat_(dirfd, p, flags, mode);
    SIMPLE(K_OPEN, full, flags)
    int fd = real_openat_(dirfd, p, flags, mode);
    if (fd >= 0) track(fd, full, flags);
    SIMPLE_END(fd)
    return fd;
}
#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { GETMODE return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { GETMODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { GETMODE return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { GETMODE return do_open(d, p, flags | O_LARGEFILE, mode); }
int __open_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int __open64_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags | O_LARGEFILE, 0); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
    REAL(int, close, int)
    if (!active || fd < 0 || fd >= MAXFD || !fdpath[fd]) {
        if (fd >= 0 && fd < MAXFD && fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = NULL; }
        return real_close(fd);
    }
    struct logrec *r = rec(K_CLOSE, fdpath[fd], 0, fdmode[fd]); long arg = 0;
    int act = decide(r, &arg);
    free(fdpath[fd]); fdpath[fd] = NULL;
    if (act == A_CRASH) _exit(77);
    int res = real_close(fd);
    if (act == A_CRASH_AFTER) _exit(77);
    if (act == A_ERRNO) { r->err = (int)arg; r->result = -1; errno = (int)arg; return -1; }
    r->result = res;
    return res;
}

/* ---- data ---- */
static ssize_t data_gate(int kind, int fd, size_t n, size_t *allowed, struct logrec **rp, int *act) {
    struct logrec *r = rec(kind, fdpath[fd], (long)n, fdmode[fd]); long arg = 0;
    *act = decide(r, &arg); *rp = r; *allowed = n;
    if (*act == A_ERRNO) { r->err = (int)arg; r->result = -1; errno = (int)arg; return -1; }
    if (*act == A_SHORT || *act == A_CRASH) {
        size_t k = arg < 0 ? 0 : (size_t)arg;
        if (k > n) k = n;
        if (*act == A_SHORT && k == 0 && n > 0) k = 1;
        *allowed = k;
    }
    if (kind == K_WRITE && budget >= 0) {
        if (budget == 0 && n > 0) { r->err = ENOSPC; r->result = -1; r->action = A_ERRNO; faults_fired[7]++; errno = ENOSPC; return -1; }
        if ((size_t)budget < *allowed) *allowed = (size_t)budget;
    }
    return 0;
}
#define DATA_BODY(kind, callexpr, plain) \
    if (!active || fd < 0 || fd >= MAXFD || !fdpath[fd]) return plain; \
    struct logrec *r; int act; size_t m; \
    if (data_gate(kind, fd, n, &m, &r, &act) < 0) return -1; \
    ssize_t res = (act == A_CRASH && m == 0) ? 0 : (callexpr); \
    int e = errno; \
    if (kind == K_WRITE && budget >= 0 && res > 0) budget -= res; \
    r->result = res; if (res < 0) r->err = e; \
    if (act == A_CRASH || act == A_CRASH_AFTER) _exit(77); \
    errno = e; return res;

ssize_t read(int fd, void *b, size_t n) { REAL(ssize_t, read, int, void *, size_t) DATA_BODY(K_READ, real_read(fd, b, m), real_read(fd, b, n)) }
ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, write, int, const void *, size_t) DATA_BODY(K_WRITE, real_write(fd, b, m), real_write(fd, b, n)) }
ssize_t pread(int fd, void *b, size_t n, off_t o) { REAL(ssize_t, pread64, int, void *, size_t, off_t) DATA_BODY(K_READ, real_pread64(fd, b, m, o), real_pread64(fd, b, n, o)) }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { REAL(ssize_t, pread64, int, void *, size_t, off_t) DATA_BODY(K_READ, real_pread64(fd, b, m, o), real_pread64(fd, b, n, o)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(ssize_t, pwrite64, int, const void *, size_t, off_t) DATA_BODY(K_WRITE, real_pwrite64(fd, b, m, o), real_pwrite64(fd, b, n, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(ssize_t, pwrite64, int, const void *, size_t, off_t) DATA_BODY(K_WRITE, real_pwrite64(fd, b, m, o), real_pwrite64(fd, b, n, o)) }

ssize_t writev(int fd, const struct iovec *iov, int cnt) {
    REAL(ssize_t, writev, int, const struct iovec *, int)
    if (!active || fd < 0 || fd >= MAXFD || !fdpath[fd]) return real_writev(fd, iov, cnt);
    ssize_t tot = 0;
    for (int i = 0; i < cnt; i++) {
        ssize_t w = write(fd, iov[i].iov_base, iov[i].iov_len);
        if (w < 0) return tot ? tot : -1;
        tot += w;
        if ((size_t)w < iov[i].iov_len) break;
    }
    return tot;
}
/* in-kernel copies would bypass the fault plan: make callers fall back */
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    REAL(ssize_t, sendfile, int, int, off_t *, size_t)
    if (active && ((o >= 0 && o < MAXFD && fdpath[o]) || (i >= 0 && i < MAXFD && fdpath[i]))) { errno = ENOTSOCK; return -1; }
    return real_sendfile(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    REAL(ssize_t, sendfile64, int, int, off64_t *, size_t)
    if (active && ((o >= 0 && o < MAXFD && fdpath[o]) || (i >= 0 && i < MAXFD && fdpath[i]))) { errno = ENOTSOCK; return -1; }
    return real_sendfile64(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned)
    if (active && ((o >= 0 && o < MAXFD && fdpath[o]) || (i >= 0 && i < MAXFD && fdpath[i]))) { errno = EXDEV; return -1; }
    return real_copy_file_range(i, io, o, oo, n, f);
}

static int do_ftruncate(int fd, off_t len) {
    REAL(int, ftruncate64, int, off_t)
    if (!active || fd < 0 || fd >= MAXFD || !fdpath[fd]) return real_ftruncate64(fd, len);
    SIMPLE(K_TRUNC, fdpath[fd], fdmode[fd])
    int res = real_ftruncate64(fd, len);
    SIMPLE_END(res)
    return res;
}
int ftruncate(int fd, off_t len) { return do_ftruncate(fd, len); }
int ftruncate64(int fd, off64_t len) { return do_ftruncate(fd, len); }
static int do_sync(int fd, int data) {
    REAL(int, fsync, int)
    (void)data;
    if (!active || fd < 0 || fd >= MAXFD || !fdpath[fd]) return real_fsync(fd);
    SIMPLE(K_SYNC, fdpath[fd], fdmode[fd])
    int res = real_fsync(fd);
    SIMPLE_END(res)
    return res;
}
int fsync(int fd) { return do_sync(fd, 0); }
int fdatasync(int fd) { return do_sync(fd, 1); }

/* ---- namespace ---- */
static int do_rename(int d1, const char *a, int d2, const char *b) {
    REAL(int, renameat, int, const char *, int, const char *)
    char full[2048];
    if (!resolve(d2, b, full, sizeof full)) return real_renameat(d1, a, d2, b);
    SIMPLE(K_RENAME, full, 0)
    int res = real_renameat(d1, a, d2, b);
    SIMPLE_END(res)
    return res;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b); }
static int do_unlink(int d, const char *p, int flags) {
    REAL(int, unlinkat, int, const char *, int)
    char full[2048];
    if (!resolve(d, p, full, sizeof full)) return real_unlinkat(d, p, flags);
    SIMPLE((flags & AT_REMOVEDIR) ? K_RMDIR : K_UNLINK, full, 0)
    int res = real_unlinkat(d, p, flags);
    SIMPLE_END(res)
    return res;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { return do_unlink(d, p, f); }
int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); }
static int do_mkdir(int d, const char *p, mode_t m) {
    REAL(int, mkdirat, int, const char *, mode_t)
    char full[2048];
    if (!resolve(d, p, full, sizeof full)) return real_mkdirat(d, p, m);
    SIMPLE(K_MKDIR, full, 0)
    int res = real_mkdirat(d, p, m);
    SIMPLE_END(res)
    return res;
}
int mkdir(const char *p, mode_t m) { return do_mkdir(AT_FDCWD, p, m); }
int mkdirat(int d, const char *p, mode_t m) { return do_mkdir(d, p, m); }
int link(const char *a, const char *b) {
    REAL(int, link, const char *, const char *)
    char full[2048];
    if (!resolve(AT_FDCWD, b, full, sizeof full)) return real_link(a, b);
    SIMPLE(K_LINK, full, 0)
    int res = real_link(a, b);
    SIMPLE_END(res)
    return res;
}

int symlink(const char *a, const char *b) {
    REAL(int, symlink, const char *, const char *)
    char full[2048];
    if (!resolve(AT_FDCWD, b, full, sizeof full)) return real_symlink(a, b);
    SIMPLE(K_LINK, full, 0)
    int res = real_symlink(a, b);
    SIMPLE_END(res)
    return res;
}
#define K_ATTR 14
int utimensat(int d, const char *p, const struct timespec t[2], int flags) {
    REAL(int, utimensat, int, const char *, const struct timespec *, int)
    char full[2048];
    if (p == NULL || !resolve(d, p, full, sizeof full)) return real_utimensat(d, p, t, flags);
    SIMPLE(K_ATTR, full, 0)
    int res = real_utimensat(d, p, t, flags);
    SIMPLE_END(res)
    return res;
}
int chmod(const char *p, mode_t m) {
    REAL(int, chmod, const char *, mode_t)
    char full[2048];
    if (!resolve(AT_FDCWD, p, full, sizeof full)) return real_chmod(p, m);
    SIMPLE(K_ATTR, full, 0)
    int res = real_chmod(p, m);
    SIMPLE_END(res)
    return res;
}

int futimens(int fd, const struct timespec t[2]) {
    REAL(int, futimens, int, const struct timespec *)
    if (!active || fd < 0 || fd >= MAXFD || !fdpath[fd]) return real_futimens(fd, t);
    SIMPLE(K_ATTR, fdpath[fd], fdmode[fd])
    int res = real_futimens(fd, t);
    SIMPLE_END(res)
    return res;
}
int fchmod(int fd, mode_t m) {
    REAL(int, fchmod, int, mode_t)
    if (!active || fd < 0 || fd >= MAXFD || !fdpath[fd]) return real_fchmod(fd, m);
    SIMPLE(K_ATTR, fdpath[fd], fdmode[fd])
    int res = real_fchmod(fd, m);
    SIMPLE_END(res)
    return res;
}

/* ---- existence checks: no fault points, but another process may run first ---- */
#define K_STAT 13
int stat64(const char *p, struct stat64 *st) {
    REAL(int, stat64, const char *, struct stat64 *)
    char full[2048];
    if (gate_out >= 0 && resolve(AT_FDCWD, p, full, sizeof full)) gate(K_STAT, full);
    return real_stat64(p, st);
}
int lstat64(const char *p, struct stat64 *st) {
    REAL(int, lstat64, const char *, struct stat64 *)
    char full[2048];
    if (gate_out >= 0 && resolve(AT_FDCWD, p, full, sizeof full)) gate(K_STAT, full);
    return real_lstat64(p, st);
}
int access(const char *p, int mode) {
    REAL(int, access, const char *, int)
    char full[2048];
    if (gate_out >= 0 && resolve(AT_FDCWD, p, full, sizeof full)) gate(K_STAT, full);
    return real_access(p, mode);
}

/* ---- directory listing: serve entries in a planned order ---- */
struct dirbuf { DIR *d; struct dirent64 *ents; size_t n, pos; };
static struct dirbuf dirs[64];
static void load_dir(DIR *d, int planned) {
    REAL(struct dirent64 *, readdir64, DIR *)
    for (int i = 0; i < 64; i++) if (!dirs[i].d) {
        size_t cap = 0, n = 0; struct dirent64 *e, *arr = NULL;
        while ((e = real_readdir64(d))) {
            if (n == cap) { cap = cap ? cap * 2 : 32; arr = realloc(arr, cap * sizeof *arr); }
            size_t sz = e->d_reclen < sizeof *arr ? e->d_reclen : sizeof *arr;
            memset(&arr[n], 0, sizeof *arr); memcpy(&arr[n], e, sz); n++;
        }
        /* canonical order first, so the result never depends on the real disk */
        for (size_t a = 0; a < n; a++) for (size_t b = a + 1; b < n; b++)
            if (strcmp(arr[a].d_name, arr[b].d_name) > 0) { struct dirent64 t = arr[a]; arr[a] = arr[b]; arr[b] = t; }
        if (planned && dir_mode == 1)
            for (size_t a = n; a > 1; a--) { size_t b = nextrand(&rng_dir) % a; struct dirent64 t = arr[a - 1]; arr[a - 1] = arr[b]; arr[b] = t; }
        if (planned && dir_mode == 2)
            for (size_t a = 0; a < n / 2; a++) { struct dirent64 t = arr[a]; arr[a] = arr[n - 1 - a]; arr[n - 1 - a] = t; }
        if (planned && dir_mode == 3)   /* hide file types, as some file systems do */
            for (size_t a = 0; a < n; a++) arr[a].d_type = DT_UNKNOWN;
        dirs[i].d = d; dirs[i].ents = arr; dirs[i].n = n; dirs[i].pos = 0;
        return;
    }
}
DIR *opendir(const char *p) {
    REAL(DIR *, opendir, const char *)
    char full[2048];
    if (!resolve(AT_FDCWD, p, full, sizeof full)) return real_opendir(p);
    struct logrec *r = rec(K_LIST, full, 0, 0); long arg = 0; int act = decide(r, &arg);
    if (act == A_CRASH) _exit(77);
    if (act == A_ERRNO) { r->err = (int)arg; r->result = -1; errno = (int)arg; return NULL; }
    DIR *d = real_opendir(p);
    if (d) load_dir(d, 1); else { r->result = -1; r->err = errno; }
    return d;
}
DIR *fdopendir(int fd) {
    REAL(DIR *, fdopendir, int)
    if (!active || fd < 0 || fd >= MAXFD || !fdpath[fd]) return real_fdopendir(fd);
    struct logrec *r = rec(K_LIST, fdpath[fd], 0, 0); long arg = 0; int act = decide(r, &arg);
    if (act == A_CRASH) _exit(77);
    if (act == A_ERRNO) { r->err = (int)arg; r->result = -1; errno = (int)arg; return NULL; }
    DIR *d = real_fdopendir(fd);
    if (d) { free(fdpath[fd]); fdpath[fd] = NULL; load_dir(d, 1); }
    return d;
}
struct dirent64 *readdir64(DIR *d) {
    REAL(struct dirent64 *, readdir64, DIR *)
    for (int i = 0; i < 64; i++) if (dirs[i].d == d)
        return dirs[i].pos < dirs[i].n ? &dirs[i].ents[dirs[i].pos++] : NULL;
    return real_readdir64(d);
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
void rewinddir(DIR *d) {
    static void (*real_rewinddir)(DIR *) = NULL;
    if (!real_rewinddir) real_rewinddir = (void (*)(DIR *))dlsym(RTLD_NEXT, "rewinddir");
    for (int i = 0; i < 64; i++) if (dirs[i].d == d) { dirs[i].pos = 0; return; }
    real_rewinddir(d);
}
int closedir(DIR *d) {
    REAL(int, closedir, DIR *)
    for (int i = 0; i < 64; i++) if (dirs[i].d == d) { free(dirs[i].ents); dirs[i].d = NULL; dirs[i].ents = NULL; }
    return real_closedir(d);
}

/* ---- time and randomness ---- */
static int64_t tick(void) {
    clock_reads++;
    if (nsteps) { clock_ns += clock_steps[istep < nsteps ? istep : nsteps - 1]; if (istep < nsteps) istep++; }
    return clock_ns;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    REAL(int, clock_gettime, clockid_t, struct timespec *)
    if (!clock_on || (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE)) return real_clock_gettime(id, ts);
    int64_t v = tick();
    ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL;
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    static int (*real_gettimeofday)(struct timeval *, void *) = NULL;
    if (!real_gettimeofday) real_gettimeofday = (int (*)(struct timeval *, void *))dlsym(RTLD_NEXT, "gettimeofday");
    if (!clock_on) return real_gettimeofday(tv, tz);
    int64_t v = tick();
    tv->tv_sec = v / 1000000000LL; tv->tv_usec = (v % 1000000000LL) / 1000;
    return 0;
}
time_t time(time_t *t) {
    REAL(time_t, time, time_t *)
    if (!clock_on) return real_time(t);
    time_t v = (time_t)(tick() / 1000000000LL);
    if (t) *t = v;
    return v;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    REAL(ssize_t, getrandom, void *, size_t, unsigned)
    if (!rand_on) return real_getrandom(b, n, f);
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)nextrand(&rng_rand);
    return (ssize_t)n;
}
