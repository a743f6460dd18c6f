/* Simulated world for dsch: interposed on libc with LD_PRELOAD.
 *
 * Every disk operation below the simulation root and every reading of the
 * wall clock passes through here.  The harness (same process, via ctypes)
 * decides with an explicit fault plan what happens at the k-th operation:
 * an error, a short transfer, a torn write, or the death of the process.
 * Everything is recorded in a shared-memory log that survives that death.
 * Nothing in here draws random numbers or reads real time.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXPATH 512
#define MAXFAULT 64
#define MAXJUMP 64

/* record types */
enum { R_PATH = 1, R_OPENW, R_OPENR, R_WRITE, R_READ, R_TRUNC, R_RENAME, R_UNLINK, R_LINK, R_MKDIR,
       R_FSYNC, R_CLOSE, R_CLOCK, R_FAULT, R_CRASH, R_MARK };
/* fault kinds */
enum { F_ERR = 1, F_SHORT, F_PARTIAL_ERR, F_CRASH_BEFORE, F_CRASH_TORN, F_CRASH_AFTER, F_STICKY, F_SIGNAL };

struct rec { uint32_t type, path, path2; int32_t res; uint64_t off, len; uint32_t crc, dlen; };
struct hdr { uint64_t used, nrec, overflow, pad; };

static struct hdr *shm; static uint64_t shm_size;
static char root[1024]; static size_t rootlen;
static int enabled, log_data; static long creads;
/* fault plans belong to the thread that armed them */
static __thread int armed, paused, tag;
static __thread long wcount, rcount;
static __thread struct { int cls; long idx; int kind; long arg; long until; } faults[MAXFAULT]; static __thread int nfaults;
static struct { int tracked; int path; int wr; int append; long late; } fds[MAXFD];
static char *paths[MAXPATH]; static uint64_t path_pos[MAXPATH]; static int npaths;
static char pathbuf[MAXPATH * 160]; static size_t pathused;
static int clock_on; static int64_t clock_ns, clock_step;
static struct { long idx; int64_t delta; } jumps[MAXJUMP]; static int njumps;
static uint64_t rnd;

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__)
#define GET(name) do { if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name); } while (0)

static uint32_t crc_tab[256];
static uint32_t crc(const unsigned char *p, size_t n)
{
    uint32_t c = 0xffffffffu;
    if (!crc_tab[1])
        for (uint32_t i = 0; i < 256; i++) { uint32_t x = i; for (int k = 0; k < 8; k++) x = x & 1 ? 0xedb88320u ^ (x >> 1) : x >> 1; crc_tab[i] = x; }
    while (n--) c = crc_tab[(c ^ *p++) & 255] ^ (c >> 8);
    return ~c;
}

static void logrec(uint32_t type, int path, int path2, int res, uint64_t off, uint64_t len, const void *data, size_t dlen, uint32_t c)
{
    if (!shm) return;
    size_t need = sizeof(struct rec) + ((dlen + 7) & ~(size_t)7);
    if (shm->used + need > shm_size) { shm->overflow = 1; return; }
    struct rec *r = (struct rec *)((char *)shm + shm->used);
    r->type = type; r->path = path; r->path2 = path2; r->res = res; r->off = off; r->len = len; r->crc = c; r->dlen = dlen;
    if (dlen) memcpy(r + 1, data, dlen);
    shm->used += need; shm->nrec++;
}

/* ---- control interface --------------------------------------------------- */
void sim_init(void *p, uint64_t size) { shm = p; shm_size = size; }
void sim_log_reset(void) { if (shm) { shm->used = sizeof(struct hdr); shm->nrec = 0; shm->overflow = 0; } }
void sim_begin(const char *r, int logdata, uint64_t seed)
{
    strncpy(root, r, sizeof root - 1); rootlen = strlen(root);
    npaths = 0; pathused = 0; memset(fds, 0, sizeof fds);
    log_data = logdata; rnd = seed; wcount = rcount = creads = 0; armed = 0; nfaults = 0; njumps = 0; enabled = 1;
}
void sim_end(void) { enabled = 0; armed = 0; }
/* the harness's own file accesses are neither recorded nor disturbed */
void sim_pause(int on) { paused = on; }
/* names first logged in the dropped part are forgotten, to be logged again */
void sim_log_trunc(uint64_t pos)
{ if (shm) { shm->used = pos; shm->overflow = 0; while (npaths && path_pos[npaths - 1] >= pos) npaths--; } }
uint64_t sim_used(void) { return shm ? shm->used : 0; }
void sim_arm(void) { armed = 1; wcount = rcount = 0; }
void sim_disarm(void) { armed = 0; nfaults = 0; }
void sim_fault(int cls, long idx, int kind, long arg, long until)
{ if (kind == F_STICKY && arg == EINTR && until > 50) until = 50; /* callers retry these */
  if (nfaults < MAXFAULT) { faults[nfaults].cls = cls; faults[nfaults].idx = idx; faults[nfaults].kind = kind; faults[nfaults].arg = arg; faults[nfaults].until = until; nfaults++; } }
void sim_clock(int on, int64_t base, int64_t step) { clock_on = on; clock_ns = base; clock_step = step; }
int64_t sim_clock_now(void) { return clock_ns; }
void sim_clock_add(int64_t d) { clock_ns += d; }
void sim_clock_jump(long idx, int64_t delta) { if (njumps < MAXJUMP) { jumps[njumps].idx = creads + idx; jumps[njumps].delta = delta; njumps++; } }
void sim_clock_nojumps(void) { njumps = 0; }
long sim_wcount(void) { return wcount; }
long sim_rcount(void) { return rcount; }
long sim_creads(void) { return creads; }
void sim_mark(int a, int b) { logrec(R_MARK, a, b, 0, 0, 0, 0, 0, 0); }
void sim_tag(int t) { tag = t; }
int sim_present(void) { return 1; }
/* several simulated processes: report every operation and wait for the turn */
static int yield_out = -1, yield_in = -1;
void sim_yield_fds(int out, int in) { yield_out = out; yield_in = in; }
void sim_yield(void)
{
    int e = errno; char c = 'y';
    if (yield_out < 0) return;
    if (syscall(SYS_write, yield_out, &c, 1) != 1) syscall(SYS_exit_group, 139);
    if (syscall(SYS_read, yield_in, &c, 1) != 1) syscall(SYS_exit_group, 139);
    errno = e;
}

/* ---- helpers ------------------------------------------------------------- */
static int path_id(const char *p)
{
    for (int i = 0; i < npaths; i++) if (!strcmp(paths[i], p)) return i;
    size_t n = strlen(p) + 1;
    if (npaths >= MAXPATH || pathused + n > sizeof pathbuf) return MAXPATH - 1;
    paths[npaths] = pathbuf + pathused; memcpy(paths[npaths], p, n); pathused += n;
    path_pos[npaths] = shm ? shm->used : 0;
    logrec(R_PATH, npaths, 0, 0, 0, 0, p + rootlen, n - 1 - rootlen, 0);
    return npaths++;
}
/* absolute path below the root, or NULL */
static const char *track(int dirfd, const char *p, char *buf, size_t n)
{
    if (!enabled || paused || !p || !rootlen) return NULL;
    if (p[0] == '/') { if (!strncmp(p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen])) return p; return NULL; }
    char d[1024];
    if (dirfd == AT_FDCWD) { if (!getcwd(d, sizeof d)) return NULL; }
    else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd); ssize_t k = readlink(l, d, sizeof d - 1); if (k < 0) return NULL; d[k] = 0; }
    while (p[0] == '.' && p[1] == '/') p += 2;
    snprintf(buf, n, "%s/%s", d, p);
    if (!strncmp(buf, root, rootlen) && (buf[rootlen] == '/' || !buf[rootlen])) return buf;
    return NULL;
}
static void die(int type, int path) { logrec(R_CRASH, path, type, 0, 0, 0, 0, 0, 0); syscall(SYS_exit_group, 137); }

/* What the plan says about this operation; fills kind/arg, 0 = nothing. */
static int plan(int cls, int type, int path, long *arg)
{
    if (!armed) return 0;
    if (paused) return 0;
    if (yield_out >= 0) sim_yield();
    long k = cls ? rcount++ : wcount++;
    if (k > 100000) { logrec(R_CRASH, path, type, 0, 0, 0, 0, 0, 0); syscall(SYS_exit_group, 138); } /* livelock */
    for (int i = 0; i < nfaults; i++) {
        if (faults[i].cls != cls) continue;
        int hit = faults[i].kind == F_STICKY ? (k >= faults[i].idx && k < faults[i].idx + faults[i].until) : k == faults[i].idx;
        if (!hit) continue;
        *arg = faults[i].arg;
        logrec(R_FAULT, path, type, faults[i].kind, k, *arg, 0, 0, tag);
        if (faults[i].kind == F_SIGNAL) { raise(SIGINT); return 0; }
        return faults[i].kind == F_STICKY ? F_ERR : faults[i].kind;
    }
    return 0;
}

/* generic wrapper for operations without transfer length */
#define SIMPLE(cls, type, pid, pid2, call, logit)                                             \
    do { long arg = 0; int f = plan(cls, type, pid, &arg); int res;                            \
        if (f == F_CRASH_BEFORE || f == F_CRASH_TORN) die(type, pid);                          \
        if (f == F_ERR || f == F_PARTIAL_ERR) { errno = arg; return -1; }                      \
        res = call; { int e = errno; if (res != -1) { logit; } errno = e; }                    \
        if (f == F_CRASH_AFTER) die(type, pid);                                                \
        return res; } while (0)

/* ---- open / close -------------------------------------------------------- */
REAL(int, openat64, int, const char *, int, ...);
static int do_open(int dirfd, const char *p, int flags, mode_t mode)
{
    GET(openat64);
    char buf[2048]; const char *t = track(dirfd, p, buf, sizeof buf);
    if (!t) { int fd = real_openat64(dirfd, p, flags, mode); if (fd >= 0 && fd < MAXFD) fds[fd].tracked = 0; return fd; }
    if (flags & O_DIRECTORY) { int fd = real_openat64(dirfd, p, flags, mode); if (fd >= 0 && fd < MAXFD) { fds[fd].tracked = 2; fds[fd].path = path_id(t); fds[fd].wr = 0; } return fd; }
    int cls = (flags & (O_CREAT | O_TRUNC)) ? 0 : 1, type = cls ? R_OPENR : R_OPENW;
    int pid = path_id(t); long arg = 0; int f = plan(cls, type, pid, &arg);
    if (f == F_CRASH_BEFORE || f == F_CRASH_TORN) die(type, pid);
    if (f == F_ERR || f == F_PARTIAL_ERR) { errno = arg; return -1; }
    struct stat st; int existed = fstatat(dirfd, p, &st, 0) == 0;
    int fd = real_openat64(dirfd, p, flags, mode);
    int e = errno;
    if (fd >= 0) {
        if (fd < MAXFD) { fds[fd].tracked = fstat(fd, &st) == 0 && S_ISDIR(st.st_mode) ? 2 : 1; fds[fd].path = pid; fds[fd].wr = (flags & O_ACCMODE) != O_RDONLY; fds[fd].append = !!(flags & O_APPEND); fds[fd].late = 0; }
        logrec(type, pid, 0, existed, (flags & O_TRUNC) ? 1 : 0, flags & (O_CREAT | O_EXCL | O_TRUNC | O_ACCMODE), 0, 0, 0);
    }
    if (f == F_CRASH_AFTER) die(type, pid);
    errno = e;
    return fd;
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

REAL(int, close, int);
int close(int fd)
{
    GET(close);
    if (!enabled || fd < 0 || fd >= MAXFD || !fds[fd].tracked) return real_close(fd);
    int tr = fds[fd].tracked; fds[fd].tracked = 0;
    if (tr != 1 || !fds[fd].wr) return real_close(fd);
    int pid = fds[fd].path; long arg = 0; int f = plan(0, R_CLOSE, pid, &arg);
    if (f == F_CRASH_BEFORE || f == F_CRASH_TORN) die(R_CLOSE, pid);
    int res = real_close(fd);
    logrec(R_CLOSE, pid, 0, res, 0, 0, 0, 0, 0);
    if (f == F_CRASH_AFTER) die(R_CLOSE, pid);
    if (f == F_ERR || f == F_PARTIAL_ERR) { errno = arg == EINTR ? EIO : arg; return -1; }
    return res;
}
static inline int tr(int fd) { return enabled && fd >= 0 && fd < MAXFD && fds[fd].tracked == 1; }

/* ---- writes -------------------------------------------------------------- */
REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
REAL(ssize_t, write, int, const void *, size_t);
REAL(off64_t, lseek64, int, off64_t, int);
static ssize_t put(int fd, const void *b, size_t n, off64_t off, int positioned)
{
    ssize_t r; off64_t at = off;
    GET(lseek64); GET(write); GET(pwrite64);
    if (!positioned) at = fds[fd].append ? real_lseek64(fd, 0, SEEK_END) : real_lseek64(fd, 0, SEEK_CUR);
    r = positioned ? real_pwrite64(fd, b, n, off) : real_write(fd, b, n);
    if (r > 0) logrec(R_WRITE, fds[fd].path, 0, 0, at, r, log_data ? b : 0, log_data ? r : 0, crc(b, r));
    return r;
}
static ssize_t do_write(int fd, const void *b, size_t n, off64_t off, int positioned)
{
    long arg = 0; int pid = fds[fd].path; int f = plan(0, R_WRITE, pid, &arg);
    if (fds[fd].late) { errno = fds[fd].late; fds[fd].late = 0; if (armed) return -1; }
    size_t part = arg < 0 ? 0 : (size_t)arg; if (part >= n) part = n ? n - 1 : 0;
    switch (f) {
    case F_CRASH_BEFORE: die(R_WRITE, pid);
    case F_CRASH_TORN: if (part) put(fd, b, part, off, positioned); die(R_WRITE, pid);
    case F_CRASH_AFTER: put(fd, b, n, off, positioned); die(R_WRITE, pid);
    case F_ERR: errno = arg; return -1;
    case F_PARTIAL_ERR: /* like a kernel: a short count now, the error on the next attempt */
        part = n / 2; if (!part) { errno = arg; return -1; }
        fds[fd].late = arg; return put(fd, b, part, off, positioned);
    case F_SHORT: if (n > 1) { if (!part) part = 1; return put(fd, b, part, off, positioned); }
    }
    return put(fd, b, n, off, positioned);
}
ssize_t write(int fd, const void *b, size_t n) { GET(write); return tr(fd) ? do_write(fd, b, n, 0, 0) : real_write(fd, b, n); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { GET(pwrite64); return tr(fd) ? do_write(fd, b, n, o, 1) : real_pwrite64(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
REAL(ssize_t, writev, int, const struct iovec *, int);
ssize_t writev(int fd, const struct iovec *v, int c)
{
    GET(writev); if (!tr(fd)) return real_writev(fd, v, c);
    ssize_t tot = 0;
    for (int i = 0; i < c; i++) { ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0); if (r < 0) return tot ? tot : r; tot += r; if ((size_t)r < v[i].iov_len) break; }
    return tot;
}
REAL(ssize_t, pwritev, int, const struct iovec *, int, off64_t);
ssize_t pwritev64(int fd, const struct iovec *v, int c, off64_t o)
{
    GET(pwritev); if (!tr(fd)) return real_pwritev(fd, v, c, o);
    ssize_t tot = 0;
    for (int i = 0; i < c; i++) { ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, o + tot, 1); if (r < 0) return tot ? tot : r; tot += r; if ((size_t)r < v[i].iov_len) break; }
    return tot;
}
ssize_t pwritev64v2(int fd, const struct iovec *v, int c, off64_t o, int fl) { (void)fl; return pwritev64(fd, v, c, o); }
REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) { GET(sendfile64); if (tr(o) || tr(i)) { errno = ENOSYS; return -1; } return real_sendfile64(o, i, p, n); }
REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
ssize_t copy_file_range(int i, off64_t *pi, int o, off64_t *po, size_t n, unsigned f)
{ GET(copy_file_range); if (tr(o) || tr(i)) { errno = ENOSYS; return -1; } return real_copy_file_range(i, pi, o, po, n, f); }

/* ---- reads --------------------------------------------------------------- */
REAL(ssize_t, pread64, int, void *, size_t, off64_t);
REAL(ssize_t, read, int, void *, size_t);
static ssize_t do_read(int fd, void *b, size_t n, off64_t off, int positioned)
{
    long arg = 0; int pid = fds[fd].path; int f = plan(1, R_READ, pid, &arg);
    GET(pread64); GET(read);
    if (f == F_CRASH_BEFORE || f == F_CRASH_TORN) die(R_READ, pid);
    if (f == F_ERR || f == F_PARTIAL_ERR) { errno = arg; return -1; }
    if (f == F_SHORT && n > 1) { size_t part = arg < 1 ? 1 : (size_t)arg; if (part < n) n = part; }
    ssize_t r = positioned ? real_pread64(fd, b, n, off) : real_read(fd, b, n);
    if (f == F_CRASH_AFTER) die(R_READ, pid);
    return r;
}
ssize_t read(int fd, void *b, size_t n) { GET(read); return tr(fd) ? do_read(fd, b, n, 0, 0) : real_read(fd, b, n); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { GET(pread64); return tr(fd) ? do_read(fd, b, n, o, 1) : real_pread64(fd, b, n, o); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }

/* ---- metadata operations -------------------------------------------------- */
REAL(int, ftruncate64, int, off64_t);
int ftruncate64(int fd, off64_t n) { GET(ftruncate64); if (!tr(fd)) return real_ftruncate64(fd, n); int pid = fds[fd].path; SIMPLE(0, R_TRUNC, pid, 0, real_ftruncate64(fd, n), logrec(R_TRUNC, pid, 0, 0, n, 0, 0, 0, 0)); }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
REAL(int, truncate64, const char *, off64_t);
int truncate64(const char *p, off64_t n)
{ GET(truncate64); char b[2048]; const char *t = track(AT_FDCWD, p, b, sizeof b); if (!t) return real_truncate64(p, n); int pid = path_id(t); SIMPLE(0, R_TRUNC, pid, 0, real_truncate64(p, n), logrec(R_TRUNC, pid, 0, 0, n, 0, 0, 0, 0)); }
int truncate(const char *p, off_t n) { return truncate64(p, n); }

REAL(int, renameat, int, const char *, int, const char *);
static int do_rename(int d1, const char *a, int d2, const char *b)
{
    GET(renameat); char x[2048], y[2048]; const char *t = track(d1, a, x, sizeof x), *u = track(d2, b, y, sizeof y);
    if (!t && !u) return real_renameat(d1, a, d2, b);
    int p1 = t ? path_id(t) : MAXPATH - 1, p2 = u ? path_id(u) : MAXPATH - 1;
    SIMPLE(0, R_RENAME, p1, p2, real_renameat(d1, a, d2, b), logrec(R_RENAME, p1, p2, 0, 0, 0, 0, 0, 0));
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { (void)f; return do_rename(d1, a, d2, b); }

REAL(int, unlinkat, int, const char *, int);
static int do_unlink(int d, const char *p, int fl)
{
    GET(unlinkat); char b[2048]; const char *t = track(d, p, b, sizeof b); if (!t) return real_unlinkat(d, p, fl);
    int pid = path_id(t); SIMPLE(0, R_UNLINK, pid, 0, real_unlinkat(d, p, fl), logrec(R_UNLINK, pid, 0, 0, 0, 0, 0, 0, 0));
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { return do_unlink(d, p, f); }
int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); }
REAL(int, remove, const char *);
int remove(const char *p) { struct stat st; char b[2048]; GET(remove); if (!track(AT_FDCWD, p, b, sizeof b)) return real_remove(p); if (lstat(p, &st) == 0 && S_ISDIR(st.st_mode)) return rmdir(p); return unlink(p); }

REAL(int, linkat, int, const char *, int, const char *, int);
static int do_link(int d1, const char *a, int d2, const char *b, int f)
{
    GET(linkat); char x[2048], y[2048]; const char *t = track(d1, a, x, sizeof x), *u = track(d2, b, y, sizeof y);
    if (!t && !u) return real_linkat(d1, a, d2, b, f);
    int p1 = t ? path_id(t) : MAXPATH - 1, p2 = u ? path_id(u) : MAXPATH - 1;
    SIMPLE(0, R_LINK, p1, p2, real_linkat(d1, a, d2, b, f), logrec(R_LINK, p1, p2, 0, 0, 0, 0, 0, 0));
}
int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { return do_link(d1, a, d2, b, f); }
REAL(int, mkdirat, int, const char *, mode_t);
int mkdirat(int d, const char *p, mode_t m)
{ GET(mkdirat); char b[2048]; const char *t = track(d, p, b, sizeof b); if (!t) return real_mkdirat(d, p, m); int pid = path_id(t); SIMPLE(0, R_MKDIR, pid, 0, real_mkdirat(d, p, m), logrec(R_MKDIR, pid, 0, 0, 0, 0, 0, 0, 0)); }
int mkdir(const char *p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }

REAL(int, fsync, int);
int fsync(int fd)
{
    GET(fsync);
    if (enabled && fd >= 0 && fd < MAXFD && fds[fd].tracked) { int pid = fds[fd].path, dir = fds[fd].tracked == 2; SIMPLE(0, R_FSYNC, pid, 0, 0, logrec(R_FSYNC, pid, dir, 0, 0, 0, 0, 0, 0)); }
    return real_fsync(fd);
}
int fdatasync(int fd) { return fsync(fd); }

/* looking at names: only a point for other processes to run at */
static void look(int d, const char *p) { char b[2048]; if (armed && yield_out >= 0 && track(d, p, b, sizeof b)) sim_yield(); }
#define LOOK(ret, name, decl, args, d, p) REAL(ret, name, DECL decl); ret name decl { GET(name); look(d, p); return real_##name args; }
#define DECL(...) __VA_ARGS__
LOOK(int, stat, (const char *p, struct stat *b), (p, b), AT_FDCWD, p)
LOOK(int, stat64, (const char *p, struct stat64 *b), (p, b), AT_FDCWD, p)
LOOK(int, lstat, (const char *p, struct stat *b), (p, b), AT_FDCWD, p)
LOOK(int, lstat64, (const char *p, struct stat64 *b), (p, b), AT_FDCWD, p)
LOOK(int, fstatat, (int d, const char *p, struct stat *b, int f), (d, p, b, f), d, p)
LOOK(int, fstatat64, (int d, const char *p, struct stat64 *b, int f), (d, p, b, f), d, p)
LOOK(int, access, (const char *p, int m), (p, m), AT_FDCWD, p)
LOOK(int, faccessat, (int d, const char *p, int m, int f), (d, p, m, f), d, p)

/* ---- clock and entropy ---------------------------------------------------- */
static int64_t tick(void)
{
    for (int i = 0; i < njumps; i++) if (jumps[i].idx == creads) clock_ns += jumps[i].delta;
    creads++;
    int64_t t = clock_ns; clock_ns += clock_step;
    logrec(R_CLOCK, 0, 0, 0, (uint64_t)t, 0, 0, 0, tag);
    return t;
}
REAL(int, clock_gettime, clockid_t, struct timespec *);
int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (enabled && clock_on && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { int64_t t = tick(); int64_t s = t / 1000000000, n = t % 1000000000; if (n < 0) { n += 1000000000; s--; } ts->tv_sec = s; ts->tv_nsec = n; return 0; }
    GET(clock_gettime); return real_clock_gettime(c, ts);
}
int gettimeofday(struct timeval *tv, void *tz)
{ (void)tz; struct timespec ts; int r = clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return r; }
time_t time(time_t *p) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }

static void fill(unsigned char *b, size_t n)
{ for (size_t i = 0; i < n; i++) { rnd += 0x9e3779b97f4a7c15ull; uint64_t z = rnd; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; b[i] = (unsigned char)(z ^ (z >> 31)); } }
REAL(ssize_t, getrandom, void *, size_t, unsigned);
ssize_t getrandom(void *b, size_t n, unsigned f) { if (enabled) { fill(b, n); return n; } GET(getrandom); return real_getrandom(b, n, f); }
REAL(int, getentropy, void *, size_t);
int getentropy(void *b, size_t n) { if (enabled) { fill(b, n); return 0; } GET(getentropy); return real_getentropy(b, n); }
