/* LD_PRELOAD shim: the seam through which the explorer owns the environment of
 * the real code.  Inside ROOT (the scratch directory of one worker) it
 *   - numbers every file-mutating libc call ("op"),
 *   - stamps mtimes from a virtual clock, which also answers clock_gettime(),
 *   - at op number K: kills the process (before the op, or half-way through a
 *     write), delivers a signal, fails the op with an errno, or swaps the
 *     remote directory for an empty mount point,
 *   - can park the process before every op until a scheduler lets it go on.
 * Nothing happens while it is disarmed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
#define TICK 1000000LL          /* 1 ms of virtual time per op / clock read */

static char root[PATH_MAX]; static size_t rootlen;
static long long vnow = 0;      /* ns; 0: real time */
static long n_ops = 0;          /* mutating ops seen since shim_reset */
static long at_op = -1;         /* op number the action fires at */
static int action = 0;          /* see shim_arm */
static int act_arg = 0;
static int persist = 0;         /* errno action: keep failing from at_op on */
static long fired = 0;
static int tracked[MAXFD];      /* fd is open for writing below root */
static char *fdpath[MAXFD];
static int logfd = -1;
static char van_from[PATH_MAX], van_to[PATH_MAX];
static char ig_prefix[PATH_MAX]; static size_t ig_len;   /* ops below are not numbered */
static int sched_rd = -1, sched_wr = -1; /* scheduler pipes */
static int sched_reads = 0;
static int count_reads = 0;     /* opening to read and listing are ops, too */

enum { ACT_NONE, ACT_KILL, ACT_TORN, ACT_SIGNAL, ACT_ERRNO, ACT_VANISH };

#define RAW(...) syscall(__VA_ARGS__)

void shim_root(const char *p) { strncpy(root, p, PATH_MAX - 1); rootlen = strlen(root); memset(tracked, 0, sizeof tracked); }
void shim_ignore(const char *p) { strncpy(ig_prefix, p, PATH_MAX - 1); ig_len = strlen(ig_prefix); }
void shim_time(double t) { vnow = (long long)(t * 1e6) * 1000; }
double shim_now(void) { return vnow / 1e9; }
void shim_reset(void) { n_ops = 0; fired = 0; at_op = -1; action = 0; persist = 0; count_reads = 0; }
long shim_ops(void) { return n_ops; }
long shim_fired(void) { return fired; }
void shim_arm(long k, int act, int arg, int pers) { n_ops = 0; fired = 0; at_op = k; action = act; act_arg = arg; persist = pers; }
void shim_vanish(const char *from, const char *to) { strncpy(van_from, from, PATH_MAX - 1); strncpy(van_to, to, PATH_MAX - 1); }
void shim_reads(int on) { count_reads = on; }
void shim_log(int fd) { logfd = fd; }
void shim_sched(int rd, int wr, int reads) { sched_rd = rd; sched_wr = wr; sched_reads = reads; }

/* ---- path resolution (lexical; dirfd through /proc/self/fd) ---- */
static int resolve(int dirfd, const char *p, char *out) {
    if (!rootlen || !p) return 0;
    char base[PATH_MAX];
    if (p[0] == '/') base[0] = 0;
    else if (dirfd == AT_FDCWD) { if (RAW(SYS_getcwd, base, sizeof base) <= 0) return 0; }
    else {
        char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
        long n = RAW(SYS_readlink, l, base, sizeof base - 1);
        if (n <= 0) return 0;
        base[n] = 0;
    }
    char tmp[2 * PATH_MAX + 2];
    snprintf(tmp, sizeof tmp, "%s/%s", base, p);
    /* normalise lexically */
    size_t o = 0; out[0] = 0;
    for (char *s = tmp; *s;) {
        while (*s == '/') s++;
        if (!*s) break;
        char *e = s; while (*e && *e != '/') e++;
        size_t n = e - s;
        if (n == 1 && s[0] == '.') { }
        else if (n == 2 && s[0] == '.' && s[1] == '.') { while (o && out[--o] != '/') ; out[o] = 0; }
        else { if (o + n + 2 > PATH_MAX) return 0; out[o++] = '/'; memcpy(out + o, s, n); o += n; out[o] = 0; }
        s = e;
    }
    return strncmp(out, root, rootlen) == 0 && (out[rootlen] == '/' || out[rootlen] == 0);
}

static void stamp(const char *path) {
    if (!vnow) return;
    struct timespec ts[2]; ts[0].tv_sec = ts[1].tv_sec = vnow / 1000000000LL;
    ts[0].tv_nsec = ts[1].tv_nsec = vnow % 1000000000LL;
    ts[0].tv_nsec = UTIME_OMIT;
    int e = errno; RAW(SYS_utimensat, AT_FDCWD, path, ts, AT_SYMLINK_NOFOLLOW); errno = e;
}
static void stamp_parent(const char *path) {
    if (!vnow) return;
    char b[PATH_MAX]; strcpy(b, path); char *s = strrchr(b, '/');
    if (s && s != b) { *s = 0; if (strlen(b) >= rootlen) stamp(b); }
}
static void stamp_fd(int fd) {
    if (!vnow) return;
    struct timespec ts[2]; ts[0].tv_sec = 0; ts[0].tv_nsec = UTIME_OMIT;
    ts[1].tv_sec = vnow / 1000000000LL; ts[1].tv_nsec = vnow % 1000000000LL;
    int e = errno; RAW(SYS_utimensat, fd, NULL, ts, 0); errno = e;
}

static void logop(const char *name, const char *path) {
    if (logfd < 0) return;
    char b[2 * PATH_MAX]; const char *rel = path;
    if (strncmp(path, root, rootlen) == 0) rel = path + rootlen;
    int n = snprintf(b, sizeof b, "%ld %s %s\n", n_ops, name, rel);
    RAW(SYS_write, logfd, b, n);
}

static void sched_point(const char *name, const char *path) {
    if (sched_wr < 0) return;
    char b[512]; const char *rel = path ? path : "";
    if (path && strncmp(path, root, rootlen) == 0) rel = path + rootlen;
    memset(b, 0, 256);
    snprintf(b, 256, "%s %s", name, rel);
    int e = errno;
    long off = 0;
    while (off < 256) { long n = RAW(SYS_write, sched_wr, b + off, 256 - off); if (n <= 0) RAW(SYS_exit_group, 99); off += n; }
    /* go-ahead carries the shared virtual clock */
    long long t; off = 0;
    while (off < (long)sizeof t) { long n = RAW(SYS_read, sched_rd, (char *)&t + off, sizeof t - off); if (n <= 0) RAW(SYS_exit_group, 99); off += n; }
    if (t) vnow = t;
    errno = e;
}

/* called before a mutating op. 0: go on; >0: fail with that errno; -1: torn write */
static int op(const char *name, const char *path) {
    if (ig_len && strncmp(path, ig_prefix, ig_len) == 0) return 0;
    sched_point(name, path);
    n_ops++;
    if (vnow) vnow += TICK;
    logop(name, path);
    if (action == ACT_NONE) return 0;
    if (n_ops == at_op || (persist && n_ops > at_op)) {
        int first = n_ops == at_op;
        fired++;
        switch (action) {
        case ACT_KILL: RAW(SYS_exit_group, 137); break;
        case ACT_TORN: return -1;
        case ACT_SIGNAL: RAW(SYS_kill, RAW(SYS_getpid), act_arg); return 0;
        case ACT_ERRNO: return act_arg;
        case ACT_VANISH:
            if (first) {
                RAW(SYS_renameat2, AT_FDCWD, van_from, AT_FDCWD, van_to, 0);
                if (act_arg) RAW(SYS_mkdirat, AT_FDCWD, van_from, 0755);
            }
            return 0;
        }
    }
    return 0;
}

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = 0; if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

#define PRE(opname, path) do { int r_ = op(opname, path); if (r_ > 0) { errno = r_; return -1; } if (r_ < 0) RAW(SYS_exit_group, 137); } while (0)

/* ---- open ---- */
static int do_open(int dirfd, const char *p, int flags, mode_t mode) {
    char path[PATH_MAX];
    int wr = (flags & O_ACCMODE) != O_RDONLY;
    if (wr || (flags & (O_CREAT | O_TRUNC))) {
        if (resolve(dirfd, p, path)) {
            struct stat st;
            int exists = RAW(SYS_newfstatat, dirfd, p, &st, 0) == 0;
            int mutates = (!exists && (flags & O_CREAT)) || (exists && (flags & O_TRUNC) && st.st_size > 0 );
            if (exists && (flags & O_CREAT) && (flags & O_EXCL)) mutates = 0;
            if (!exists && !(flags & O_CREAT)) mutates = 0;
            if (mutates) PRE(exists ? "trunc" : "create", path);
            int fd = RAW(SYS_openat, dirfd, p, flags | O_LARGEFILE, mode);
            if (fd >= 0 && fd < MAXFD && wr) { tracked[fd] = 1; free(fdpath[fd]); fdpath[fd] = strdup(path); }
            if (fd >= 0 && mutates) { stamp_fd(fd); if (!exists) stamp_parent(path); }
            return fd;
        }
    } else if (sched_reads && sched_wr >= 0 && resolve(dirfd, p, path)
               && !(ig_len && strncmp(path, ig_prefix, ig_len) == 0)) sched_point("open", path);
    else if (count_reads && resolve(dirfd, p, path)) {
        int r = op("open", path);
        if (r > 0) { errno = r; return -1; }
    }
    int fd = RAW(SYS_openat, dirfd, p, flags | O_LARGEFILE, mode);
    if (fd >= 0 && fd < MAXFD) tracked[fd] = 0;
    return fd;
}
#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { GETMODE; return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { GETMODE; return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { GETMODE; return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { GETMODE; return do_open(d, p, flags, mode); }
int __open_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int __open64_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int __openat_2(int d, const char *p, int flags) { return do_open(d, p, flags, 0); }
int __openat64_2(int d, const char *p, int flags) { return do_open(d, p, flags, 0); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) { if (fd >= 0 && fd < MAXFD) tracked[fd] = 0; return RAW(SYS_close, fd); }

static int isT(int fd) { return rootlen && fd >= 0 && fd < MAXFD && tracked[fd]; }

/* ---- writes ---- */
ssize_t write(int fd, const void *b, size_t n) {
    if (!isT(fd) || !n) return RAW(SYS_write, fd, b, n);
    int r = op("write", fdpath[fd]);
    if (r > 0) { errno = r; return -1; }
    if (r < 0) { RAW(SYS_write, fd, b, n / 2); stamp_fd(fd); RAW(SYS_exit_group, 137); }
    ssize_t k = RAW(SYS_write, fd, b, n); stamp_fd(fd); return k;
}
static ssize_t do_pwrite(int fd, const void *b, size_t n, off_t o) {
    if (!isT(fd) || !n) return RAW(SYS_pwrite64, fd, b, n, o);
    int r = op("write", fdpath[fd]);
    if (r > 0) { errno = r; return -1; }
    if (r < 0) { RAW(SYS_pwrite64, fd, b, n / 2, o); stamp_fd(fd); RAW(SYS_exit_group, 137); }
    ssize_t k = RAW(SYS_pwrite64, fd, b, n, o); stamp_fd(fd); return k;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (isT(fd)) { int r = op("write", fdpath[fd]); if (r > 0) { errno = r; return -1; } if (r < 0) RAW(SYS_exit_group, 137); }
    ssize_t k = RAW(SYS_writev, fd, v, c); if (isT(fd)) stamp_fd(fd); return k;
}
static ssize_t do_sendfile(int out, int in, off_t *o, size_t n) {
    if (!isT(out)) return RAW(SYS_sendfile, out, in, o, n);
    /* the last, empty call of a copy loop is not an op */
    struct stat st; off_t pos = o ? *o : lseek(in, 0, SEEK_CUR);
    if (RAW(SYS_fstat, in, &st) == 0 && S_ISREG(st.st_mode) && pos >= st.st_size) return RAW(SYS_sendfile, out, in, o, n);
    int r = op("write", fdpath[out]);
    if (r > 0) { errno = r; return -1; }
    if (r < 0) { size_t left = st.st_size - pos; RAW(SYS_sendfile, out, in, o, left / 2); stamp_fd(out); RAW(SYS_exit_group, 137); }
    ssize_t k = RAW(SYS_sendfile, out, in, o, n); stamp_fd(out); return k;
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return do_sendfile(out, in, o, n); }
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) { return do_sendfile(out, in, (off_t *)o, n); }
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned f) {
    if (isT(out)) { int r = op("write", fdpath[out]); if (r > 0) { errno = r; return -1; } if (r < 0) RAW(SYS_exit_group, 137); }
    ssize_t k = RAW(SYS_copy_file_range, in, io, out, oo, n, f); if (isT(out)) stamp_fd(out); return k;
}
static int do_ftruncate(int fd, off_t l) {
    if (isT(fd)) { struct stat st; if (RAW(SYS_fstat, fd, &st) == 0 && st.st_size != l) PRE("ftruncate", fdpath[fd]); }
    int k = RAW(SYS_ftruncate, fd, l); if (isT(fd)) stamp_fd(fd); return k;
}
int ftruncate(int fd, off_t l) { return do_ftruncate(fd, l); }
int ftruncate64(int fd, off64_t l) { return do_ftruncate(fd, l); }
static int do_truncate(const char *p, off_t l) {
    char a[PATH_MAX]; int t = resolve(AT_FDCWD, p, a); if (t) PRE("truncate", a);
    int k = RAW(SYS_truncate, p, l); if (t && !k) stamp(a); return k;
}
int truncate(const char *p, off_t l) { return do_truncate(p, l); }
int truncate64(const char *p, off64_t l) { return do_truncate(p, l); }

/* ---- namespace ---- */
static int do_rename(int d1, const char *p, int d2, const char *q, unsigned f) {
    char a[PATH_MAX], b[PATH_MAX]; int t = resolve(d1, p, a), u = resolve(d2, q, b);
    struct stat st;
    if ((t || u) && RAW(SYS_newfstatat, d1, p, &st, AT_SYMLINK_NOFOLLOW) == 0) PRE("rename", u ? b : a);
    int k = RAW(SYS_renameat2, d1, p, d2, q, f);
    if (!k) { if (t) stamp_parent(a); if (u) stamp_parent(b); }
    return k;
}
int rename(const char *p, const char *q) { return do_rename(AT_FDCWD, p, AT_FDCWD, q, 0); }
int renameat(int d, const char *p, int e, const char *q) { return do_rename(d, p, e, q, 0); }
int renameat2(int d, const char *p, int e, const char *q, unsigned f) { return do_rename(d, p, e, q, f); }
static int do_unlink(int d, const char *p, int flags) {
    char a[PATH_MAX]; int t = resolve(d, p, a); struct stat st;
    if (t && RAW(SYS_newfstatat, d, p, &st, AT_SYMLINK_NOFOLLOW) == 0
        && S_ISDIR(st.st_mode) == !!(flags & AT_REMOVEDIR)) PRE(flags & AT_REMOVEDIR ? "rmdir" : "unlink", a);
    int k = RAW(SYS_unlinkat, d, p, flags); if (t && !k) stamp_parent(a); return k;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { return do_unlink(d, p, f); }
int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); }
static int do_mkdir(int d, const char *p, mode_t m) {
    char a[PATH_MAX]; int t = resolve(d, p, a); struct stat st;
    if (t && RAW(SYS_newfstatat, d, p, &st, AT_SYMLINK_NOFOLLOW) != 0) PRE("mkdir", a);
    int k = RAW(SYS_mkdirat, d, p, m); if (t && !k) { stamp(a); stamp_parent(a); } return k;
}
int mkdir(const char *p, mode_t m) { return do_mkdir(AT_FDCWD, p, m); }
int mkdirat(int d, const char *p, mode_t m) { return do_mkdir(d, p, m); }
static int do_symlink(const char *tgt, int d, const char *p) {
    char a[PATH_MAX]; int t = resolve(d, p, a); struct stat st;
    if (t && RAW(SYS_newfstatat, d, p, &st, AT_SYMLINK_NOFOLLOW) != 0) PRE("symlink", a);
    int k = RAW(SYS_symlinkat, tgt, d, p); if (t && !k) { stamp(a); stamp_parent(a); } return k;
}
int symlink(const char *tgt, const char *p) { return do_symlink(tgt, AT_FDCWD, p); }
int symlinkat(const char *tgt, int d, const char *p) { return do_symlink(tgt, d, p); }
static int do_link(int d1, const char *p, int d2, const char *q, int f) {
    char a[PATH_MAX]; int t = resolve(d2, q, a); struct stat st;
    if (t && RAW(SYS_newfstatat, d2, q, &st, AT_SYMLINK_NOFOLLOW) != 0) PRE("link", a);
    int k = RAW(SYS_linkat, d1, p, d2, q, f); if (t && !k) stamp_parent(a); return k;
}
int link(const char *p, const char *q) { return do_link(AT_FDCWD, p, AT_FDCWD, q, 0); }
int linkat(int d, const char *p, int e, const char *q, int f) { return do_link(d, p, e, q, f); }

/* ---- metadata ---- */
int chmod(const char *p, mode_t m) { char a[PATH_MAX]; if (resolve(AT_FDCWD, p, a)) PRE("chmod", a); return RAW(SYS_fchmodat, AT_FDCWD, p, m); }
int fchmodat(int d, const char *p, mode_t m, int f) {
    char a[PATH_MAX];
    if (resolve(d, p, a)) PRE("chmod", a);
    REAL(int, "fchmodat", int, const char *, mode_t, int);
    return real(d, p, m, f);
}
int fchmod(int fd, mode_t m) { if (isT(fd)) PRE("chmod", fdpath[fd]); return RAW(SYS_fchmod, fd, m); }

static int is_now(const struct timespec ts[2]) { return !ts || ts[1].tv_nsec == UTIME_NOW; }
int utimensat(int d, const char *p, const struct timespec ts[2], int f) {
    char a[PATH_MAX]; int t = resolve(d, p, a);
    if (t) PRE("utime", a);
    if (t && vnow && is_now(ts)) {
        struct timespec v[2]; v[0].tv_sec = v[1].tv_sec = vnow / 1000000000LL; v[0].tv_nsec = v[1].tv_nsec = vnow % 1000000000LL;
        return RAW(SYS_utimensat, d, p, v, f);
    }
    return RAW(SYS_utimensat, d, p, ts, f);
}
int futimens(int fd, const struct timespec ts[2]) {
    if (isT(fd)) PRE("utime", fdpath[fd]);
    if (isT(fd) && vnow && is_now(ts)) { stamp_fd(fd); return 0; }
    return RAW(SYS_utimensat, fd, NULL, ts, 0);
}

/* ---- clock ---- */
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (vnow && c == CLOCK_REALTIME) {
        vnow += TICK; ts->tv_sec = vnow / 1000000000LL; ts->tv_nsec = vnow % 1000000000LL; return 0;
    }
    return RAW(SYS_clock_gettime, c, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
    if (vnow) { vnow += TICK; tv->tv_sec = vnow / 1000000000LL; tv->tv_usec = vnow % 1000000000LL / 1000; return 0; }
    return RAW(SYS_gettimeofday, tv, tz);
}
time_t time(time_t *t) {
    time_t r;
    if (vnow) r = vnow / 1000000000LL; else { struct timespec ts; RAW(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec; }
    if (t) *t = r;
    return r;
}

/* ---- waiting: under the scheduler a sleep is a yield of a blocked process ---- */
static int sleep_yield(void) { if (sched_wr >= 0) { sched_point("sleep", NULL); if (vnow) vnow += 50 * TICK; return 1; } return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { if (sleep_yield()) return 0; return RAW(SYS_nanosleep, a, b); }
int usleep(useconds_t u) { if (sleep_yield()) return 0; struct timespec ts = { u / 1000000, (u % 1000000) * 1000L }; return RAW(SYS_nanosleep, &ts, NULL); }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
    if (sleep_yield()) return 0;
    long r = RAW(SYS_clock_nanosleep, c, f, a, b); return r < 0 ? errno : 0;
}

/* ---- the lock of a profile ---- */
int bind(int fd, __CONST_SOCKADDR_ARG addr, socklen_t l) {
    const struct sockaddr *a = addr.__sockaddr__;
    if (sched_wr >= 0 && a && a->sa_family == AF_UNIX) sched_point("bind", NULL);
    return RAW(SYS_bind, fd, a, l);
}

/* ---- reads that matter to a scheduler ---- */
#include <dirent.h>
DIR *opendir(const char *p) {
    char a[PATH_MAX];
    if (sched_reads && sched_wr >= 0 && resolve(AT_FDCWD, p, a)) sched_point("scandir", a);
    if (count_reads && resolve(AT_FDCWD, p, a)) {
        int r = op("scandir", a);
        if (r > 0) { errno = r; return NULL; }
    }
    REAL(DIR *, "opendir", const char *);
    return real(p);
}
