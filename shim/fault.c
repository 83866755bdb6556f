/* LD_PRELOAD monitor + fault injector for filesystem calls under one scratch root.
 *
 *   VF_ROOT   only calls on paths under this prefix (and fds opened there) are seen
 *   VF_LOG    append one line per seen call (the event log the checker reads)
 *   VF_AT     0-based index, among "faultable" calls, of the call to disturb (-1: none)
 *   VF_MODE   enospc | eio | short | eintr | kill | killafter | killmid | sticky
 *   VF_CLASS  w: creating/writing calls are faultable; r: reading calls are
 *
 * unlink/rmdir are logged, never faulted (the rollback itself is not under attack).
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
static unsigned char tracked[MAXFD];
static int inited, logfd = -1;
static long at = -1, count = 0;
static char root[PATH_MAX], mode[32], cls = 'w';
static int fired, is_delay;
static unsigned long long rngs = 88172645463325252ULL;

static void init(void) {
    if (inited) return;
    inited = 1;
    const char *r = getenv("VF_ROOT");
    if (r) snprintf(root, sizeof root, "%s", r);
    const char *m = getenv("VF_MODE");
    snprintf(mode, sizeof mode, "%s", m ? m : "none");
    is_delay = !strcmp(mode, "delay");
    const char *sd = getenv("VF_SEED");
    if (sd) rngs ^= strtoull(sd, 0, 10) * 0x9E3779B97F4A7C15ULL;
    if (!rngs) rngs = 1;
    const char *a = getenv("VF_AT");
    if (a) at = atol(a);
    const char *c = getenv("VF_CLASS");
    if (c) cls = c[0];
    const char *l = getenv("VF_LOG");
    if (l) logfd = (int)syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
}

static int under(const char *p) {
    init();
    return root[0] && p && strncmp(p, root, strlen(root)) == 0;
}

static void logev(const char *op, const char *what, long n, const char *res) {
    if (logfd < 0) return;
    char b[PATH_MAX + 128];
    int k = snprintf(b, sizeof b, "%s %s %ld %s\n", op, what, n, res);
    if (k > 0) syscall(SYS_write, logfd, b, (size_t)k);
}

/* returns 1 if this faultable call is the one to disturb */
static int hit(char c) {
    init();
    if (is_delay) {
        /* schedule perturbation: a random pause before every seen call */
        rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17;
        struct timespec ts = {0, (long)(rngs % 7 == 0 ? rngs % 900000 : rngs % 60000)};
        nanosleep(&ts, 0);
        return 0;
    }
    if (c != cls) return 0;
    long me = count++;
    if (at == -2) { fired = 1; return 1; }
    if (at < 0) return 0;
    if (me == at) { fired = 1; return 1; }
    if (!strcmp(mode, "sticky") && fired) return 1;
    return 0;
}

static int is(const char *m) { return strcmp(mode, m) == 0; }

static int path_fault(const char *op, const char *p) {
    /* 0: proceed; 1: fail with errno set; kills do not return; killafter: 2 */
    if (!hit('w')) { logev(op, p, 0, "ok"); return 0; }
    if (is("kill") || is("killmid")) { logev(op, p, 0, "KILL"); _exit(137); }
    if (is("killafter")) { logev(op, p, 0, "KILLAFTER"); return 2; }
    if (is("short") || is("eintr")) { logev(op, p, 0, "benign-skipped"); return 0; }
    logev(op, p, 0, "FAULT");
    errno = is("eio") ? EIO : ENOSPC;
    return 1;
}

#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

static void track(int fd) { if (fd >= 0 && fd < MAXFD) tracked[fd] = 1; }

static int open_common(const char *op, const char *p, int flags, int dirfd, int isat, mode_t m) {
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    int u = under(p);
    int f = 0;
    if (u && wr) { f = path_fault(op, p); if (f == 1) return -1; }
    else if (u) {
        if (hit('r') && !is("short") && !is("eintr") && !is("kill")) { logev(op, p, 0, "FAULT"); errno = EIO; return -1; }
        logev("open-r", p, 0, "ok");
    }
    int fd = (int)syscall(SYS_openat, isat ? dirfd : AT_FDCWD, p, flags, m);
    if (u) track(fd);
    if (f == 2) _exit(137);
    return fd;
}

int open(const char *p, int flags, ...) { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } return open_common("open", p, flags, 0, 0, m); }
int open64(const char *p, int flags, ...) { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } return open_common("open", p, flags | O_LARGEFILE, 0, 0, m); }
int openat(int d, const char *p, int flags, ...) { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } return open_common("open", p, flags, d, 1, m); }
int openat64(int d, const char *p, int flags, ...) { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } return open_common("open", p, flags | O_LARGEFILE, d, 1, m); }

int close(int fd) { REAL(close); if (fd >= 0 && fd < MAXFD && tracked[fd]) { tracked[fd] = 0; logev("close", "-", fd, "ok"); } return real(fd); }

#define PATHOP(name, sig, args) \
int name sig { REAL(name); int f = 0; if (under(p)) { f = path_fault(#name, p); if (f == 1) return -1; } int r = real args; if (f == 2) _exit(137); return r; }
PATHOP(mkdir, (const char *p, mode_t m), (p, m))
PATHOP(mkdirat, (int d, const char *p, mode_t m), (d, p, m))
PATHOP(rename, (const char *p, const char *q), (p, q))
PATHOP(renameat, (int d, const char *p, int e, const char *q), (d, p, e, q))
PATHOP(link, (const char *p, const char *q), (p, q))
PATHOP(symlink, (const char *q, const char *p), (q, p))

int unlink(const char *p) { REAL(unlink); if (under(p)) logev("unlink", p, 0, "seen"); return real(p); }
int rmdir(const char *p) { REAL(rmdir); if (under(p)) logev("rmdir", p, 0, "seen"); return real(p); }

static int wfault(int fd, size_t n, size_t *lim) {
    /* 0 proceed; 1 fail; 2 proceed with *lim then _exit; 3 proceed with *lim */
    if (!(fd >= 0 && fd < MAXFD && tracked[fd])) return 0;
    if (!hit('w')) { logev("write", "-", (long)n, "ok"); return 0; }
    if (is("kill")) { logev("write", "-", (long)n, "KILL"); _exit(137); }
    if (is("killafter")) { logev("write", "-", (long)n, "KILLAFTER"); *lim = n; return 2; }
    if (is("killmid")) { logev("write", "-", (long)n, "KILLMID"); *lim = n / 2; return 2; }
    if (is("short")) { logev("write", "-", (long)n, "SHORT"); *lim = n > 1 ? n / 2 : n; return 3; }
    if (is("eintr")) { logev("write", "-", (long)n, "EINTR"); errno = EINTR; return 1; }
    logev("write", "-", (long)n, "FAULT");
    errno = is("eio") ? EIO : ENOSPC;
    return 1;
}

ssize_t write(int fd, const void *b, size_t n) {
    size_t lim = n; int f = wfault(fd, n, &lim);
    if (f == 1) return -1;
    ssize_t r = syscall(SYS_write, fd, b, f ? lim : n);
    if (f == 2) _exit(137);
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    size_t lim = n; int f = wfault(fd, n, &lim);
    if (f == 1) return -1;
    ssize_t r;
    if (f && c > 0) { size_t k = v[0].iov_len < lim ? v[0].iov_len : lim; r = syscall(SYS_write, fd, v[0].iov_base, k); }
    else r = syscall(SYS_writev, fd, v, c);
    if (f == 2) _exit(137);
    return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    size_t lim = n; int f = wfault(fd, n, &lim);
    if (f == 1) return -1;
    ssize_t r = syscall(SYS_pwrite64, fd, b, f ? lim : n, o);
    if (f == 2) _exit(137);
    return r;
}
static int fdop(const char *op, int fd) {
    if (!(fd >= 0 && fd < MAXFD && tracked[fd])) return 0;
    if (!hit('w')) { logev(op, "-", fd, "ok"); return 0; }
    if (is("kill") || is("killmid")) { logev(op, "-", fd, "KILL"); _exit(137); }
    if (is("short") || is("eintr") || is("killafter")) return 0;
    logev(op, "-", fd, "FAULT"); errno = is("eio") ? EIO : ENOSPC; return 1;
}
int fsync(int fd) { if (fdop("fsync", fd)) return -1; return (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (fdop("fdatasync", fd)) return -1; return (int)syscall(SYS_fdatasync, fd); }
int ftruncate64(int fd, off64_t l) { if (fdop("ftruncate", fd)) return -1; return (int)syscall(SYS_ftruncate, fd, l); }

ssize_t read(int fd, void *b, size_t n) {
    init();
    if (!(fd >= 0 && fd < MAXFD && tracked[fd])) return syscall(SYS_read, fd, b, n);
    if (!hit('r')) { ssize_t r = syscall(SYS_read, fd, b, n); logev("read", "-", (long)r, "ok"); return r; }
    if (is("short")) { logev("read", "-", (long)n, "SHORT"); return syscall(SYS_read, fd, b, n > 1 ? (n + 2) / 3 : n); }
    if (is("eintr")) { logev("read", "-", (long)n, "EINTR"); errno = EINTR; return -1; }
    logev("read", "-", (long)n, "FAULT"); errno = EIO; return -1;
}
