/* File-system seam for the known-answer tool (LD_PRELOAD).
 *
 * KATFS_PREFIX  only files whose path starts with it are simulated
 * KATFS_FAULTS  ';'-separated  OP:INDEX:KIND:ARG, OP one of o r w
 *                 short ARG bytes | eintr | eio | enospc | eacces | flip ARG bit
 *                 | eof | crash (before) | torn ARG bytes, then crash
 * KATFS_SPACE   bytes that fit on the disk in total (-1 = no limit)
 * KATFS_LOG     event log
 * KATFS_SEEN    everything read() handed to the tool
 * Calls are counted per kind over all simulated files, so a fault plan hits
 * the same call in every execution.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 256
static char mine[MAXFD];
static long count[3];
static long space = -1;
static int logfd = -1, seenfd = -1, ready;

struct fault { char op; long at; char kind[12]; long arg; };
static struct fault faults[64];
static int nfaults;
static const char *prefix;

static long raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }

static void init(void)
{
    if (ready) return;
    ready = 1;
    prefix = getenv("KATFS_PREFIX");
    const char *s = getenv("KATFS_SPACE");
    if (s) space = atol(s);
    const char *f = getenv("KATFS_FAULTS");
    while (f && *f && nfaults < 64) {
        struct fault *x = &faults[nfaults];
        if (sscanf(f, "%c:%ld:%11[a-z]:%ld", &x->op, &x->at, x->kind, &x->arg) == 4) nfaults++;
        f = strchr(f, ';');
        if (f) f++;
    }
    const char *l = getenv("KATFS_LOG");
    if (l) logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    l = getenv("KATFS_SEEN");
    if (l) seenfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
}

static void note(char op, long at, const char *what, long n)
{
    char b[80];
    int k = snprintf(b, sizeof b, "%c %ld %s %ld\n", op, at, what, n);
    if (logfd >= 0) raw_write(logfd, b, k);
}

static struct fault *hit(char op, long at)
{
    for (int i = 0; i < nfaults; i++)
        if (faults[i].op == op && faults[i].at == at) return &faults[i];
    return 0;
}

static int is(struct fault *f, const char *k) { return f && !strcmp(f->kind, k); }

static int do_open(int dir, const char *path, int flags, mode_t mode)
{
    init();
    int sim = prefix && !strncmp(path, prefix, strlen(prefix));
    if (sim) {
        long at = count[0]++;
        struct fault *f = hit('o', at);
        if (f) note('o', at, f->kind, 0);
        if (is(f, "crash")) _exit(99);
        if (is(f, "eintr")) { errno = EINTR; return -1; }
        if (is(f, "eio")) { errno = EIO; return -1; }
        if (is(f, "enospc")) { errno = ENOSPC; return -1; }
        if (is(f, "eacces")) { errno = EACCES; return -1; }
    }
    int fd = syscall(SYS_openat, dir, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) mine[fd] = sim;
    if (sim) note('o', count[0] - 1, fd >= 0 ? "ok" : "fail", flags & (O_ACCMODE | O_TRUNC | O_CREAT | O_APPEND));
    return fd;
}

#define OPEN_BODY(dirfd) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); } \
    return do_open(dirfd, path, flags, mode)

int open(const char *path, int flags, ...) { OPEN_BODY(AT_FDCWD); }
int open64(const char *path, int flags, ...) { OPEN_BODY(AT_FDCWD); }
int openat(int d, const char *path, int flags, ...) { OPEN_BODY(d); }
int openat64(int d, const char *path, int flags, ...) { OPEN_BODY(d); }

int close(int fd)
{
    if (fd >= 0 && fd < MAXFD) mine[fd] = 0;
    return syscall(SYS_close, fd);
}

ssize_t write(int fd, const void *b, size_t n)
{
    init();
    if (fd < 0 || fd >= MAXFD || !mine[fd]) return raw_write(fd, b, n);
    long at = count[2]++;
    struct fault *f = hit('w', at);
    if (f) note('w', at, f->kind, f->arg);
    if (is(f, "crash")) _exit(99);
    if (is(f, "eintr")) { errno = EINTR; return -1; }
    if (is(f, "eio")) { errno = EIO; return -1; }
    if (is(f, "enospc")) { errno = ENOSPC; return -1; }
    if ((is(f, "short") || is(f, "torn")) && n > 0) {
        size_t k = f->arg % n;
        if (is(f, "short") && k == 0) k = 1;
        n = k;
    }
    if (space >= 0) {
        if (n > 0 && space == 0) { note('w', at, "full", 0); errno = ENOSPC; return -1; }
        if ((long)n > space) n = space;
    }
    ssize_t r = raw_write(fd, b, n);
    if (r > 0 && space >= 0) space -= r;
    if (is(f, "torn")) _exit(99);
    note('w', at, "ok", r);
    return r;
}

ssize_t writev(int fd, const struct iovec *v, int c)
{
    /* one simulated write of the first non-empty part: a legal short write */
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

ssize_t read(int fd, void *b, size_t n)
{
    init();
    if (fd < 0 || fd >= MAXFD || !mine[fd]) return syscall(SYS_read, fd, b, n);
    long at = count[1]++;
    struct fault *f = hit('r', at);
    if (f) note('r', at, f->kind, f->arg);
    if (is(f, "crash")) _exit(99);
    if (is(f, "eintr")) { errno = EINTR; return -1; }
    if (is(f, "eio")) { errno = EIO; return -1; }
    if (is(f, "eof")) return 0;
    if (is(f, "short") && n > 0) n = 1 + f->arg % n;
    ssize_t r = syscall(SYS_read, fd, b, n);
    if (r > 0 && is(f, "flip")) {
        long bit = f->arg % (8 * r);
        ((unsigned char *)b)[bit / 8] ^= 1 << (bit % 8);
    }
    if (r > 0 && seenfd >= 0) raw_write(seenfd, b, r);
    note('r', at, "ok", r);
    return r;
}

ssize_t pread64(int fd, void *b, size_t n, off64_t off)
{
    return syscall(SYS_pread64, fd, b, n, off);
}
