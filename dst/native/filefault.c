/* File-operation seam: interposes libc's file calls (LD_PRELOAD). Inactive until
   armed; then it counts the calls that concern files below a prefix and injects one
   fault at the n-th of them. Everything is decided by the caller: no randomness here. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
enum { F_NONE, F_ERROR, F_SHORT, F_CRASH_BEFORE, F_CRASH_AFTER, F_CRASH_MID, F_FULL };

static char prefix[1024];
static int armed;
static char mine[MAXFD];
static long count;        /* intercepted operations so far */
static long at = -1;      /* operation to hit */
static int kind;
static int err;
static long bytes;        /* size of a partial write / free space left */
static int fired;
static int fired_op;
static char oplog[4096];  /* o=open w=write c=close r=rename u=unlink s=sync t=truncate */

static int (*r_open)(const char *, int, ...);
static int (*r_openat)(int, const char *, int, ...);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_pwrite)(int, const void *, size_t, off_t);
static ssize_t (*r_writev)(int, const struct iovec *, int);
static int (*r_close)(int);
static int (*r_rename)(const char *, const char *);
static int (*r_renameat)(int, const char *, int, const char *);
static int (*r_renameat2)(int, const char *, int, const char *, unsigned);
static int (*r_unlink)(const char *);
static int (*r_unlinkat)(int, const char *, int);
static int (*r_fsync)(int);
static int (*r_fdatasync)(int);
static int (*r_ftruncate)(int, off_t);

#define LOAD(n) if (!r_##n) *(void **)&r_##n = dlsym(RTLD_NEXT, #n)
__attribute__((constructor)) static void init(void)
{
    LOAD(open); LOAD(openat); LOAD(write); LOAD(pwrite); LOAD(writev); LOAD(close);
    LOAD(rename); LOAD(renameat); LOAD(renameat2); LOAD(unlink); LOAD(unlinkat);
    LOAD(fsync); LOAD(fdatasync); LOAD(ftruncate);
}

void ff_arm(const char *p, long n, int k, int e, long b)
{
    snprintf(prefix, sizeof prefix, "%s", p);
    memset(mine, 0, sizeof mine);
    memset(oplog, 0, sizeof oplog);
    count = 0; at = n; kind = k; err = e; bytes = b; fired = 0; fired_op = 0; armed = 1;
}
void ff_disarm(void) { armed = 0; }
long ff_count(void) { return count; }
int ff_fired(void) { return fired; }
int ff_fired_op(void) { return fired_op; }
const char *ff_log(void) { return oplog; }

static int ours(const char *p) { return armed && p && !strncmp(p, prefix, strlen(prefix)); }
static int ourfd(int fd) { return armed && fd >= 0 && fd < MAXFD && mine[fd]; }

/* Counts an operation; returns 1 when it is the one to hit. */
static int hit(char op)
{
    long i = count++;
    if (i < (long)sizeof oplog - 1) oplog[i] = op;
    if (i != at) return 0;
    if (kind == F_FULL) return 0;
    if (kind == F_SHORT && op != 'w') return 0;
    fired = 1; fired_op = op;
    if (kind == F_CRASH_BEFORE || (kind == F_CRASH_MID && op != 'w')) _exit(77);
    return 1;
}
static void after(int h) { if (h && kind == F_CRASH_AFTER) _exit(77); }

static int do_open(int which, int dfd, const char *p, int flags, mode_t mode)
{
    int h = 0, fd;
    int us = ours(p) && (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC));
    if (us) {
        h = hit('o');
        if (h && kind == F_ERROR) { errno = err; return -1; }
    }
    fd = which ? r_openat(dfd, p, flags, mode) : r_open(p, flags, mode);
    if (fd >= 0 && fd < MAXFD) mine[fd] = us;
    after(h);
    return fd;
}
int open(const char *p, int flags, ...)
{
    mode_t m = 0; va_list a; va_start(a, flags); if (flags & (O_CREAT | O_TMPFILE)) m = va_arg(a, mode_t); va_end(a);
    LOAD(open);
    return do_open(0, 0, p, flags, m);
}
int open64(const char *p, int flags, ...)
{
    mode_t m = 0; va_list a; va_start(a, flags); if (flags & (O_CREAT | O_TMPFILE)) m = va_arg(a, mode_t); va_end(a);
    LOAD(open);
    return do_open(0, 0, p, flags | O_LARGEFILE, m);
}
int openat(int d, const char *p, int flags, ...)
{
    mode_t m = 0; va_list a; va_start(a, flags); if (flags & (O_CREAT | O_TMPFILE)) m = va_arg(a, mode_t); va_end(a);
    LOAD(openat);
    return do_open(1, d, p, flags, m);
}
int openat64(int d, const char *p, int flags, ...)
{
    mode_t m = 0; va_list a; va_start(a, flags); if (flags & (O_CREAT | O_TMPFILE)) m = va_arg(a, mode_t); va_end(a);
    LOAD(openat);
    return do_open(1, d, p, flags | O_LARGEFILE, m);
}

/* Returns -2 to go on with the real write of *n bytes. */
static ssize_t pre_write(size_t *n, int *h)
{
    *h = hit('w');
    if (kind == F_FULL && count - 1 >= at) {
        if (bytes <= 0) { fired = 1; fired_op = 'w'; errno = err; return -1; }
        if ((long)*n > bytes) *n = bytes;
        bytes -= *n;
        return -2;
    }
    if (*h && kind == F_ERROR) { errno = err; return -1; }
    if (*h && (kind == F_SHORT || kind == F_CRASH_MID)) {
        if (*n > 1) *n = (size_t)bytes % *n;
        if (kind == F_SHORT && *n == 0) *n = 1;
    }
    return -2;
}
static void post_write(int h)
{
    if (h && kind == F_CRASH_MID) _exit(77);
    after(h);
}
ssize_t write(int fd, const void *b, size_t n)
{
    int h; ssize_t r;
    LOAD(write);
    if (!ourfd(fd)) return r_write(fd, b, n);
    if ((r = pre_write(&n, &h)) != -2) return r;
    r = r_write(fd, b, n);
    post_write(h);
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
    int h; ssize_t r;
    LOAD(pwrite);
    if (!ourfd(fd)) return r_pwrite(fd, b, n, o);
    if ((r = pre_write(&n, &h)) != -2) return r;
    r = r_pwrite(fd, b, n, o);
    post_write(h);
    return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    LOAD(writev);
    if (!ourfd(fd)) return r_writev(fd, v, c);
    return c ? write(fd, v[0].iov_base, v[0].iov_len) : 0;
}
int close(int fd)
{
    int h = 0, r, us = ourfd(fd);
    LOAD(close);
    if (us) h = hit('c');
    if (fd >= 0 && fd < MAXFD) mine[fd] = 0;
    r = r_close(fd);
    if (h && kind == F_ERROR) { errno = err; return -1; }
    after(h);
    return r;
}
#define TWO(call) \
    int h, r; \
    if (!(ours(a) || ours(b))) return call; \
    h = hit('r'); \
    if (h && kind == F_ERROR) { errno = err; return -1; } \
    r = call; after(h); return r;
int rename(const char *a, const char *b) { LOAD(rename); TWO(r_rename(a, b)) }
int renameat(int x, const char *a, int y, const char *b) { LOAD(renameat); TWO(r_renameat(x, a, y, b)) }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { LOAD(renameat2); TWO(r_renameat2(x, a, y, b, f)) }
#define ONE(cond, op, call) \
    int h, r; \
    if (!(cond)) return call; \
    h = hit(op); \
    if (h && kind == F_ERROR) { errno = err; return -1; } \
    r = call; after(h); return r;
int unlink(const char *p) { LOAD(unlink); ONE(ours(p), 'u', r_unlink(p)) }
int unlinkat(int d, const char *p, int f) { LOAD(unlinkat); ONE(ours(p), 'u', r_unlinkat(d, p, f)) }
int fsync(int fd) { LOAD(fsync); ONE(ourfd(fd), 's', r_fsync(fd)) }
int fdatasync(int fd) { LOAD(fdatasync); ONE(ourfd(fd), 's', r_fdatasync(fd)) }
int ftruncate(int fd, off_t n) { LOAD(ftruncate); ONE(ourfd(fd), 't', r_ftruncate(fd, n)) }
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
