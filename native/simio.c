/* Simulated disk faults: an LD_PRELOAD seam over the system calls that touch one scratch directory.
 *
 * Operations on paths below the prefix (and on descriptors opened there) are counted; rules decide which
 * of them fail, are cut short or kill the process.  Everything else goes straight through. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_READ = 2, OP_WRITE = 4, OP_CLOSE = 8, OP_TRUNC = 16, OP_SYNC = 32, OP_RENAME = 64, OP_UNLINK = 128,
       OP_MKDIR = 256, OP_RMDIR = 512, OP_CREATE = 1024, OP_STAT = 2048 };
enum { ACT_ERRNO = 1, ACT_SHORT = 2, ACT_TORN = 3, ACT_EXIT = 4, ACT_TORNEXIT = 5, ACT_EOF = 6, ACT_FULL = 7, ACT_DIE = 8 };

#define MAXRULES 16
#define MAXFD 4096
struct rule { int mask, nth, act, err, sticky, arg, seen, fired, on; };
static struct rule rules[MAXRULES];
static char prefix[512];
static int plen;
static unsigned char tracked[MAXFD];
static unsigned long long loghash = 1469598103934665603ULL;
static long nops, fired;
static int active;
static long capacity = -1;         /* bytes that may still be written (full disk) */
static char logbuf[65536];
static int loglen;

static int under(const char *p) { return active && plen && p && !strncmp(p, prefix, plen); }
static int isfd(int fd) { return active && fd >= 0 && fd < MAXFD && tracked[fd]; }
static int at(int dfd, const char *p) { return p && (p[0] == '/' ? under(p) : (dfd != AT_FDCWD && isfd(dfd))); }

static void note(const char *op, const char *what, long r)
{
    char line[400];
    const char *b = what ? what : "";
    if (!strncmp(b, prefix, plen)) b += plen;
    int n = snprintf(line, sizeof line, "%s %s = %ld\n", op, b, r);
    if (n > (int)sizeof line - 1) n = sizeof line - 1;
    for (int i = 0; i < n; i++) { loghash ^= (unsigned char)line[i]; loghash *= 1099511628211ULL; }
    if (loglen + n < (int)sizeof logbuf) { memcpy(logbuf + loglen, line, n); loglen += n; logbuf[loglen] = 0; }
}

/* Which rule applies to this operation (NULL: none). */
static struct rule *hit(int op)
{
    struct rule *got = 0;
    nops++;
    for (int i = 0; i < MAXRULES; i++) {
        struct rule *r = &rules[i];
        if (!r->on || !(r->mask & op)) continue;
        r->seen++;
        if (!got && (r->seen == r->nth || (r->sticky && r->seen > r->nth))) { got = r; r->fired++; fired++; }
    }
    return got;
}

static void die(void) { _exit(77); }

void simio_start(const char *p) { snprintf(prefix, sizeof prefix, "%s", p); plen = strlen(prefix); active = 1; memset(rules, 0, sizeof rules);
    loglen = 0; logbuf[0] = 0; nops = 0; fired = 0; capacity = -1; loghash = 1469598103934665603ULL; }
void simio_stop(void) { active = 0; }
void simio_rule(int slot, int mask, int nth, int act, int err, int sticky, int arg)
{ struct rule r = { mask, nth, act, err, sticky, arg, 0, 0, 1 }; rules[slot] = r; }
void simio_clear(void) { memset(rules, 0, sizeof rules); capacity = -1; }
int simio_fired(int slot) { return rules[slot].fired; }
int simio_seen(int slot) { return rules[slot].seen; }
long simio_total_fired(void) { return fired; }
long simio_ops(void) { return nops; }
unsigned long long simio_hash(void) { return loghash; }
const char *simio_log(void) { return logbuf; }
void simio_capacity(long n) { capacity = n; }
int simio_isfd(int fd) { return isfd(fd); }

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
#define FAIL(r) do { if ((r)->act == ACT_EXIT || (r)->act == ACT_DIE || (r)->act == ACT_TORNEXIT) die(); errno = (r)->err; } while (0)

static int opened(const char *op, int fd, const char *path)
{
    if (fd >= 0 && fd < MAXFD) tracked[fd] = 1;
    note(op, path, fd >= 0 ? 0 : -errno);
    return fd;
}

static int pre_open(const char *path, int flags)
{
    int op = OP_OPEN;
    if ((flags & O_CREAT) || (flags & O_TRUNC)) op |= OP_CREATE;
    struct rule *r = hit(op);
    if (r) { FAIL(r); note("open!", path, -errno); return -1; }
    if (capacity == 0 && (flags & O_CREAT) && access(path, F_OK)) { errno = ENOSPC; note("open-full", path, -errno); fired++; return -1; }
    return 0;
}

#define OPENFN(name) \
int name(const char *path, int flags, ...) { \
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap); \
    REAL(name); \
    if (!under(path)) { int fd = real(path, flags, m); if (fd >= 0 && fd < MAXFD) tracked[fd] = 0; return fd; } \
    if (pre_open(path, flags)) return -1; \
    return opened("open", real(path, flags, m), path); }
OPENFN(open)
OPENFN(open64)

#define OPENATFN(name) \
int name(int dfd, const char *path, int flags, ...) { \
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap); \
    REAL(name); \
    if (!at(dfd, path)) { int fd = real(dfd, path, flags, m); if (fd >= 0 && fd < MAXFD) tracked[fd] = 0; return fd; } \
    if (pre_open(path, flags)) return -1; \
    return opened("openat", real(dfd, path, flags, m), path); }
OPENATFN(openat)
OPENATFN(openat64)

int close(int fd)
{
    REAL(close);
    if (!isfd(fd)) return real(fd);
    struct rule *r = hit(OP_CLOSE);
    if (r && (r->act == ACT_EXIT || r->act == ACT_DIE)) die();
    tracked[fd] = 0;
    int rc = real(fd);
    if (r) { errno = r->err; rc = -1; }
    note("close", "", rc);
    return rc;
}

/* decide how much of a write of n bytes happens; *res set to what to return if the call is not made in full */
static ssize_t plan_write(size_t n, ssize_t *res, int *dies)
{
    struct rule *r = hit(OP_WRITE);
    *res = -2; *dies = 0;
    if (r) switch (r->act) {
        case ACT_EXIT: case ACT_DIE: die();
        case ACT_SHORT: if (n > 1) { ssize_t k = (ssize_t)((double)n * (r->arg % 1000) / 1000.0); if (k < 1) k = 1; return k; } break;
        case ACT_TORNEXIT: *dies = 1; return (ssize_t)((double)n * (r->arg % 1000) / 1000.0);
        case ACT_TORN: *res = -1; errno = r->err; return (ssize_t)((double)n * (r->arg % 1000) / 1000.0);
        case ACT_FULL: capacity = r->arg; r->on = 0; break;
        default: *res = -1; errno = r->err; return 0;
    }
    if (capacity >= 0) {
        if (capacity == 0) { *res = -1; errno = ENOSPC; fired++; return 0; }
        if ((long)n > capacity) { n = capacity; fired++; }
        capacity -= n;
    }
    return n;
}

#define WRITEBODY(call) \
    ssize_t res; int dies; ssize_t k = plan_write(n, &res, &dies); int e = errno; \
    ssize_t w = k > 0 ? (call) : 0; \
    if (dies) die(); \
    if (res == -1) { errno = e; note("write!", "", -e); return -1; } \
    note("write", "", w); return w;

ssize_t write(int fd, const void *b, size_t n) { REAL(write); if (!isfd(fd)) return real(fd, b, n); WRITEBODY(real(fd, b, k)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(pwrite); if (!isfd(fd)) return real(fd, b, n, o); WRITEBODY(real(fd, b, k, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); if (!isfd(fd)) return real(fd, b, n, o); WRITEBODY(real(fd, b, k, o)) }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(writev);
    if (!isfd(fd)) return real(fd, v, c);
    if (c < 1) return real(fd, v, c);
    return write(fd, v[0].iov_base, v[0].iov_len);
}

#define READBODY(call) \
    struct rule *r = hit(OP_READ); size_t k = n; \
    if (r) switch (r->act) { \
        case ACT_EXIT: case ACT_DIE: die(); \
        case ACT_EOF: note("read-eof", "", 0); return 0; \
        case ACT_SHORT: k = (size_t)((double)n * (r->arg % 1000) / 1000.0); if (k < 1) k = 1; break; \
        default: errno = r->err; note("read!", "", -r->err); errno = r->err; return -1; } \
    ssize_t w = (call); note("read", "", w); return w;
ssize_t read(int fd, void *b, size_t n) { REAL(read); if (!isfd(fd)) return real(fd, b, n); READBODY(real(fd, b, k)) }
ssize_t pread(int fd, void *b, size_t n, off_t o) { REAL(pread); if (!isfd(fd)) return real(fd, b, n, o); READBODY(real(fd, b, k, o)) }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { REAL(pread64); if (!isfd(fd)) return real(fd, b, n, o); READBODY(real(fd, b, k, o)) }

/* kernel-side copies: not offered, so that data goes through read and write */
ssize_t sendfile(int o, int i, off_t *p, size_t n) { static ssize_t (*real)(int, int, off_t *, size_t); if (!real) real = dlsym(RTLD_NEXT, "sendfile");
    if (isfd(o) || isfd(i)) { errno = EINVAL; return -1; } return real(o, i, p, n); }
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) { static ssize_t (*real)(int, int, off64_t *, size_t); if (!real) real = dlsym(RTLD_NEXT, "sendfile64");
    if (isfd(o) || isfd(i)) { errno = EINVAL; return -1; } return real(o, i, p, n); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) { REAL(copy_file_range);
    if (isfd(o) || isfd(i)) { errno = EXDEV; return -1; } return real(i, a, o, b, n, f); }

#define SIMPLE(op, name, cond, label, args) \
    if (!(cond)) return real args; \
    struct rule *r = hit(op); \
    if (r) { FAIL(r); int e = errno; note(name "!", label, -e); errno = e; return -1; } \
    int rc = real args; int e = errno; note(name, label, rc ? -e : 0); errno = e; return rc;

int ftruncate(int fd, off_t n) { REAL(ftruncate); SIMPLE(OP_TRUNC, "ftruncate", isfd(fd), "", (fd, n)) }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); SIMPLE(OP_TRUNC, "ftruncate", isfd(fd), "", (fd, n)) }
int fsync(int fd) { REAL(fsync); SIMPLE(OP_SYNC, "fsync", isfd(fd), "", (fd)) }
int fdatasync(int fd) { REAL(fdatasync); SIMPLE(OP_SYNC, "fdatasync", isfd(fd), "", (fd)) }
int rename(const char *a, const char *b) { REAL(rename); SIMPLE(OP_RENAME, "rename", under(a) || under(b), b, (a, b)) }
int renameat(int d1, const char *a, int d2, const char *b) { REAL(renameat); SIMPLE(OP_RENAME, "rename", at(d1, a) || at(d2, b), b, (d1, a, d2, b)) }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { REAL(renameat2); SIMPLE(OP_RENAME, "rename", at(d1, a) || at(d2, b), b, (d1, a, d2, b, f)) }
int link(const char *a, const char *b) { REAL(link); SIMPLE(OP_RENAME, "link", under(b), b, (a, b)) }
int symlink(const char *a, const char *b) { REAL(symlink); SIMPLE(OP_RENAME, "symlink", under(b), b, (a, b)) }
int unlink(const char *a) { REAL(unlink); SIMPLE(OP_UNLINK, "unlink", under(a), a, (a)) }
int unlinkat(int d, const char *a, int f) { REAL(unlinkat); SIMPLE((f & AT_REMOVEDIR) ? OP_RMDIR : OP_UNLINK, "unlinkat", at(d, a), a, (d, a, f)) }
int remove(const char *a) { REAL(remove); SIMPLE(OP_UNLINK, "remove", under(a), a, (a)) }
int rmdir(const char *a) { REAL(rmdir); SIMPLE(OP_RMDIR, "rmdir", under(a), a, (a)) }
int mkdir(const char *a, mode_t m) { REAL(mkdir); SIMPLE(OP_MKDIR, "mkdir", under(a), a, (a, m)) }
int mkdirat(int d, const char *a, mode_t m) { REAL(mkdirat); SIMPLE(OP_MKDIR, "mkdir", at(d, a), a, (d, a, m)) }
