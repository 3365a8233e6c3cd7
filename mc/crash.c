/* Fault injector (LD_PRELOAD).  Counts the calls which change files below one
 * directory and, at a chosen call, ends the process before, in the middle of or
 * after it, or makes it fail.  Inactive until crash_arm() is called.
 *
 * kinds: 0 exit before, 1 exit after, 2 exit after half of a write,
 *        3 fail ENOSPC, 4 fail EIO, 5 short write (half) then success,
 *        6 half of the write and then ENOSPC for every later write,
 *        7 exit after the first byte of a write, 8 all but the last byte
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char dir[PATH_MAX];
static int armed = 0, target = -1, kind = 0, count = 0, nospace = 0, hit = 0;
static char logbuf[65536];
static size_t loglen = 0;

void crash_arm(const char *d, int idx, int k)
{
    snprintf(dir, sizeof dir, "%s", d);
    target = idx; kind = k; count = 0; nospace = 0; hit = 0; loglen = 0; armed = 1;
}
int crash_disarm(void) { armed = 0; return count; }
int crash_hit(void) { return hit; }
const char *crash_log(void) { logbuf[loglen] = 0; return logbuf; }

static int below(const char *p)
{
    char full[PATH_MAX * 2];
    if (!armed || !p) return 0;
    if (p[0] != '/') {
        char cwd[PATH_MAX];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        snprintf(full, sizeof full, "%s/%s", cwd, p);
        p = full;
    }
    size_t n = strlen(dir);
    return strncmp(p, dir, n) == 0 && (p[n] == '/' || p[n] == 0);
}
static int fdbelow(int fd)
{
    char link[64], p[PATH_MAX];
    if (!armed) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, p, sizeof p - 1);
    if (n <= 0) return 0;
    p[n] = 0;
    return below(p);
}
/* returns -1 do nothing special, otherwise the kind to apply */
static int point(const char *name)
{
    int i = count++;
    size_t n = strlen(name);
    if (loglen + n + 2 < sizeof logbuf) { memcpy(logbuf + loglen, name, n); loglen += n; logbuf[loglen++] = ' '; }
    if (i != target) return -1;
    hit = 1;
    return kind;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = 0; if (!real) real = dlsym(RTLD_NEXT, name)
#define SIMPLE(cond, name, call) do { \
    if (!(cond)) return call; \
    int k = point(name); \
    if (k == 0 || k == 2 || k == 7 || k == 8) _exit(77); \
    if (k == 3 || k == 6) { if (k == 6) nospace = 1; errno = ENOSPC; return -1; } \
    if (k == 4) { errno = EIO; return -1; } \
    int r = call; \
    if (k == 1) _exit(77); \
    return r; } while (0)

static int mutating(int flags) { return (flags & (O_CREAT | O_TRUNC)) || (flags & O_ACCMODE) != O_RDONLY; }

#define OPENBODY(sym) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }

int open(const char *p, int flags, ...)
{ OPENBODY() REAL(int, "open", const char *, int, ...); SIMPLE(mutating(flags) && below(p), "open", real(p, flags, mode)); }
int open64(const char *p, int flags, ...)
{ OPENBODY() REAL(int, "open64", const char *, int, ...); SIMPLE(mutating(flags) && below(p), "open", real(p, flags, mode)); }
int openat(int d, const char *p, int flags, ...)
{ OPENBODY() REAL(int, "openat", int, const char *, int, ...); SIMPLE(mutating(flags) && (p[0] == '/' || d == AT_FDCWD ? below(p) : fdbelow(d)), "open", real(d, p, flags, mode)); }
int openat64(int d, const char *p, int flags, ...)
{ OPENBODY() REAL(int, "openat64", int, const char *, int, ...); SIMPLE(mutating(flags) && (p[0] == '/' || d == AT_FDCWD ? below(p) : fdbelow(d)), "open", real(d, p, flags, mode)); }

ssize_t write(int fd, const void *b, size_t n)
{
    REAL(ssize_t, "write", int, const void *, size_t);
    if (!fdbelow(fd)) return real(fd, b, n);
    if (nospace) { errno = ENOSPC; return -1; }
    int k = point("write");
    if (k == 0) _exit(77);
    if (k == 1) { real(fd, b, n); _exit(77); }
    if (k == 2) { real(fd, b, n / 2); _exit(77); }
    if (k == 7) { real(fd, b, n ? 1 : 0); _exit(77); }
    if (k == 8) { real(fd, b, n ? n - 1 : 0); _exit(77); }
    if (k == 3) { errno = ENOSPC; return -1; }
    if (k == 4) { errno = EIO; return -1; }
    if (k == 5 && n > 1) return real(fd, b, n / 2);
    if (k == 6) { nospace = 1; if (n > 1) return real(fd, b, n / 2); errno = ENOSPC; return -1; }
    return real(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t);
    if (!fdbelow(fd)) return real(fd, b, n, o);
    int k = point("pwrite");
    if (k == 0) _exit(77);
    if (k == 1) { real(fd, b, n, o); _exit(77); }
    if (k == 2 || k == 7 || k == 8) { real(fd, b, n / 2, o); _exit(77); }
    if (k == 3 || k == 6) { errno = ENOSPC; return -1; }
    if (k == 4) { errno = EIO; return -1; }
    return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n)
{
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (!fdbelow(fd)) return real(fd, v, n);
    int k = point("writev");
    if (k == 0) _exit(77);
    if (k == 1) { real(fd, v, n); _exit(77); }
    if (k == 2 || k == 7 || k == 8) { real(fd, v, n > 1 ? n / 2 : 0); _exit(77); }
    if (k == 3 || k == 6) { errno = ENOSPC; return -1; }
    if (k == 4) { errno = EIO; return -1; }
    return real(fd, v, n);
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n)
{
    REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
    if (!fdbelow(out)) return real(out, in, o, n);
    int k = point("sendfile");
    if (k == 0) _exit(77);
    if (k == 1) { real(out, in, o, n); _exit(77); }
    if (k == 2 || k == 7 || k == 8) { struct stat st; size_t h = n; if (!fstat(in, &st) && (size_t)st.st_size < h) h = st.st_size; real(out, in, o, h / 2); _exit(77); }
    if (k == 3 || k == 6) { errno = ENOSPC; return -1; }
    if (k == 4) { errno = EIO; return -1; }
    return real(out, in, o, n);
}
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f)
{
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
    if (!fdbelow(out)) return real(in, oi, out, oo, n, f);
    int k = point("copy_file_range");
    if (k == 0) _exit(77);
    if (k == 1) { real(in, oi, out, oo, n, f); _exit(77); }
    if (k == 2 || k == 7 || k == 8) { struct stat st; size_t h = n; if (!fstat(in, &st) && (size_t)st.st_size < h) h = st.st_size; real(in, oi, out, oo, h / 2, f); _exit(77); }
    if (k == 3 || k == 6) { errno = ENOSPC; return -1; }
    if (k == 4) { errno = EIO; return -1; }
    return real(in, oi, out, oo, n, f);
}
int rename(const char *a, const char *b)
{ REAL(int, "rename", const char *, const char *); SIMPLE(below(a) || below(b), "rename", real(a, b)); }
int renameat(int x, const char *a, int y, const char *b)
{ REAL(int, "renameat", int, const char *, int, const char *); SIMPLE(below(a) || below(b), "rename", real(x, a, y, b)); }
int renameat2(int x, const char *a, int y, const char *b, unsigned f)
{ REAL(int, "renameat2", int, const char *, int, const char *, unsigned); SIMPLE(below(a) || below(b), "rename", real(x, a, y, b, f)); }
int link(const char *a, const char *b)
{ REAL(int, "link", const char *, const char *); SIMPLE(below(b), "link", real(a, b)); }
int unlink(const char *a)
{ REAL(int, "unlink", const char *); SIMPLE(below(a), "unlink", real(a)); }
int unlinkat(int d, const char *a, int f)
{ REAL(int, "unlinkat", int, const char *, int); SIMPLE(below(a), "unlink", real(d, a, f)); }
int truncate64(const char *a, off64_t n)
{ REAL(int, "truncate64", const char *, off64_t); SIMPLE(below(a), "truncate", real(a, n)); }
int ftruncate64(int fd, off64_t n)
{ REAL(int, "ftruncate64", int, off64_t); SIMPLE(fdbelow(fd), "ftruncate", real(fd, n)); }
int ftruncate(int fd, off_t n)
{ REAL(int, "ftruncate", int, off_t); SIMPLE(fdbelow(fd), "ftruncate", real(fd, n)); }
int fsync(int fd)
{ REAL(int, "fsync", int); SIMPLE(fdbelow(fd), "fsync", real(fd)); }
int fdatasync(int fd)
{ REAL(int, "fdatasync", int); SIMPLE(fdbelow(fd), "fsync", real(fd)); }
int chmod(const char *a, mode_t m)
{ REAL(int, "chmod", const char *, mode_t); SIMPLE(below(a), "chmod", real(a, m)); }
int fchmodat(int d, const char *a, mode_t m, int f)
{ REAL(int, "fchmodat", int, const char *, mode_t, int); SIMPLE(below(a), "chmod", real(d, a, m, f)); }
int mkdir(const char *a, mode_t m)
{ REAL(int, "mkdir", const char *, mode_t); SIMPLE(below(a), "mkdir", real(a, m)); }
int close(int fd)
{
    REAL(int, "close", int);
    if (!armed || !fdbelow(fd)) return real(fd);
    int fl = fcntl(fd, F_GETFL);
    if (fl < 0 || (fl & O_ACCMODE) == O_RDONLY) return real(fd);
    int k = point("close");
    if (k == 0 || k == 2 || k == 7 || k == 8) _exit(77);
    int r = real(fd);
    if (k == 1) _exit(77);
    if (k == 3 || k == 6) { errno = ENOSPC; return -1; }
    if (k == 4) { errno = EIO; return -1; }
    return r;
}
