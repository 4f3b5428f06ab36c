/* Interposes the file-system calls of a process on paths below one directory
 * and lets a controller decide about each of them before it is executed:
 *   'g' go on, 'k' kill the process here, 'p' (write) do half of it, then
 *   kill, 'e'+errno byte: fail with that error.
 * Writes are split into pieces of at most CHUNK bytes (short writes). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int out_fd = -1, in_fd = -1, busy = 0;
static size_t chunk = 0;
static char dir[4096];
static char *names[4096];

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__) = 0; \
    if (!real) real = dlsym(RTLD_NEXT, name)

void shim_control(const char *d, int o, int i, long c)
{
    strncpy(dir, d, sizeof dir - 1);
    out_fd = o; in_fd = i; chunk = c;
}

static int under(const char *p)
{
    size_t n = strlen(dir);
    return out_fd >= 0 && !busy && p && n && !strncmp(p, dir, n);
}

static void send_all(const char *b, size_t n)
{
    static ssize_t (*w)(int, const void *, size_t) = 0;
    if (!w) w = dlsym(RTLD_NEXT, "write");
    while (n) {
        ssize_t k = w(out_fd, b, n);
        if (k <= 0) _exit(99);
        b += k; n -= k;
    }
}

/* announce an operation; returns the decision */
static int ask(const char *op, const char *a, const char *b, long x, int fd)
{
    char line[12000];
    int n = snprintf(line, sizeof line, "%s\t%s\t%s\t%ld\t%d\n", op,
                     a ? a : "", b ? b : "", x, fd);
    unsigned char c, e;
    busy = 1;
    send_all(line, n);
    if (read(in_fd, &c, 1) != 1) _exit(98);
    if (c == 'e') {
        if (read(in_fd, &e, 1) != 1) _exit(98);
        busy = 0;
        return e;
    }
    busy = 0;
    if (c == 'k') { kill(getpid(), SIGKILL); for (;;) pause(); }
    if (c == 'p') return -1;
    return 0;
}

#define ASK(...) do { int e_ = ask(__VA_ARGS__); \
    if (e_ > 0) { errno = e_; return -1; } \
    if (e_ < 0) { kill(getpid(), SIGKILL); for (;;) pause(); } } while (0)

static int note(int fd, const char *p)
{
    if (fd >= 0 && fd < 4096) { free(names[fd]); names[fd] = strdup(p); }
    return fd;
}

static int mutates(int flags)
{
    return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
}

static long oflags(int f)
{
    return (f & O_CREAT ? 1 : 0) | (f & O_TRUNC ? 2 : 0) |
           (f & O_EXCL ? 4 : 0) | (f & O_APPEND ? 8 : 0);
}

#define OPEN(NAME) \
int NAME(const char *p, int flags, ...) \
{ \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { \
        va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    REAL(int, #NAME, const char *, int, ...); \
    if (under(p) && mutates(flags)) { \
        ASK("open", p, "", oflags(flags), -1); \
        return note(real(p, flags, m), p); } \
    return real(p, flags, m); \
}
OPEN(open)
OPEN(open64)

#define OPENAT(NAME) \
int NAME(int d, const char *p, int flags, ...) \
{ \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { \
        va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    REAL(int, #NAME, int, const char *, int, ...); \
    if (under(p) && mutates(flags)) { \
        ASK("open", p, "", oflags(flags), -1); \
        return note(real(d, p, flags, m), p); } \
    return real(d, p, flags, m); \
}
OPENAT(openat)
OPENAT(openat64)

static int tracked(int fd)
{
    return out_fd >= 0 && !busy && fd >= 0 && fd < 4096 && names[fd];
}

ssize_t write(int fd, const void *b, size_t n)
{
    REAL(ssize_t, "write", int, const void *, size_t);
    if (tracked(fd)) {
        int e;
        if (chunk && n > chunk) n = chunk;
        e = ask("write", names[fd], "", n, fd);
        if (e > 0) { errno = e; return -1; }
        if (e < 0) {
            real(fd, b, n / 2);
            kill(getpid(), SIGKILL);
            for (;;) pause();
        }
    }
    return real(fd, b, n);
}

ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t);
    if (tracked(fd)) ASK("other", names[fd], "pwrite", n, fd);
    return real(fd, b, n, o);
}

ssize_t writev(int fd, const struct iovec *v, int n)
{
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (tracked(fd)) ASK("other", names[fd], "writev", n, fd);
    return real(fd, v, n);
}

ssize_t sendfile64(int o, int i, off64_t *off, size_t n)
{
    REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
    if (tracked(o)) {
        if (chunk && n > chunk) n = chunk;
        ASK("write", names[o], "sendfile", n, o);
    }
    return real(o, i, off, n);
}

ssize_t sendfile(int o, int i, off_t *off, size_t n)
{
    REAL(ssize_t, "sendfile", int, int, off_t *, size_t);
    if (tracked(o)) {
        if (chunk && n > chunk) n = chunk;
        ASK("write", names[o], "sendfile", n, o);
    }
    return real(o, i, off, n);
}

ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n,
                        unsigned f)
{
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t,
         unsigned);
    if (tracked(o)) {
        if (chunk && n > chunk) n = chunk;
        ASK("write", names[o], "copy", n, o);
    }
    return real(i, oi, o, oo, n, f);
}

#define TRUNC(NAME, T) \
int NAME(int fd, T n) \
{ \
    REAL(int, #NAME, int, T); \
    if (tracked(fd)) ASK("ftruncate", names[fd], "", n, fd); \
    return real(fd, n); \
}
TRUNC(ftruncate, off_t)
TRUNC(ftruncate64, off64_t)

int truncate(const char *p, off_t n)
{
    REAL(int, "truncate", const char *, off_t);
    if (under(p)) ASK("other", p, "truncate", n, -1);
    return real(p, n);
}

int close(int fd)
{
    REAL(int, "close", int);
    if (tracked(fd)) {
        char *n = names[fd];
        int e = ask("close", n, "", 0, fd);
        names[fd] = 0;
        free(n);
        if (e < 0) { kill(getpid(), SIGKILL); for (;;) pause(); }
        if (e > 0) { real(fd); errno = e; return -1; }
    }
    return real(fd);
}

int rename(const char *a, const char *b)
{
    REAL(int, "rename", const char *, const char *);
    if (under(a) || under(b)) ASK("rename", a, b, 0, -1);
    return real(a, b);
}

int renameat(int x, const char *a, int y, const char *b)
{
    REAL(int, "renameat", int, const char *, int, const char *);
    if (under(a) || under(b)) ASK("rename", a, b, 0, -1);
    return real(x, a, y, b);
}

int renameat2(int x, const char *a, int y, const char *b, unsigned f)
{
    REAL(int, "renameat2", int, const char *, int, const char *, unsigned);
    if (under(a) || under(b)) ASK(f ? "other" : "rename", a, b, 0, -1);
    return real(x, a, y, b, f);
}

int link(const char *a, const char *b)
{
    REAL(int, "link", const char *, const char *);
    if (under(a) || under(b)) ASK("other", a, b, 0, -1);
    return real(a, b);
}

int unlink(const char *a)
{
    REAL(int, "unlink", const char *);
    if (under(a)) ASK("unlink", a, "", 0, -1);
    return real(a);
}

int unlinkat(int d, const char *a, int f)
{
    REAL(int, "unlinkat", int, const char *, int);
    if (under(a)) ASK("unlink", a, "", 0, -1);
    return real(d, a, f);
}

int fsync(int fd)
{
    REAL(int, "fsync", int);
    if (tracked(fd)) ASK("fsync", names[fd], "", 0, fd);
    return real(fd);
}

int fdatasync(int fd)
{
    REAL(int, "fdatasync", int);
    if (tracked(fd)) ASK("fsync", names[fd], "", 0, fd);
    return real(fd);
}

int mkdir(const char *p, mode_t m)
{
    REAL(int, "mkdir", const char *, mode_t);
    if (under(p)) ASK("mkdir", p, "", 0, -1);
    return real(p, m);
}

int chmod(const char *p, mode_t m)
{
    REAL(int, "chmod", const char *, mode_t);
    if (under(p)) ASK("attr", p, "", 0, -1);
    return real(p, m);
}

int fchmod(int fd, mode_t m)
{
    REAL(int, "fchmod", int, mode_t);
    if (tracked(fd)) ASK("attr", names[fd], "", 0, fd);
    return real(fd, m);
}
