/* preloaded: the system calls that open and read files below one directory can be made to fail or to return less than was asked */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>

static char dir[512];
static int armed, ours[4096];
static long long opens, reads, fired, open_at, open_errno, read_at, read_errno, short_max, persist;

void iofault_dir(const char *d) { strncpy(dir, d, sizeof dir - 1); }
/* oat-th open fails with oerr, rat-th read fails with rerr (and every later one when p), reads return at most smax bytes */
void iofault_arm(long long oat, long long oerr, long long rat, long long rerr, long long p, long long smax)
{ opens = reads = fired = 0; open_at = oat; open_errno = oerr; read_at = rat; read_errno = rerr; persist = p; short_max = smax; armed = 1; memset(ours, 0, sizeof ours); }
long long iofault_disarm(long long *o, long long *r) { armed = 0; *o = opens; *r = reads; return fired; }

static int mine(const char *path)
{
    char buf[1024];
    if (!armed || !path || !dir[0]) return 0;
    if (path[0] != '/') { if (!getcwd(buf, sizeof buf - 1)) return 0; strncat(buf, "/", sizeof buf - strlen(buf) - 1); strncat(buf, path, sizeof buf - strlen(buf) - 1); path = buf; }
    return strncmp(path, dir, strlen(dir)) == 0;
}
static int refuse(void)
{
    opens++;
    if (open_at && (opens == open_at || (persist && opens > open_at))) { fired++; errno = (int)open_errno; return 1; }
    return 0;
}
#define OPENFN(name) \
int name(const char *path, int flags, ...) { \
    static int (*real)(const char *, int, ...); mode_t m = 0; int fd, us = mine(path); va_list ap; \
    if (!real) real = dlsym(RTLD_NEXT, #name); \
    if (flags & (O_CREAT | O_TMPFILE)) { va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    if (us && refuse()) return -1; \
    fd = real(path, flags, m); \
    if (fd >= 0 && fd < 4096) ours[fd] = us; \
    return fd; }
OPENFN(open)
OPENFN(open64)
#define OPENATFN(name) \
int name(int d, const char *path, int flags, ...) { \
    static int (*real)(int, const char *, int, ...); mode_t m = 0; int fd, us = mine(path); va_list ap; \
    if (!real) real = dlsym(RTLD_NEXT, #name); \
    if (flags & (O_CREAT | O_TMPFILE)) { va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    if (us && refuse()) return -1; \
    fd = real(d, path, flags, m); \
    if (fd >= 0 && fd < 4096) ours[fd] = us; \
    return fd; }
OPENATFN(openat)
OPENATFN(openat64)
ssize_t read(int fd, void *buf, size_t n)
{
    static ssize_t (*real)(int, void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "read");
    if (armed && fd >= 0 && fd < 4096 && ours[fd]) {
        reads++;
        if (read_at && (reads == read_at || (persist && reads > read_at))) { fired++; errno = (int)read_errno; return -1; }
        if (short_max > 0 && n > (size_t)short_max) { n = short_max; fired++; }
    }
    return real(fd, buf, n);
}
