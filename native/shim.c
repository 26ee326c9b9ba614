/* LD_PRELOAD fault shim: counts, delays, fails or kills the process at the
 * k-th system call which touches a path containing a given substring (or a
 * descriptor opened through such a path).  Inactive until armed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

static char match[256];
static int armed, at, action, err, count, delay_us, persist, fired;
static unsigned rng;
static char trace[8192];
static unsigned char fds[65536];

enum { COUNT = 0, FAIL = 1, EXIT_BEFORE = 2, EXIT_AFTER = 3, TORN_EXIT = 4, DELAY = 5, SHORT_FAIL = 6, LOG = 7 };

void shim_arm(const char *m, int k, int act, int e, int delay, unsigned seed, int pers) {
    strncpy(match, m, sizeof match - 1);
    at = k; action = act; err = e; count = 0; delay_us = delay; rng = seed ? seed : 1; persist = pers;
    fired = 0; trace[0] = 0; armed = 1;
}
int shim_disarm(void) { armed = 0; return count; }
int shim_fired(void) { return fired; }
const char *shim_trace(void) { return trace; }

#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

static int hit_path(const char *p) { return armed && p && match[0] && strstr(p, match); }
static int hit_fd(int fd) { return armed && fd >= 0 && fd < (int)sizeof fds && fds[fd]; }

/* returns 1 if the call must fail (errno set) */
static int before(const char *op, int cleanup) {
    if (action == LOG) {   /* note attempts to open, and all which could change something */
        if (!strcmp(op, "open-r")) { count++; return 0; }
        if (!strcmp(op, "read") || !strcmp(op, "close")) return 0;
    }
    count++;
    if (strlen(trace) + strlen(op) + 2 < sizeof trace) { strcat(trace, op); strcat(trace, ","); }
    if (action == DELAY || delay_us) {
        rng = rng * 1103515245u + 12345u;
        if (delay_us) usleep((rng >> 8) % (unsigned)delay_us);
    }
    if (action == FAIL && (count == at || (persist && count > at && !cleanup))) { fired++; errno = err; return 1; }
    if (count == at && (action == EXIT_BEFORE)) _exit(77);
    return 0;
}
static void after(void) { if (count == at && (action == EXIT_AFTER || action == TORN_EXIT)) _exit(77); }

#define MARK(fd) do { if (fd >= 0 && fd < (int)sizeof fds) fds[fd] = 1; } while (0)

#define OPENLIKE(NAME) \
int NAME(const char *p, int fl, ...) { \
    mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
    REAL(NAME); \
    if (!hit_path(p)) return real(p, fl, m); \
    if (before((fl & O_ACCMODE) == O_RDONLY ? "open-r" : "open-w", 0)) return -1; \
    int r = real(p, fl, m); MARK(r); int e = errno; after(); errno = e; return r; }
OPENLIKE(open)
OPENLIKE(open64)

#define OPENATLIKE(NAME) \
int NAME(int d, const char *p, int fl, ...) { \
    mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
    REAL(NAME); \
    if (!hit_path(p)) return real(d, p, fl, m); \
    if (before((fl & O_ACCMODE) == O_RDONLY ? "open-r" : "open-w", 0)) return -1; \
    int r = real(d, p, fl, m); MARK(r); int e = errno; after(); errno = e; return r; }
OPENATLIKE(openat)
OPENATLIKE(openat64)

ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (!hit_fd(fd)) return real(fd, b, n);
    if (before("write", 0)) return -1;
    if (count == at && action == TORN_EXIT) { (void)!real(fd, b, n / 2); _exit(77); }
    if (action == SHORT_FAIL) {
        if (count == at && n > 1) { fired++; return real(fd, b, n / 2); }
        if (count > at && fired) { errno = err; return -1; }
    }
    ssize_t r = real(fd, b, n); int e = errno; after(); errno = e; return r;
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(read);
    if (!hit_fd(fd)) return real(fd, b, n);
    if (before("read", 0)) return -1;
    ssize_t r = real(fd, b, n); int e = errno; after(); errno = e; return r;
}
int close(int fd) {
    REAL(close);
    if (!hit_fd(fd)) { if (fd >= 0 && fd < (int)sizeof fds) fds[fd] = 0; return real(fd); }
    if (before("close", 1)) { fds[fd] = 0; real(fd); errno = err; return -1; }
    fds[fd] = 0;
    int r = real(fd); int e = errno; after(); errno = e; return r;
}
#define FD1(NAME, DECL, ARGS) int NAME DECL { REAL(NAME); if (!hit_fd(fd)) return real ARGS; if (before(#NAME, 0)) return -1; \
    int r = real ARGS; int e = errno; after(); errno = e; return r; }
FD1(fsync, (int fd), (fd))
FD1(fdatasync, (int fd), (fd))
FD1(ftruncate, (int fd, off_t l), (fd, l))
FD1(ftruncate64, (int fd, off64_t l), (fd, l))
FD1(fchmod, (int fd, mode_t m), (fd, m))

#define PATH2(NAME, DECL, COND, ARGS) int NAME DECL { REAL(NAME); if (!(COND)) return real ARGS; if (before("rename", 0)) return -1; \
    int r = real ARGS; int e = errno; after(); errno = e; return r; }
PATH2(rename, (const char *a, const char *b), hit_path(a) || hit_path(b), (a, b))
PATH2(renameat, (int d, const char *a, int f, const char *b), hit_path(a) || hit_path(b), (d, a, f, b))
PATH2(renameat2, (int d, const char *a, int f, const char *b, unsigned fl), hit_path(a) || hit_path(b), (d, a, f, b, fl))
PATH2(link, (const char *a, const char *b), hit_path(a) || hit_path(b), (a, b))

#define PATH1(NAME, DECL, ARGS, CLEAN) int NAME DECL { REAL(NAME); if (!hit_path(p)) return real ARGS; if (before(#NAME, CLEAN)) return -1; \
    int r = real ARGS; int e = errno; after(); errno = e; return r; }
PATH1(unlink, (const char *p), (p), 1)
PATH1(unlinkat, (int d, const char *p, int fl), (d, p, fl), 1)
PATH1(mkdir, (const char *p, mode_t m), (p, m), 0)
PATH1(chmod, (const char *p, mode_t m), (p, m), 0)
PATH1(truncate, (const char *p, off_t l), (p, l), 0)
