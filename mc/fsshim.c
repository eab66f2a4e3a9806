/* Interposes the file-system calls of libc (LD_PRELOAD).  Counts the modifying calls below a root directory and, at a chosen
   one, ends the process, tears a write or fails it.  Armed only inside the child process of an experiment. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { COUNT, KILL_BEFORE, KILL_TORN, FAIL_ONCE, FAIL_FROM };
#define MAXFD 4096
#define MAXOPS 100000
static char root[4096];
static int armed, mode, at, nops, error_no;
static long torn;
static char tracked[MAXFD];
static char kinds[MAXOPS];
static long sizes[MAXOPS];

void shim_arm(const char *r, int m, int k, long t, int e) {
    strncpy(root, r, sizeof root - 1); mode = m; at = k; torn = t; error_no = e; nops = 0; armed = 1;
    memset(tracked, 0, sizeof tracked);
}
void shim_disarm(void) { armed = 0; }
int shim_count(void) { return nops; }
int shim_kind(int i) { return kinds[i]; }
long shim_size(int i) { return sizes[i]; }

static int below(const char *path) {
    char buf[8192];
    if (!armed || !path) return 0;
    if (path[0] != '/') {
        int a = armed; armed = 0;
        char *ok = getcwd(buf, 4096);
        armed = a;
        if (!ok) return 0;
    } else { strncpy(buf, path, sizeof buf - 1); buf[sizeof buf - 1] = 0; }
    return strncmp(buf, root, strlen(root)) == 0;
}
static int below_at(int fd, const char *path) { return (fd == AT_FDCWD || (path && path[0] == '/')) ? below(path) : armed; }

/* returns 1 if the operation has to fail */
static int op(char kind, long size) {
    int i = nops++;
    if (i < MAXOPS) { kinds[i] = kind; sizes[i] = size; }
    if (mode == KILL_BEFORE && i == at) _exit(77);
    if ((mode == FAIL_ONCE && i == at) || (mode == FAIL_FROM && i >= at)) { errno = error_no; return 1; }
    return 0;
}
static int tear_here(void) { return mode == KILL_TORN && nops - 1 == at; }

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)
#define WRFLAGS(f) (((f) & O_CREAT) || ((f) & O_TRUNC) || ((f) & O_ACCMODE) != O_RDONLY)
static void track(int fd) { if (fd >= 0 && fd < MAXFD) tracked[fd] = 1; }
static int istracked(int fd) { return armed && fd >= 0 && fd < MAXFD && tracked[fd]; }

#define OPEN(NAME) int NAME(const char *p, int f, ...) { REAL(int, #NAME, const char *, int, ...); mode_t m = 0; va_list v; \
    if (f & O_CREAT || (f & O_TMPFILE) == O_TMPFILE) { va_start(v, f); m = va_arg(v, mode_t); va_end(v); } \
    if (WRFLAGS(f) && below(p)) { if (op('o', 0)) return -1; int fd = real(p, f, m); track(fd); return fd; } return real(p, f, m); }
OPEN(open) OPEN(open64)
#define OPENAT(NAME) int NAME(int d, const char *p, int f, ...) { REAL(int, #NAME, int, const char *, int, ...); mode_t m = 0; va_list v; \
    if (f & O_CREAT || (f & O_TMPFILE) == O_TMPFILE) { va_start(v, f); m = va_arg(v, mode_t); va_end(v); } \
    if (WRFLAGS(f) && below_at(d, p)) { if (op('o', 0)) return -1; int fd = real(d, p, f, m); track(fd); return fd; } return real(d, p, f, m); }
OPENAT(openat) OPENAT(openat64)
#define CREAT(NAME) int NAME(const char *p, mode_t m) { REAL(int, #NAME, const char *, mode_t); \
    if (below(p)) { if (op('o', 0)) return -1; int fd = real(p, m); track(fd); return fd; } return real(p, m); }
CREAT(creat) CREAT(creat64)
int close(int fd) { REAL(int, "close", int); if (fd >= 0 && fd < MAXFD) tracked[fd] = 0; return real(fd); }
int dup(int fd) { REAL(int, "dup", int); int r = real(fd); if (istracked(fd)) track(r); return r; }
int dup2(int fd, int g) { REAL(int, "dup2", int, int); int r = real(fd, g); if (istracked(fd)) track(r); else if (r >= 0 && r < MAXFD) tracked[r] = 0; return r; }

ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, "write", int, const void *, size_t);
    if (istracked(fd)) { if (op('w', n)) return -1; if (tear_here()) { real(fd, b, (size_t)torn < n ? (size_t)torn : n); _exit(77); } }
    return real(fd, b, n); }
#define PWRITE(NAME, T) ssize_t NAME(int fd, const void *b, size_t n, T o) { REAL(ssize_t, #NAME, int, const void *, size_t, T); \
    if (istracked(fd)) { if (op('w', n)) return -1; if (tear_here()) { real(fd, b, (size_t)torn < n ? (size_t)torn : n, o); _exit(77); } } \
    return real(fd, b, n, o); }
PWRITE(pwrite, off_t) PWRITE(pwrite64, off64_t)
ssize_t writev(int fd, const struct iovec *v, int n) { REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (istracked(fd)) { if (op('v', 0)) return -1; } return real(fd, v, n); }
#define SENDFILE(NAME, T) ssize_t NAME(int o, int i, T *off, size_t n) { REAL(ssize_t, #NAME, int, int, T *, size_t); \
    if (istracked(o)) { if (op('s', n)) return -1; if (tear_here()) { real(o, i, off, (size_t)torn < n ? (size_t)torn : n); _exit(77); } } return real(o, i, off, n); }
SENDFILE(sendfile, off_t) SENDFILE(sendfile64, off64_t)
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) { REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
    if (istracked(o)) { if (op('s', n)) return -1; if (tear_here()) { real(i, io, o, oo, (size_t)torn < n ? (size_t)torn : n, f); _exit(77); } } return real(i, io, o, oo, n, f); }
#define FTR(NAME, T) int NAME(int fd, T n) { REAL(int, #NAME, int, T); if (istracked(fd) && op('t', 0)) return -1; return real(fd, n); }
FTR(ftruncate, off_t) FTR(ftruncate64, off64_t)
#define TR(NAME, T) int NAME(const char *p, T n) { REAL(int, #NAME, const char *, T); if (below(p) && op('t', 0)) return -1; return real(p, n); }
TR(truncate, off_t) TR(truncate64, off64_t)
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); if ((below(a) || below(b)) && op('r', 0)) return -1; return real(a, b); }
int renameat(int c, const char *a, int d, const char *b) { REAL(int, "renameat", int, const char *, int, const char *);
    if ((below_at(c, a) || below_at(d, b)) && op('r', 0)) return -1; return real(c, a, d, b); }
int renameat2(int c, const char *a, int d, const char *b, unsigned f) { REAL(int, "renameat2", int, const char *, int, const char *, unsigned);
    if ((below_at(c, a) || below_at(d, b)) && op('r', 0)) return -1; return real(c, a, d, b, f); }
int unlink(const char *p) { REAL(int, "unlink", const char *); if (below(p) && op('u', 0)) return -1; return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(int, "unlinkat", int, const char *, int); if (below_at(d, p) && op('u', 0)) return -1; return real(d, p, f); }
int rmdir(const char *p) { REAL(int, "rmdir", const char *); if (below(p) && op('d', 0)) return -1; return real(p); }
int mkdir(const char *p, mode_t m) { REAL(int, "mkdir", const char *, mode_t); if (below(p) && op('m', 0)) return -1; return real(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(int, "mkdirat", int, const char *, mode_t); if (below_at(d, p) && op('m', 0)) return -1; return real(d, p, m); }
int link(const char *a, const char *b) { REAL(int, "link", const char *, const char *); if (below(b) && op('l', 0)) return -1; return real(a, b); }
int symlink(const char *a, const char *b) { REAL(int, "symlink", const char *, const char *); if (below(b) && op('l', 0)) return -1; return real(a, b); }
