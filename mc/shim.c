/* Fault injector for file operations below one directory (LD_PRELOAD). Armed from Python through ctypes.
   Every intercepted call on a path below the directory, or on a descriptor opened below it, is one step. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF, COUNT, CRASH_BEFORE, CRASH_AFTER, TORN_CRASH, FAIL_ONCE, FAIL_ON, TORN_FAIL, SIGNAL, GATE };

static char dir[4096];
static size_t dirlen;
static int mode, at, arg, err, steps, tripped;
static pid_t armed_pid;
static int gate_fd;
static char kinds[65536];
static unsigned char ours[65536];

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

static int below(int dfd, const char *p) {
    char buf[8192], cwd[4096];
    if (!mode || !p) return 0;
    if (p[0] != '/') {
        if (dfd != AT_FDCWD) return 0;
        if (!getcwd(cwd, sizeof cwd)) return 0;
        snprintf(buf, sizeof buf, "%s/%s", cwd, p);
        p = buf;
    }
    return !strncmp(p, dir, dirlen) && (p[dirlen] == '/' || !p[dirlen]);
}
static int mine(int fd) { return mode && fd >= 0 && fd < 65536 && ours[fd]; }

/* ask the controller for leave to go on: a length-prefixed two-byte message out, one byte back */
static void gate(char kind) {
    static ssize_t (*w)(int, const void *, size_t), (*r)(int, void *, size_t);
    char m[6] = {2, 0, 0, 0, 'F', kind}, b;
    if (getpid() != armed_pid) return;
    if (!w) { w = dlsym(RTLD_NEXT, "write"); r = dlsym(RTLD_NEXT, "read"); }
    if (w(gate_fd, m, 6) != 6) _exit(78);
    if (r(gate_fd, &b, 1) != 1) _exit(78);
}

/* one step; returns 0 to go on, 1 to fail with errno set, 2 for a torn transfer, 3 crash after */
static int step(char kind) {
    int k = steps++;
    if (k < (int)sizeof kinds) kinds[k] = kind;
    if (mode == FAIL_ON && k >= at && (kind == 'w' || kind == 'c' || kind == 't' || kind == 'o')) { errno = err; tripped = 1; return 1; }
    if (mode == TORN_FAIL && tripped && kind == 'w') { errno = err; return 1; }
    if (mode == GATE) { gate(kind); return 0; }
    if (k != at) return 0;
    switch (mode) {
    case CRASH_BEFORE: _exit(77);
    case CRASH_AFTER: return 3;
    case TORN_CRASH: return 2;
    case FAIL_ONCE: errno = err; tripped = 1; return 1;
    case TORN_FAIL: tripped = 1; return 2;
    case SIGNAL: raise(arg); return 0;
    }
    return 0;
}
static size_t torn(size_t n) {
    size_t m = arg == 0 ? 0 : arg == 1 ? 1 : arg == 2 ? n / 2 : n ? n - 1 : 0;
    return m < n ? m : n;
}

void mc_arm(const char *d, int m, int k, int a, int e) {
    strncpy(dir, d, sizeof dir - 1); dirlen = strlen(dir);
    steps = 0; tripped = 0; armed_pid = getpid(); gate_fd = a; at = k; arg = a; err = e; mode = m;
}
int mc_steps(void) { return steps; }
int mc_kind(int k) { return kinds[k]; }

#define OPEN(fn) \
int fn(const char *p, int fl, ...) { \
    va_list ap; mode_t md = 0; int r, s = 0; \
    REAL(int, #fn, const char *, int, ...); \
    if (fl & (O_CREAT | O_TMPFILE)) { va_start(ap, fl); md = va_arg(ap, mode_t); va_end(ap); } \
    int b = below(AT_FDCWD, p); \
    if (b && (s = step((fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) ? 'o' : 'O')) == 1) return -1; \
    r = real(p, fl, md); \
    if (r >= 0 && r < 65536) ours[r] = b; \
    if (s >= 2) _exit(77); \
    return r; }
OPEN(open)
OPEN(open64)
#define OPENAT(fn) \
int fn(int d, const char *p, int fl, ...) { \
    va_list ap; mode_t md = 0; int r, s = 0; \
    REAL(int, #fn, int, const char *, int, ...); \
    if (fl & (O_CREAT | O_TMPFILE)) { va_start(ap, fl); md = va_arg(ap, mode_t); va_end(ap); } \
    int b = below(d, p); \
    if (b && (s = step((fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) ? 'o' : 'O')) == 1) return -1; \
    r = real(d, p, fl, md); \
    if (r >= 0 && r < 65536) ours[r] = b; \
    if (s >= 2) _exit(77); \
    return r; }
OPENAT(openat)
OPENAT(openat64)

FILE *fopen(const char *p, const char *m) {
    REAL(FILE *, "fopen", const char *, const char *);
    int s = 0;
    if (below(AT_FDCWD, p) && (s = step(m[0] == 'r' ? 'O' : 'o')) == 1) return NULL;
    FILE *f = real(p, m);
    if (s >= 2) _exit(77);
    return f;
}
FILE *fopen64(const char *p, const char *m) {
    REAL(FILE *, "fopen64", const char *, const char *);
    int s = 0;
    if (below(AT_FDCWD, p) && (s = step(m[0] == 'r' ? 'O' : 'o')) == 1) return NULL;
    FILE *f = real(p, m);
    if (s >= 2) _exit(77);
    return f;
}

#define WRITE(fn, PROTO, ARGS, N) \
ssize_t fn PROTO { \
    REAL(ssize_t, #fn, PROTO_##fn); \
    int s = 0; \
    if (mine(fd) && (s = step('w')) == 1) return -1; \
    if (s == 2) { size_t n0 = n; n = torn(n0); ssize_t r = n ? real ARGS : 0; \
        if (mode == TORN_CRASH) _exit(77); \
        if (!n) { errno = err; return -1; } return r; } \
    ssize_t r = real ARGS; \
    if (s == 3) _exit(77); \
    return r; }
#define PROTO_write int, const void *, size_t
#define PROTO_pwrite int, const void *, size_t, off_t
#define PROTO_pwrite64 int, const void *, size_t, off_t
#define PROTO_sendfile int, int, off_t *, size_t
#define PROTO_sendfile64 int, int, off_t *, size_t
#define PROTO_copy_file_range int, off_t *, int, off_t *, size_t, unsigned
WRITE(write, (int fd, const void *b, size_t n), (fd, b, n), 0)
WRITE(pwrite, (int fd, const void *b, size_t n, off_t o), (fd, b, n, o), 0)
WRITE(pwrite64, (int fd, const void *b, size_t n, off_t o), (fd, b, n, o), 0)
WRITE(sendfile, (int fd, int in, off_t *o, size_t n), (fd, in, o, n), 0)
WRITE(sendfile64, (int fd, int in, off_t *o, size_t n), (fd, in, o, n), 0)
ssize_t copy_file_range(int in, off_t *oi, int fd, off_t *oo, size_t n, unsigned fl) {
    REAL(ssize_t, "copy_file_range", int, off_t *, int, off_t *, size_t, unsigned);
    int s = 0;
    if (mine(fd) && (s = step('w')) == 1) return -1;
    if (s == 2) { n = torn(n); ssize_t r = n ? real(in, oi, fd, oo, n, fl) : 0;
        if (mode == TORN_CRASH) _exit(77);
        if (!n) { errno = err; return -1; } return r; }
    ssize_t r = real(in, oi, fd, oo, n, fl);
    if (s == 3) _exit(77);
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    int s = 0;
    if (mine(fd) && (s = step('w')) == 1) return -1;
    if (s == 2) { if (mode == TORN_CRASH) _exit(77); errno = err; return -1; }
    ssize_t r = real(fd, v, c);
    if (s == 3) _exit(77);
    return r;
}

/* calls without a transfer: a torn one is one that does not happen */
#define SIMPLE(ret, name, PROTO, TYPES, ARGS, COND, KIND, EXTRA) \
ret name PROTO { \
    static ret (*real) TYPES; if (!real) real = dlsym(RTLD_NEXT, #name); \
    int s = 0; \
    if (COND) { s = step(KIND); \
        if (s == 1) { int e = errno; EXTRA; errno = e; return -1; } \
        if (s == 2) { if (mode == TORN_CRASH) _exit(77); EXTRA; errno = err; return -1; } } \
    ret r = real ARGS; \
    if (s == 3) _exit(77); \
    return r; }
SIMPLE(ssize_t, read, (int fd, void *b, size_t n), (int, void *, size_t), (fd, b, n), mine(fd), 'r', (void)0)
SIMPLE(ssize_t, pread64, (int fd, void *b, size_t n, off_t o), (int, void *, size_t, off_t), (fd, b, n, o), mine(fd), 'r', (void)0)
SIMPLE(int, ftruncate, (int fd, off_t n), (int, off_t), (fd, n), mine(fd), 't', (void)0)
SIMPLE(int, ftruncate64, (int fd, off_t n), (int, off_t), (fd, n), mine(fd), 't', (void)0)
SIMPLE(int, truncate, (const char *p, off_t n), (const char *, off_t), (p, n), below(AT_FDCWD, p), 't', (void)0)
SIMPLE(int, truncate64, (const char *p, off_t n), (const char *, off_t), (p, n), below(AT_FDCWD, p), 't', (void)0)
SIMPLE(int, fsync, (int fd), (int), (fd), mine(fd), 'f', (void)0)
SIMPLE(int, fdatasync, (int fd), (int), (fd), mine(fd), 'f', (void)0)
SIMPLE(int, rename, (const char *a, const char *b), (const char *, const char *), (a, b), below(AT_FDCWD, b), 'm', (void)0)
SIMPLE(int, renameat, (int d, const char *a, int e, const char *b), (int, const char *, int, const char *), (d, a, e, b), below(e, b), 'm', (void)0)
SIMPLE(int, link, (const char *a, const char *b), (const char *, const char *), (a, b), below(AT_FDCWD, b), 'm', (void)0)
SIMPLE(int, linkat, (int d, const char *a, int e, const char *b, int f), (int, const char *, int, const char *, int), (d, a, e, b, f), below(e, b), 'm', (void)0)
SIMPLE(int, unlink, (const char *a), (const char *), (a), below(AT_FDCWD, a), 'u', (void)0)
SIMPLE(int, unlinkat, (int d, const char *a, int f), (int, const char *, int), (d, a, f), below(d, a), 'u', (void)0)

int close(int fd) {
    static int (*real)(int); if (!real) real = dlsym(RTLD_NEXT, "close");
    int s = 0;
    if (mine(fd)) { s = step('c'); if (fd < 65536) ours[fd] = 0; }
    if (s == 1) { int e = errno; real(fd); errno = e; return -1; }
    if (s == 2) { if (mode == TORN_CRASH) _exit(77); real(fd); errno = err; return -1; }
    int r = real(fd);
    if (s == 3) _exit(77);
    return r;
}
