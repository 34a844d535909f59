/* Kills the process (as SIGKILL would) at the n-th operation that changes the
 * file system.  Loaded with LD_PRELOAD, armed through cr_arm().
 * mode 0: before the operation; mode 1: a write is done by half first. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static volatile long left = -1;
static volatile long count = 0;
static int mode = 0;
static int logfd = -1;

void cr_arm(long n, int m, int fd) { mode = m; logfd = fd; count = 0; left = n; }
long cr_count(void) { return count; }

typedef ssize_t (*write_t)(int, const void *, size_t);
typedef ssize_t (*pwrite_t)(int, const void *, size_t, off64_t);
#define REAL(name, type) ((type)dlsym(RTLD_NEXT, name))

static int due(void) {
    if (left < 0) return 0;
    __sync_fetch_and_add(&count, 1);
    return __sync_sub_and_fetch(&left, 1) == 0;
}

static void die(void) {
    static const char msg[] = "{\"e\":\"crash\"}\n";
    if (logfd >= 0) REAL("write", write_t)(logfd, msg, sizeof msg - 1);
    _exit(77);
}

static void point(void) { if (due()) die(); }

ssize_t write(int fd, const void *b, size_t n) {
    write_t r = REAL("write", write_t);
    if (left >= 0 && fd != logfd && fd > 2 && due()) {
        if (mode == 1 && n > 1) r(fd, b, n / 2);
        die();
    }
    return r(fd, b, n);
}
static ssize_t pw(const char *name, int fd, const void *b, size_t n, off64_t o) {
    pwrite_t r = REAL(name, pwrite_t);
    if (left >= 0 && fd != logfd && due()) {
        if (mode == 1 && n > 1) r(fd, b, n / 2, o);
        die();
    }
    return r(fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pw("pwrite64", fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pw("pwrite64", fd, b, n, o); }

#define OPEN(name) \
int name(const char *p, int f, ...) { \
    va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); \
    if (f & (O_CREAT | O_TRUNC)) point(); \
    return REAL(#name, int (*)(const char *, int, ...))(p, f, m); }
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
int name(int d, const char *p, int f, ...) { \
    va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); \
    if (f & (O_CREAT | O_TRUNC)) point(); \
    return REAL(#name, int (*)(int, const char *, int, ...))(d, p, f, m); }
OPENAT(openat)
OPENAT(openat64)

int rename(const char *a, const char *b) { point(); return REAL("rename", int (*)(const char *, const char *))(a, b); }
int renameat(int d, const char *a, int e, const char *b) { point(); return REAL("renameat", int (*)(int, const char *, int, const char *))(d, a, e, b); }
int link(const char *a, const char *b) { point(); return REAL("link", int (*)(const char *, const char *))(a, b); }
int unlink(const char *a) { point(); return REAL("unlink", int (*)(const char *))(a); }
int unlinkat(int d, const char *a, int f) { point(); return REAL("unlinkat", int (*)(int, const char *, int))(d, a, f); }
int remove(const char *a) { point(); return REAL("remove", int (*)(const char *))(a); }
int rmdir(const char *a) { point(); return REAL("rmdir", int (*)(const char *))(a); }
int mkdir(const char *a, mode_t m) { point(); return REAL("mkdir", int (*)(const char *, mode_t))(a, m); }
int ftruncate(int fd, off_t n) { point(); return REAL("ftruncate", int (*)(int, off_t))(fd, n); }
int ftruncate64(int fd, off64_t n) { point(); return REAL("ftruncate64", int (*)(int, off64_t))(fd, n); }
int truncate(const char *p, off_t n) { point(); return REAL("truncate", int (*)(const char *, off_t))(p, n); }
int fsync(int fd) { point(); return REAL("fsync", int (*)(int))(fd); }
int fdatasync(int fd) { point(); return REAL("fdatasync", int (*)(int))(fd); }
