/* Preloaded library: numbers the file operations of a process under one
   directory and makes chosen ones fail.
   PBF_ROOT  operations on paths below it are numbered
   PBF_PLAN  "<number>:<fault>,..." with the faults below
   PBF_LOG   file that gets one line per operation: number, operation, path, outcome */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define NFD 1024
static char *names[NFD];
static char writable[NFD];
static int count;
static int logfd = -1;

static const struct { const char *name; int err; } errs[] = {
    {"ENOSPC", ENOSPC}, {"EIO", EIO}, {"EACCES", EACCES}, {"ENOENT", ENOENT}, {"EROFS", EROFS}, {"EMFILE", EMFILE},
    {"EISDIR", EISDIR}, {"EINTR", EINTR}, {"EDQUOT", EDQUOT}, {"EEXIST", EEXIST}, {"ENOMEM", ENOMEM}, {"EFBIG", EFBIG}, {"EPERM", EPERM},
    {"ENOTDIR", ENOTDIR}, {"ELOOP", ELOOP}, {"EBADF", EBADF}, {"ETXTBSY", ETXTBSY}, {"ENAMETOOLONG", ENAMETOOLONG}, {NULL, 0}};

#define REAL(t, f, ...) ((t (*)(__VA_ARGS__))dlsym(RTLD_NEXT, f))

static const char *under(int dirfd, const char *p, char *buf)
{
    const char *root = getenv("PBF_ROOT");
    if (!root || !p) return NULL;
    if (p[0] != '/') {
        if (dirfd != AT_FDCWD) {
            if (dirfd < 0 || dirfd >= NFD || !names[dirfd]) return NULL;
            snprintf(buf, PATH_MAX, "%s/%s", names[dirfd], p);
        } else {
            char c[PATH_MAX];
            if (!getcwd(c, sizeof(c))) return NULL;
            snprintf(buf, PATH_MAX, "%s/%s", c, p);
        }
    } else {
        snprintf(buf, PATH_MAX, "%s", p);
    }
    if (strncmp(buf, root, strlen(root))) return NULL;
    return buf + strlen(root);
}

/* The fault for this operation: 0 none, > 0 errno, -1 short. */
static int next(const char *op, const char *path)
{
    char line[PATH_MAX + 100], key[16];
    const char *plan = getenv("PBF_PLAN"), *p;
    int fault = 0, n = ++count, i;
    const char *what = "-";
    snprintf(key, sizeof(key), "%d:", n);
    for (p = plan; p && *p; p = strchr(p, ',') ? strchr(p, ',') + 1 : NULL)
        if (!strncmp(p, key, strlen(key))) {
            const char *f = p + strlen(key);
            for (i = 0; errs[i].name; i++)
                if (!strncmp(f, errs[i].name, strlen(errs[i].name))) { fault = errs[i].err; what = errs[i].name; }
            if (!strncmp(f, "SHORT", 5)) { fault = -1; what = "SHORT"; }
            if (!strncmp(f, "KILL", 4)) { fault = -2; what = "KILL"; }
        }
    if (logfd < 0) logfd = (int)syscall(SYS_openat, AT_FDCWD, getenv("PBF_LOG"), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    snprintf(line, sizeof(line), "%d\t%s\t%s\t%s\n", n, op, path, what);
    if (syscall(SYS_write, logfd, line, strlen(line)) < 0) _exit(99);
    if (fault == -2) { kill(getpid(), SIGKILL); for (;;) pause(); }
    return fault;
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    char b[PATH_MAX];
    const char *r = under(dirfd, path, b);
    int fd, f;
    int wr = (flags & O_ACCMODE) != O_RDONLY;
    if (r && (f = next(wr ? "openw" : (flags & O_DIRECTORY) ? "opendir" : "open", r)) > 0) { errno = f; return -1; }
    fd = (int)syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && fd < NFD) {
        free(names[fd]);
        names[fd] = NULL;
        if (r) { names[fd] = strdup(b); writable[fd] = (char)wr; }
    }
    return fd;
}

static const char *rel(int fd) { return names[fd] + strlen(getenv("PBF_ROOT")); }
static int tracked(int fd) { return fd >= 0 && fd < NFD && names[fd]; }

#define OPEN(NAME, DIR, ARGS)                                   \
    { mode_t m = 0;                                             \
      if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
      return do_open(DIR, path, flags, m); }
int open(const char *path, int flags, ...) OPEN(open, AT_FDCWD, )
int open64(const char *path, int flags, ...) OPEN(open64, AT_FDCWD, )
int openat(int d, const char *path, int flags, ...) OPEN(openat, d, )
int openat64(int d, const char *path, int flags, ...) OPEN(openat64, d, )
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

ssize_t read(int fd, void *buf, size_t n)
{
    if (tracked(fd)) {
        int f = next("read", rel(fd));
        if (f > 0) { errno = f; return -1; }
        if (f == -1 && n > 1) n = 1;
    }
    return syscall(SYS_read, fd, buf, n);
}

ssize_t pread64(int fd, void *buf, size_t n, off_t o)
{
    if (tracked(fd)) {
        int f = next("read", rel(fd));
        if (f > 0) { errno = f; return -1; }
    }
    return syscall(SYS_pread64, fd, buf, n, o);
}

ssize_t write(int fd, const void *buf, size_t n)
{
    if (tracked(fd)) {
        int f = next("write", rel(fd));
        if (f > 0) { errno = f; return -1; }
        if (f == -1 && n > 1) n = n / 2;
    }
    return syscall(SYS_write, fd, buf, n);
}

ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (tracked(fd)) {
        int f = next("write", rel(fd));
        if (f > 0) { errno = f; return -1; }
    }
    return syscall(SYS_writev, fd, v, c);
}

ssize_t pwrite64(int fd, const void *buf, size_t n, off_t o)
{
    if (tracked(fd)) {
        int f = next("write", rel(fd));
        if (f > 0) { errno = f; return -1; }
    }
    return syscall(SYS_pwrite64, fd, buf, n, o);
}

int close(int fd)
{
    int f = 0;
    if (tracked(fd)) {
        f = next(writable[fd] ? "closew" : "close", rel(fd));
        free(names[fd]);
        names[fd] = NULL;
    }
    if (syscall(SYS_close, fd) < 0) return -1;
    if (f > 0) { errno = f; return -1; }
    return 0;
}

int fsync(int fd)
{
    int f;
    if (tracked(fd) && (f = next("fsync", rel(fd))) > 0) { errno = f; return -1; }
    return (int)syscall(SYS_fsync, fd);
}

int ftruncate64(int fd, off_t n)
{
    int f;
    if (tracked(fd) && (f = next("truncate", rel(fd))) > 0) { errno = f; return -1; }
    return (int)syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }

int mkdirat(int d, const char *path, mode_t m)
{
    char b[PATH_MAX];
    const char *r = under(d, path, b);
    struct stat st;
    int f;
    if (r && (f = next(fstatat(d, path, &st, 0) == 0 && S_ISDIR(st.st_mode) ? "mkdir existing" : "mkdir", r)) > 0) { errno = f; return -1; }
    return (int)syscall(SYS_mkdirat, d, path, m);
}
int mkdir(const char *path, mode_t m) { return mkdirat(AT_FDCWD, path, m); }

int renameat2(int a, const char *from, int b, const char *to, unsigned flags)
{
    char buf[PATH_MAX];
    const char *r = under(b, to, buf);
    int f;
    if (r && (f = next("rename", r)) > 0) { errno = f; return -1; }
    return (int)syscall(SYS_renameat2, a, from, b, to, flags);
}
int renameat(int a, const char *from, int b, const char *to) { return renameat2(a, from, b, to, 0); }
int rename(const char *from, const char *to) { return renameat2(AT_FDCWD, from, AT_FDCWD, to, 0); }

int unlinkat(int d, const char *path, int flags)
{
    char b[PATH_MAX];
    const char *r = under(d, path, b);
    int f;
    if (r && (f = next("unlink", r)) > 0) { errno = f; return -1; }
    return (int)syscall(SYS_unlinkat, d, path, flags);
}
int unlink(const char *path) { return unlinkat(AT_FDCWD, path, 0); }
