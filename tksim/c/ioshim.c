/* Preloaded into a tool: every input and output operation on a file below a
   scratch directory, or on stdin and stdout, is numbered and logged, and the
   plan of the run decides which of them fails and how.

   TKSIM_IO="root\nlog\nrule\nrule..."; rules:
     K errno N      operation K fails with errno N
     K short N      operation K (a read or write) transfers at most N bytes
     K kill 0       the process dies before operation K
     -1 full N      after N bytes, writing is like writing to a full disk  */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 1024
#define MAXRULE 16
static char root[PATH_MAX];
static int logfd = -1, ready, nrule, nop;
static long full = -1, written;
static struct { int k; char what; long n; } rules[MAXRULE];
static char names[MAXFD][64];

#define REAL(ret, name, args) \
    static ret (*real_##name) args; \
    if (!real_##name) real_##name = (ret (*) args) dlsym(RTLD_NEXT, #name)

static int r_open(const char *p, int fl, int mode) {
    REAL(int, open64, (const char *, int, ...));
    return real_open64(p, fl, mode);
}
static ssize_t r_write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, (int, const void *, size_t));
    return real_write(fd, b, n);
}

static void init(void) {
    char *e, *copy, *line, *save;
    int i = 0;
    if (ready) return;
    ready = 1;
    e = getenv("TKSIM_IO");
    if (!e) return;
    copy = strdup(e);
    for (line = strtok_r(copy, "\n", &save); line; line = strtok_r(NULL, "\n", &save), i++) {
        char what[16];
        int k; long n;
        if (i == 0) strncpy(root, line, sizeof root - 1);
        else if (i == 1) {
            REAL(int, close, (int));
            int fd = r_open(line, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
            logfd = fcntl(fd, F_DUPFD_CLOEXEC, 900);
            real_close(fd);
        }
        else if (nrule < MAXRULE && sscanf(line, "%d %15s %ld", &k, what, &n) == 3) {
            if (what[0] == 'f') full = n;
            else { rules[nrule].k = k; rules[nrule].what = what[0]; rules[nrule++].n = n; }
        }
    }
    free(copy);
    strcpy(names[0], "<stdin>");
    strcpy(names[1], "<stdout>");
}

static const char *below(const char *path) {
    static char abs[PATH_MAX * 2];
    size_t n = strlen(root);
    if (!n || !path) return NULL;
    if (path[0] != '/') {
        if (!getcwd(abs, PATH_MAX)) return NULL;
        strcat(abs, "/");
        strncat(abs, path, PATH_MAX - 1);
        path = abs;
    }
    if (strncmp(path, root, n) || path[n] != '/') {
        return strcmp(path, "/dev/full") ? NULL : path;
    }
    return path + n + 1;
}

static const char *fdname(int fd) {
    return logfd >= 0 && fd >= 0 && fd < MAXFD && fd != logfd && names[fd][0] ? names[fd] : NULL;
}

/* Number an operation; returns an errno or 0, and a limit of the size. */
static int op(const char *what, const char *name, size_t *size) {
    char line[256];
    int i, k = nop++, n, err = 0, saved = errno;
    const char *did = "";
    if (logfd < 0) return 0;
    for (i = 0; i < nrule; i++) {
        if (rules[i].k != k) continue;
        if (rules[i].what == 'e') { err = (int) rules[i].n; did = " failed"; }
        else if (rules[i].what == 's' && !err && size && (size_t) rules[i].n < *size) { *size = rules[i].n; did = " short"; }
        if (rules[i].what == 'k') did = " killed";
    }
    if (full >= 0 && size && strcmp(what, "read") && !err) {
        if (written >= full && *size) { err = ENOSPC; did = " full"; }
        else if (written + (long) *size > full) { *size = full - written; did = " short"; }
        if (!err) written += *size;
    }
    n = snprintf(line, sizeof line, "%d %s %s%s\n", k, what, name, did);
    r_write(logfd, line, n);
    if (!strcmp(did, " killed")) { kill(getpid(), SIGKILL); pause(); }
    errno = saved;
    return err;
}

static void forget(int fd) { if (fd >= 0 && fd < MAXFD) names[fd][0] = 0; }

static int do_open(const char *path, int flags, int mode, int at) {
    const char *name;
    int fd, err;
    init();
    name = logfd >= 0 ? below(path) : NULL;
    if (name && (err = op((flags & O_ACCMODE) == O_RDONLY ? "open" : "create", name, NULL))) { errno = err; return -1; }
    if (at == AT_FDCWD) fd = r_open(path, flags, mode);
    else {
        REAL(int, openat64, (int, const char *, int, ...));
        fd = real_openat64(at, path, flags, mode);
    }
    if (fd >= 0 && fd < MAXFD && fd != logfd) {
        forget(fd);
        if (name) { strncpy(names[fd], name, 63); names[fd][63] = 0; }
    }
    return fd;
}
#define MODE() int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { MODE() return do_open(path, flags, mode, AT_FDCWD); }
int open64(const char *path, int flags, ...) { MODE() return do_open(path, flags, mode, AT_FDCWD); }
int openat(int at, const char *path, int flags, ...) { MODE() return do_open(path, flags, mode, path[0] == '/' ? AT_FDCWD : at); }
int openat64(int at, const char *path, int flags, ...) { MODE() return do_open(path, flags, mode, path[0] == '/' ? AT_FDCWD : at); }
int __open_2(const char *path, int flags) { return do_open(path, flags, 0, AT_FDCWD); }
int __open64_2(const char *path, int flags) { return do_open(path, flags, 0, AT_FDCWD); }

ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, read, (int, void *, size_t));
    int err;
    init();
    if (fdname(fd) && (err = op("read", fdname(fd), &n))) { errno = err; return -1; }
    return real_read(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
    int err;
    init();
    if (fdname(fd) && (err = op("write", fdname(fd), &n))) { errno = err; return -1; }
    return r_write(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
    REAL(ssize_t, pwrite64, (int, const void *, size_t, off_t));
    int err;
    init();
    if (fdname(fd) && (err = op("write", fdname(fd), &n))) { errno = err; return -1; }
    return real_pwrite64(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, (int, const struct iovec *, int));
    init();
    if (fdname(fd) && c > 0) return write(fd, v[0].iov_base, v[0].iov_len);
    return real_writev(fd, v, c);
}
ssize_t sendfile64(int out, int in, off_t *o, size_t n) {
    REAL(ssize_t, sendfile64, (int, int, off_t *, size_t));
    int err;
    init();
    if (n > 4096) n = 4096;
    if (fdname(out) && (err = op("write", fdname(out), &n))) { errno = err; return -1; }
    return real_sendfile64(out, in, o, n);
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return sendfile64(out, in, o, n); }
ssize_t copy_file_range(int in, off_t *io, int out, off_t *oo, size_t n, unsigned fl) {
    REAL(ssize_t, copy_file_range, (int, off_t *, int, off_t *, size_t, unsigned));
    int err;
    init();
    if (fdname(out) && (err = op("write", fdname(out), &n))) { errno = err; return -1; }
    return real_copy_file_range(in, io, out, oo, n, fl);
}
int close(int fd) {
    REAL(int, close, (int));
    int err = 0;
    init();
    if (fdname(fd)) err = op("close", fdname(fd), NULL);
    if (fd == logfd && logfd >= 0) { errno = EBADF; return -1; }
    forget(fd);
    if (err) { real_close(fd); errno = err; return -1; }
    return real_close(fd);
}
#define SYNC(name) int name(int fd) { REAL(int, name, (int)); int err; init(); \
    if (fdname(fd) && (err = op("sync", fdname(fd), NULL))) { errno = err; return -1; } return real_##name(fd); }
SYNC(fsync)
SYNC(fdatasync)
int ftruncate64(int fd, off_t n) {
    REAL(int, ftruncate64, (int, off_t));
    int err;
    init();
    if (fdname(fd) && (err = op("truncate", fdname(fd), NULL))) { errno = err; return -1; }
    return real_ftruncate64(fd, n);
}
int rename(const char *a, const char *b) {
    REAL(int, rename, (const char *, const char *));
    int err;
    init();
    if (logfd >= 0 && below(b) && (err = op("rename", below(b), NULL))) { errno = err; return -1; }
    return real_rename(a, b);
}
int renameat(int x, const char *a, int y, const char *b) {
    REAL(int, renameat, (int, const char *, int, const char *));
    int err;
    init();
    if (logfd >= 0 && below(b) && (err = op("rename", below(b), NULL))) { errno = err; return -1; }
    return real_renameat(x, a, y, b);
}
int unlink(const char *p) {
    REAL(int, unlink, (const char *));
    int err;
    init();
    if (logfd >= 0 && below(p) && (err = op("unlink", below(p), NULL))) { errno = err; return -1; }
    return real_unlink(p);
}
