/* libc interposer for the model checker.
 *
 * Loaded with LD_PRELOAD and configured through the vd_* functions (ctypes). While unconfigured it passes everything
 * through. It
 *   - tracks registered files ("devices") by inode and logs every operation that reaches them,
 *   - makes a registered file look like a block device (fstat, no truncation, fixed capacity, exclusive open),
 *   - emulates sysfs attribute files and redirects path prefixes such as /sys/dev/block/ into a scratch directory,
 *   - answers FIEMAP, FIGETBSZ and SEEK_DATA/SEEK_HOLE from a layout given by the checker,
 *   - replaces the answer of the k-th operation on a device by an error, a short transfer or a signal.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/fiemap.h>
#include <linux/fs.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXDEV 32
#define MAXFD 4096
#define MAXLOG (1 << 17)
#define MAXFAULT 64
#define MAXREDIR 8
#define MAXEXT 20000

enum { K_REG = 0, K_BLK = 1, K_SCHED = 2, K_RATIO = 3, K_PROBE = 4 };
enum { OP_OPEN = 1, OP_CLOSE, OP_READ, OP_WRITE, OP_LSEEK, OP_FSYNC, OP_TRUNC, OP_IOCTL, OP_STAT, OP_OTHER };
enum { A_ERR = 1, A_SHORT = 2, A_SIGNAL = 3, A_SIGNAL_BEFORE = 4 };

struct logent { int op, dev, err, flags; long long off, len, res; };
struct fault { int dev, op, nth, action, arg, used; };
struct ext { unsigned long long log, len; unsigned flags, pad; };
struct dev {
    int used, kind, maj, min, busy, nops[16], known;
    dev_t d; ino_t i;
    char path[512];
    long long cap;
    char opts[256];
    /* layout simulation */
    int sim, fiemap_errno, figetbsz_errno, seek_mode, answer_cap, clip;
    long long bsz, simsize;
    int next, ndata;
    struct ext *exts, *data;
};

static struct dev devs[MAXDEV];
static short fdmap[MAXFD];
static int active;
static pid_t owner; /* the process the configuration is for: children between (v)fork and exec are left alone */
static struct logent *logbuf; /* shared with forked children */
static volatile int *nlogp;
static volatile int nlog0;
#define nlog (*nlogp)
static struct fault faults[MAXFAULT];
static int nfaults;
static struct { char from[256], to[512]; } redir[MAXREDIR];
static int nredir;
static char probe_dir[512];
static int probe_dev = -1;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__)
REAL(int, open64, const char *, int, ...);
REAL(int, openat64, int, const char *, int, ...);
REAL(int, close, int);
REAL(ssize_t, read, int, void *, size_t);
REAL(ssize_t, write, int, const void *, size_t);
REAL(ssize_t, pread64, int, void *, size_t, off64_t);
REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
REAL(ssize_t, writev, int, const struct iovec *, int);
REAL(ssize_t, pwritev64, int, const struct iovec *, int, off64_t);
REAL(ssize_t, readv, int, const struct iovec *, int);
REAL(off64_t, lseek64, int, off64_t, int);
REAL(int, fsync, int);
REAL(int, fdatasync, int);
REAL(int, ftruncate64, int, off64_t);
REAL(int, truncate64, const char *, off64_t);
REAL(int, fstat64, int, struct stat64 *);
REAL(int, stat64, const char *, struct stat64 *);
REAL(int, lstat64, const char *, struct stat64 *);
REAL(int, fstatat64, int, const char *, struct stat64 *, int);
REAL(int, access, const char *, int);
REAL(int, faccessat, int, const char *, int, int);
REAL(int, ioctl, int, unsigned long, ...);
REAL(int, dup, int);
REAL(int, dup2, int, int);
REAL(int, dup3, int, int, int);
REAL(int, fcntl64, int, int, ...);
REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
REAL(int, posix_fallocate64, int, off64_t, off64_t);
REAL(int, fallocate64, int, int, off64_t, off64_t);
REAL(int, syncfs, int);
REAL(void, sync, void);

static int inited;
#define MINE (active && getpid() == owner)
static void init(void)
{
    if (inited) return;
    nlogp = &nlog0;
#define L(n) real_##n = dlsym(RTLD_NEXT, #n)
    L(open64); L(openat64); L(close); L(read); L(write); L(pread64); L(pwrite64); L(writev); L(pwritev64); L(readv);
    L(lseek64); L(fsync); L(fdatasync); L(ftruncate64); L(truncate64); L(fstat64); L(stat64); L(lstat64); L(fstatat64);
    L(access); L(faccessat); L(ioctl); L(dup); L(dup2); L(dup3); L(fcntl64); L(copy_file_range); L(sendfile64);
    L(posix_fallocate64); L(fallocate64); L(syncfs); L(sync);
    for (int i = 0; i < MAXFD; i++) fdmap[i] = -1;
    inited = 1;
}
__attribute__((constructor)) static void ctor(void) { init(); }

static int fd_dev(int fd) { init(); return (fd >= 0 && fd < MAXFD && MINE) ? fdmap[fd] : -1; }

static int add_log(int op, int dev, long long off, long long len, long long res, int err, int flags)
{
    if (!logbuf) return -1;
    int i = __atomic_fetch_add(&nlog, 1, __ATOMIC_SEQ_CST);
    if (i >= MAXLOG) return -1;
    logbuf[i] = (struct logent){ .op = op, .dev = dev, .off = off, .len = len, .res = res, .err = err, .flags = flags };
    return i;
}

/* Count the operation and return the fault planned for it, if any. */
static struct fault *next_fault(int dev, int op)
{
    struct fault *hit = NULL;
    pthread_mutex_lock(&mu);
    int n = devs[dev].nops[op]++;
    for (int i = 0; i < nfaults; i++)
        if (faults[i].dev == dev && faults[i].op == op && faults[i].nth == n && !faults[i].used) {
            faults[i].used = 1;
            hit = &faults[i];
            break;
        }
    pthread_mutex_unlock(&mu);
    if (hit && hit->action == A_SIGNAL_BEFORE) raise(hit->arg);
    return hit;
}

static const char *redirect(const char *p, char *buf, size_t n)
{
    if (!active || !p) return p;
    for (int i = 0; i < nredir; i++) {
        size_t l = strlen(redir[i].from);
        if (!strncmp(p, redir[i].from, l)) {
            snprintf(buf, n, "%s%s", redir[i].to, p + l);
            return buf;
        }
    }
    return p;
}

static int dev_by_ino(const struct stat64 *st)
{
    for (int i = 0; i < MAXDEV; i++)
        if (devs[i].used && devs[i].known && devs[i].d == st->st_dev && devs[i].i == st->st_ino) return i;
    return -1;
}

static int dev_by_path(const char *p)
{
    struct stat64 st;
    for (int i = 0; i < MAXDEV; i++)
        if (devs[i].used && devs[i].path[0] && !strcmp(devs[i].path, p)) return i;
    if (real_stat64(p, &st) == 0) return dev_by_ino(&st);
    return -1;
}

static void fix_stat(struct stat64 *st)
{
    if (!active) return;
    int d = dev_by_ino(st);
    if (d >= 0 && devs[d].kind == K_BLK) {
        st->st_mode = S_IFBLK | 0660;
        st->st_rdev = makedev(devs[d].maj, devs[d].min);
        st->st_size = 0;
    }
}

static int do_open(int dirfd, const char *path0, int flags, mode_t mode, int at)
{
    char buf[1024];
    init();
    if (!MINE) return at ? real_openat64(dirfd, path0, flags, mode) : real_open64(path0, flags, mode);
    const char *path = redirect(path0, buf, sizeof buf);
    int d = -1;
    if (!at || dirfd == AT_FDCWD || path[0] == '/') {
        d = dev_by_path(path);
        if (d < 0 && probe_dev >= 0) {
            size_t l = strlen(probe_dir);
            if ((flags & O_TMPFILE) == O_TMPFILE && (!strcmp(path, probe_dir))) d = probe_dev;
            else if ((flags & O_CREAT) && (flags & O_EXCL) && !strncmp(path, probe_dir, l) && path[l] == '/' && !strchr(path + l + 1, '/')) d = probe_dev;
        }
    }
    if (d >= 0) {
        struct dev *v = &devs[d];
        struct fault *f = next_fault(d, OP_OPEN);
        if (f && f->action == A_ERR) { add_log(OP_OPEN, d, 0, 0, -1, f->arg, flags); errno = f->arg; return -1; }
        int fl = flags;
        if (v->kind == K_BLK) {
            if ((fl & O_EXCL) && !(fl & O_CREAT) && v->busy) { add_log(OP_OPEN, d, 0, 0, -1, EBUSY, flags); errno = EBUSY; return -1; }
            fl &= ~(O_TRUNC | O_CREAT | O_EXCL);
        } else if (v->kind == K_SCHED || v->kind == K_RATIO)
            fl &= ~(O_TRUNC | O_CREAT | O_EXCL);
        int fd = at ? real_openat64(dirfd, path, fl, mode) : real_open64(path, fl, mode);
        add_log(OP_OPEN, d, 0, 0, fd, fd < 0 ? errno : 0, flags);
        if (fd >= 0) {
            struct stat64 st;
            if (!v->known && v->kind != K_PROBE && real_fstat64(fd, &st) == 0) { v->d = st.st_dev; v->i = st.st_ino; v->known = 1; }
            if (fd < MAXFD) fdmap[fd] = d;
            if ((fl & O_TRUNC) && (v->kind == K_REG)) add_log(OP_TRUNC, d, 0, 0, 0, 0, 1);
        }
        if (f && f->action == A_SIGNAL) raise(f->arg);
        return fd;
    }
    int fd = at ? real_openat64(dirfd, path, flags, mode) : real_open64(path, flags, mode);
    if (fd >= 0 && fd < MAXFD) fdmap[fd] = -1;
    return fd;
}

int open64(const char *p, int flags, ...)
{
    mode_t m = 0;
    va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap);
    return do_open(AT_FDCWD, p, flags, m, 0);
}
int open(const char *p, int flags, ...)
{
    mode_t m = 0;
    va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap);
    return do_open(AT_FDCWD, p, flags, m, 0);
}
int openat64(int dfd, const char *p, int flags, ...)
{
    mode_t m = 0;
    va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap);
    return do_open(dfd, p, flags, m, 1);
}
int openat(int dfd, const char *p, int flags, ...)
{
    mode_t m = 0;
    va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap);
    return do_open(dfd, p, flags, m, 1);
}

int close(int fd)
{
    int d = fd_dev(fd);
    if (d >= 0) {
        struct fault *f = next_fault(d, OP_CLOSE);
        fdmap[fd] = -1;
        int r = real_close(fd);
        if (f && f->action == A_ERR) { add_log(OP_CLOSE, d, 0, 0, -1, f->arg, 0); errno = f->arg; return -1; }
        add_log(OP_CLOSE, d, 0, 0, r, 0, 0);
        if (f && f->action == A_SIGNAL) raise(f->arg);
        return r;
    }
    init();
    if (fd >= 0 && fd < MAXFD && MINE) fdmap[fd] = -1;
    return real_close(fd);
}

ssize_t read(int fd, void *b, size_t n)
{
    int d = fd_dev(fd);
    if (d < 0) return real_read(fd, b, n);
    struct fault *f = next_fault(d, OP_READ);
    long long off = real_lseek64(fd, 0, SEEK_CUR);
    if (f && f->action == A_ERR) { add_log(OP_READ, d, off, n, -1, f->arg, 0); errno = f->arg; return -1; }
    size_t m = n;
    if (f && f->action == A_SHORT && (size_t)f->arg < m) m = f->arg;
    ssize_t r = real_read(fd, b, m);
    int e = errno;
    add_log(OP_READ, d, off, n, r, r < 0 ? e : 0, 0);
    if (f && f->action == A_SIGNAL) raise(f->arg);
    errno = e;
    return r;
}

static ssize_t sysfs_write(struct dev *v, int fd, const char *b, size_t n)
{
    char val[128], out[512];
    size_t l = n < sizeof val - 1 ? n : sizeof val - 1;
    memcpy(val, b, l); val[l] = 0;
    while (l && (val[l - 1] == '\n' || val[l - 1] == ' ')) val[--l] = 0;
    out[0] = 0;
    if (v->kind == K_SCHED) {
        char opts[256], *save, *t; int found = 0;
        strcpy(opts, v->opts);
        for (t = strtok_r(opts, " ", &save); t; t = strtok_r(NULL, " ", &save)) {
            if (out[0]) strcat(out, " ");
            if (!strcmp(t, val)) { found = 1; strcat(out, "["); strcat(out, t); strcat(out, "]"); }
            else strcat(out, t);
        }
        if (!found || !l) { errno = EINVAL; return -1; }
    } else {
        char *end; long x = strtol(val, &end, 10);
        if (!l || *end || x < 0 || x > 100) { errno = EINVAL; return -1; }
        snprintf(out, sizeof out, "%ld", x);
    }
    strcat(out, "\n");
    if (real_ftruncate64(fd, 0) < 0) return -1;
    if (real_pwrite64(fd, out, strlen(out), 0) < 0) return -1;
    return n;
}

static ssize_t do_write(int fd, const void *b, size_t n, long long at)
{
    int d = fd_dev(fd);
    if (d < 0) return at < 0 ? real_write(fd, b, n) : real_pwrite64(fd, b, n, at);
    struct dev *v = &devs[d];
    struct fault *f = next_fault(d, OP_WRITE);
    long long off = at < 0 ? real_lseek64(fd, 0, SEEK_CUR) : at;
    if (f && f->action == A_ERR) { add_log(OP_WRITE, d, off, n, -1, f->arg, 0); errno = f->arg; return -1; }
    size_t m = n;
    if (f && f->action == A_SHORT && (size_t)f->arg < m) m = f->arg;
    if (v->kind == K_SCHED || v->kind == K_RATIO) {
        ssize_t r = sysfs_write(v, fd, b, m);
        int e = errno;
        add_log(OP_WRITE, d, off, m, r, r < 0 ? e : 0, 0);
        if (f && f->action == A_SIGNAL) raise(f->arg);
        errno = e;
        return r;
    }
    if (v->kind == K_BLK && v->cap >= 0) {
        if (off >= v->cap && n) { add_log(OP_WRITE, d, off, n, -1, ENOSPC, 0); errno = ENOSPC; return -1; }
        if (off + (long long)m > v->cap) m = v->cap - off;
    }
    ssize_t r = at < 0 ? real_write(fd, b, m) : real_pwrite64(fd, b, m, at);
    int e = errno;
    add_log(OP_WRITE, d, off, r > 0 ? r : (long long)n, r, r < 0 ? e : 0, 0);
    if (f && f->action == A_SIGNAL) raise(f->arg);
    errno = e;
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (fd_dev(fd) < 0) return real_writev(fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, -1);
        if (r < 0) return t ? t : r;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
ssize_t pwritev64(int fd, const struct iovec *v, int c, off64_t o)
{
    if (fd_dev(fd) < 0) return real_pwritev64(fd, v, c, o);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, o + t);
        if (r < 0) return t ? t : r;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
ssize_t pwritev(int fd, const struct iovec *v, int c, off_t o) { return pwritev64(fd, v, c, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o)
{
    int d = fd_dev(fd);
    if (d < 0) return real_pread64(fd, b, n, o);
    struct fault *f = next_fault(d, OP_READ);
    if (f && f->action == A_ERR) { add_log(OP_READ, d, o, n, -1, f->arg, 0); errno = f->arg; return -1; }
    size_t m = n;
    if (f && f->action == A_SHORT && (size_t)f->arg < m) m = f->arg;
    ssize_t r = real_pread64(fd, b, m, o);
    int e = errno;
    add_log(OP_READ, d, o, n, r, r < 0 ? e : 0, 0);
    if (f && f->action == A_SIGNAL) raise(f->arg);
    errno = e;
    return r;
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
/* Zero-copy transfers to or from a tracked file: fall back to "not supported" so that callers use read/write. */
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned fl)
{
    if (fd_dev(a) >= 0 || fd_dev(b) >= 0) { errno = EXDEV; return -1; }
    return real_copy_file_range(a, ao, b, bo, n, fl);
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n)
{
    if (fd_dev(out) >= 0 || fd_dev(in) >= 0) { errno = EINVAL; return -1; }
    return real_sendfile64(out, in, o, n);
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return sendfile64(out, in, o, n); }

static off64_t sim_seek(struct dev *v, off64_t off, int whence)
{
    long long size = v->simsize;
    if (v->seek_mode == 1) { errno = EINVAL; return -1; }               /* not supported */
    if (v->seek_mode > 100) { errno = v->seek_mode - 100; return -1; }  /* any other error */
    if (off < 0 || off >= size) { errno = ENXIO; return -1; }
    if (v->seek_mode == 2) return whence == SEEK_DATA ? off : size;      /* stub */
    for (int i = 0; i < v->ndata; i++) {
        long long a = v->data[i].log, b = a + v->data[i].len;
        if (whence == SEEK_DATA) {
            if (off < b && b > a) return off > a ? off : a;
        } else {
            if (off < a) return off;
            if (off < b) off = b;
        }
    }
    if (whence == SEEK_DATA) { errno = ENXIO; return -1; }
    return off < size ? off : size;
}

off64_t lseek64(int fd, off64_t off, int whence)
{
    int d = fd_dev(fd);
    if (d < 0) return real_lseek64(fd, off, whence);
    struct dev *v = &devs[d];
    struct fault *f = next_fault(d, OP_LSEEK);
    if (f && f->action == A_ERR) { add_log(OP_LSEEK, d, off, whence, -1, f->arg, 0); errno = f->arg; return -1; }
    off64_t r;
    if (v->sim && (whence == SEEK_DATA || whence == SEEK_HOLE)) {
        r = sim_seek(v, off, whence);
        int e = errno;
        if (r >= 0) real_lseek64(fd, r, SEEK_SET);
        errno = e;
    } else
        r = real_lseek64(fd, off, whence);
    int e = errno;
    add_log(OP_LSEEK, d, off, whence, r, r < 0 ? e : 0, 0);
    if (f && f->action == A_SIGNAL) raise(f->arg);
    errno = e;
    return r;
}
off_t lseek(int fd, off_t off, int whence) { return lseek64(fd, off, whence); }

static int do_sync(int fd, int data)
{
    int d = fd_dev(fd);
    if (d < 0) return data ? real_fdatasync(fd) : real_fsync(fd);
    struct fault *f = next_fault(d, OP_FSYNC);
    if (f && f->action == A_ERR) { add_log(OP_FSYNC, d, 0, 0, -1, f->arg, data); errno = f->arg; return -1; }
    add_log(OP_FSYNC, d, 0, 0, 0, 0, data);
    if (f && f->action == A_SIGNAL) raise(f->arg);
    return 0; /* the scratch file itself need not be durable */
}
int fsync(int fd) { return do_sync(fd, 0); }
int fdatasync(int fd) { return do_sync(fd, 1); }
int syncfs(int fd)
{
    int d = fd_dev(fd);
    if (d < 0) return real_syncfs(fd);
    return do_sync(fd, 0);
}
void sync(void)
{
    init();
    if (!active) { real_sync(); return; }
    for (int i = 0; i < MAXDEV; i++)
        if (devs[i].used) add_log(OP_FSYNC, i, 0, 0, 0, 0, 2);
}

int ftruncate64(int fd, off64_t n)
{
    int d = fd_dev(fd);
    if (d < 0) return real_ftruncate64(fd, n);
    struct fault *f = next_fault(d, OP_TRUNC);
    if (f && f->action == A_ERR) { add_log(OP_TRUNC, d, n, 0, -1, f->arg, 0); errno = f->arg; return -1; }
    if (devs[d].kind == K_BLK) { add_log(OP_TRUNC, d, n, 0, -1, EINVAL, 0); errno = EINVAL; return -1; }
    int r = real_ftruncate64(fd, n);
    int e = errno;
    add_log(OP_TRUNC, d, n, 0, r, r < 0 ? e : 0, 0);
    if (f && f->action == A_SIGNAL) raise(f->arg);
    if (devs[d].kind == K_PROBE && r == 0) devs[d].simsize = n;
    errno = e;
    return r;
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int truncate64(const char *p, off64_t n)
{
    init();
    if (active) {
        int d = dev_by_path(p);
        if (d >= 0) {
            struct fault *f = next_fault(d, OP_TRUNC);
            if (f && f->action == A_ERR) { add_log(OP_TRUNC, d, n, 0, -1, f->arg, 0); errno = f->arg; return -1; }
            if (devs[d].kind == K_BLK) { errno = EINVAL; return -1; }
            int r = real_truncate64(p, n);
            add_log(OP_TRUNC, d, n, 0, r, r < 0 ? errno : 0, 0);
            return r;
        }
    }
    return real_truncate64(p, n);
}
int truncate(const char *p, off_t n) { return truncate64(p, n); }
int posix_fallocate64(int fd, off64_t o, off64_t n)
{
    int d = fd_dev(fd);
    if (d < 0) return real_posix_fallocate64(fd, o, n);
    return devs[d].kind == K_BLK ? ENODEV : EOPNOTSUPP;
}
int posix_fallocate(int fd, off_t o, off_t n) { return posix_fallocate64(fd, o, n); }
int fallocate64(int fd, int m, off64_t o, off64_t n)
{
    if (fd_dev(fd) < 0) return real_fallocate64(fd, m, o, n);
    errno = EOPNOTSUPP;
    return -1;
}
int fallocate(int fd, int m, off_t o, off_t n) { return fallocate64(fd, m, o, n); }

int fstat64(int fd, struct stat64 *st) { init(); int r = real_fstat64(fd, st); if (!r) fix_stat(st); return r; }
int fstat(int fd, struct stat *st) { return fstat64(fd, (struct stat64 *)st); }
int stat64(const char *p, struct stat64 *st)
{
    char b[1024]; init();
    int r = real_stat64(redirect(p, b, sizeof b), st); if (!r) fix_stat(st); return r;
}
int stat(const char *p, struct stat *st) { return stat64(p, (struct stat64 *)st); }
int lstat64(const char *p, struct stat64 *st)
{
    char b[1024]; init();
    int r = real_lstat64(redirect(p, b, sizeof b), st); if (!r) fix_stat(st); return r;
}
int lstat(const char *p, struct stat *st) { return lstat64(p, (struct stat64 *)st); }
int fstatat64(int dfd, const char *p, struct stat64 *st, int fl)
{
    char b[1024]; init();
    int r = real_fstatat64(dfd, redirect(p, b, sizeof b), st, fl); if (!r) fix_stat(st); return r;
}
int fstatat(int dfd, const char *p, struct stat *st, int fl) { return fstatat64(dfd, p, (struct stat64 *)st, fl); }
int access(const char *p, int m) { char b[1024]; init(); return real_access(redirect(p, b, sizeof b), m); }
int faccessat(int dfd, const char *p, int m, int fl) { char b[1024]; init(); return real_faccessat(dfd, redirect(p, b, sizeof b), m, fl); }

int dup(int fd)
{
    init();
    int r = real_dup(fd);
    if (r >= 0 && r < MAXFD && MINE) fdmap[r] = (fd >= 0 && fd < MAXFD) ? fdmap[fd] : -1;
    return r;
}
int dup2(int a, int b)
{
    init();
    int r = real_dup2(a, b);
    if (r >= 0 && r < MAXFD && MINE) fdmap[r] = (a >= 0 && a < MAXFD) ? fdmap[a] : -1;
    return r;
}
int dup3(int a, int b, int fl)
{
    init();
    int r = real_dup3(a, b, fl);
    if (r >= 0 && r < MAXFD && MINE) fdmap[r] = (a >= 0 && a < MAXFD) ? fdmap[a] : -1;
    return r;
}
static int do_fcntl(int fd, int cmd, long arg)
{
    init();
    int r = real_fcntl64(fd, cmd, arg);
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0 && r < MAXFD && MINE) fdmap[r] = (fd >= 0 && fd < MAXFD) ? fdmap[fd] : -1;
    return r;
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }

static int sim_fiemap(struct dev *v, struct fiemap *fm)
{
    unsigned long long s = fm->fm_start, e = s + fm->fm_length;
    unsigned n = 0, cap = fm->fm_extent_count;
    if (e < s) e = ~0ULL;
    if (fm->fm_length == 0) { errno = EINVAL; return -1; }
    if (v->answer_cap && (unsigned)v->answer_cap < cap && cap) cap = v->answer_cap;
    fm->fm_mapped_extents = 0;
    for (int i = 0; i < v->next; i++) {
        unsigned long long a = v->exts[i].log, b = a + v->exts[i].len;
        if (b <= s) continue;
        if (a >= e) break;
        if (fm->fm_extent_count) {
            if (n >= cap) break;
            struct fiemap_extent *x = &fm->fm_extents[n];
            memset(x, 0, sizeof *x);
            if (v->clip && a < s) a = s;
            if (v->clip > 1 && b > e) b = e;
            x->fe_logical = a;
            x->fe_length = b - a;
            x->fe_physical = 0x100000 + 7 * a;
            x->fe_flags = v->exts[i].flags | (i == v->next - 1 ? FIEMAP_EXTENT_LAST : 0);
        }
        n++;
    }
    fm->fm_mapped_extents = n;
    return 0;
}

int ioctl(int fd, unsigned long req, ...)
{
    va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
    int d = fd_dev(fd);
    if (d < 0) { init(); return real_ioctl(fd, req, arg); }
    struct dev *v = &devs[d];
    struct fault *f = next_fault(d, OP_IOCTL);
    if (f && f->action == A_ERR) { add_log(OP_IOCTL, d, req, 0, -1, f->arg, 0); errno = f->arg; return -1; }
    int r = 0;
    if (v->sim && (req & 0xffffffff) == FS_IOC_FIEMAP) {
        struct fiemap *fm = arg;
        if (v->fiemap_errno) { errno = v->fiemap_errno; r = -1; }
        else r = sim_fiemap(v, fm);
        int e = errno;
        add_log(OP_IOCTL, d, req & 0xffffffff, fm->fm_extent_count, r, r < 0 ? e : 0, fm->fm_flags);
        errno = e;
        return r;
    }
    if (v->sim && (req & 0xffffffff) == FIGETBSZ) {
        if (v->figetbsz_errno) { errno = v->figetbsz_errno; r = -1; }
        else *(int *)arg = v->bsz;
        int e = errno;
        add_log(OP_IOCTL, d, req & 0xffffffff, 0, r, r < 0 ? e : 0, 0);
        errno = e;
        return r;
    }
    r = real_ioctl(fd, req, arg);
    int e = errno;
    add_log(OP_IOCTL, d, req & 0xffffffff, 0, r, r < 0 ? e : 0, 0);
    errno = e;
    return r;
}

/* ---------------------------------------------------------------- configuration */
void vd_reset(void);
void vd_reset(void)
{
    init();
    active = 0;
    for (int i = 0; i < MAXDEV; i++) { free(devs[i].exts); free(devs[i].data); }
    memset(devs, 0, sizeof devs);
    for (int i = 0; i < MAXFD; i++) fdmap[i] = -1;
    nlog = nfaults = nredir = 0;
    probe_dev = -1;
    if (!logbuf) {
        char *p = mmap(NULL, sizeof *logbuf * MAXLOG + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        nlogp = (volatile int *)p;
        logbuf = (struct logent *)(p + 64);
        nlog = 0;
    }
}
/* Give this process a log of its own (after fork). */
void vd_own_log(void) { logbuf = NULL; nlogp = &nlog0; nlog = 0; vd_reset(); }
void vd_active(int on) { active = on; owner = getpid(); }
void vd_log_reset(void)
{
    nlog = 0;
    for (int i = 0; i < MAXDEV; i++) memset(devs[i].nops, 0, sizeof devs[i].nops);
    for (int i = 0; i < nfaults; i++) faults[i].used = 0;
}
int vd_add(const char *path, int kind, int maj, int min, int busy, const char *opts)
{
    struct stat64 st;
    init();
    for (int i = 0; i < MAXDEV; i++)
        if (!devs[i].used) {
            struct dev *v = &devs[i];
            memset(v, 0, sizeof *v);
            v->used = 1; v->kind = kind; v->maj = maj; v->min = min; v->busy = busy; v->cap = -1;
            snprintf(v->path, sizeof v->path, "%s", path);
            if (opts) snprintf(v->opts, sizeof v->opts, "%s", opts);
            if (real_stat64(path, &st) == 0) { v->known = 1; v->d = st.st_dev; v->i = st.st_ino; if (kind == K_BLK) v->cap = st.st_size; }
            return i;
        }
    return -1;
}
void vd_track_fd(int fd, int dev) { init(); if (fd >= 0 && fd < MAXFD) fdmap[fd] = dev; }
void vd_fault(int dev, int op, int nth, int action, int arg)
{
    if (nfaults < MAXFAULT) faults[nfaults++] = (struct fault){ dev, op, nth, action, arg, 0 };
}
void vd_clear_faults(void) { nfaults = 0; }
int vd_fault_used(int i) { return faults[i].used; }
void vd_redirect(const char *from, const char *to)
{
    if (nredir < MAXREDIR) {
        snprintf(redir[nredir].from, sizeof redir[0].from, "%s", from);
        snprintf(redir[nredir].to, sizeof redir[0].to, "%s", to);
        nredir++;
    }
}
void vd_probe(const char *dir, int dev) { snprintf(probe_dir, sizeof probe_dir, "%s", dir); probe_dev = dev; }
void vd_sim(int dev, long long bsz, long long size, int fiemap_errno, int figetbsz_errno, int seek_mode, int answer_cap, int clip)
{
    struct dev *v = &devs[dev];
    v->sim = 1; v->bsz = bsz; v->simsize = size; v->fiemap_errno = fiemap_errno; v->figetbsz_errno = figetbsz_errno;
    v->seek_mode = seek_mode; v->answer_cap = answer_cap; v->clip = clip;
}
void vd_layout(int dev, int next, const struct ext *e, int ndata, const struct ext *dt)
{
    struct dev *v = &devs[dev];
    free(v->exts); free(v->data);
    v->exts = malloc(sizeof *e * (next + 1)); v->data = malloc(sizeof *dt * (ndata + 1));
    memcpy(v->exts, e, sizeof *e * next); memcpy(v->data, dt, sizeof *dt * ndata);
    v->next = next; v->ndata = ndata;
}
int vd_nlog(void) { return nlog < MAXLOG ? nlog : MAXLOG; }
struct logent *vd_log(void) { return logbuf; }
int vd_nops(int dev, int op) { return devs[dev].nops[op]; }
int vd_is_active(void) { return active; }
