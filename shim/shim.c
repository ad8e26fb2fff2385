// Makes the file system calls of the daemon fail, or ends the daemon, at a chosen one.
//
// The calls which change what is under ZSHIM_DIR are counted. The file ZSHIM_CTL holds the orders
// and is shared with the harness. Nothing but calls on files below ZSHIM_DIR is ever touched.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF, CRASH_BEFORE, CRASH_AFTER, CRASH_PART, FAIL, SHORT, FAILING, SHORTFAILING };
enum { K_WRITE = 1, K_CREATE = 2, K_REMOVE = 4, K_TRUNC = 8, K_SYNC = 16, K_ALLOC = 32, K_RENAME = 64 };

struct ctl {
    volatile uint32_t mode;      // what to do
    volatile uint32_t at;        // at which of the calls, from 1
    volatile uint32_t part;      // bytes of a partial write, in 1/1000 of it
    volatile uint32_t err;       // errno of a refused call
    volatile uint32_t kinds;     // calls which count
    volatile uint32_t count;     // calls so far
    volatile uint32_t fired;     // kind of the call which was hit
    volatile uint32_t syncs;     // successful fsync since the last order
    volatile uint32_t dirtyfds;  // files written since they were synced, at the last reply
    volatile uint32_t hold;
};

static struct ctl *ctl;
static char root[PATH_MAX];
static size_t rootlen;
#define MAXFD 4096
static unsigned char tracked[MAXFD];    // 1: below root
static unsigned char unsynced[MAXFD];
static unsigned char direct[MAXFD];     // 1: opened to write through
static const char *shadow;              // ZSHIM_SHADOW: what of each file was forced to the disk, by inode

#define REAL(name) static __typeof__(&name) real; if(!real) real = (__typeof__(&name)) dlsym(RTLD_NEXT, #name)

__attribute__((constructor)) static void setup(void) {
    const char *c = getenv("ZSHIM_CTL"), *d = getenv("ZSHIM_DIR");
    if(!c || !d || !realpath(d, root))
        return;
    rootlen = strlen(root);
    shadow = getenv("ZSHIM_SHADOW");
    int fd = open(c, O_RDWR | O_CLOEXEC);
    if(fd < 0)
        return;
    void *p = mmap(NULL, sizeof(struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if(p != MAP_FAILED)
        ctl = p;
}

static int below(const char *path) {
    char full[PATH_MAX * 2];
    if(!ctl || !path)
        return 0;
    if(path[0] != '/') {
        char cwd[PATH_MAX];
        if(!getcwd(cwd, sizeof(cwd)))
            return 0;
        snprintf(full, sizeof(full), "%s/%s", cwd, path);
        path = full;
    }
    return strncmp(path, root, rootlen) == 0 && path[rootlen] == '/' && !strstr(path, "zdb.lock");
}

static int ours(int fd) {
    return ctl && fd >= 0 && fd < MAXFD && tracked[fd];
}

static void die(void) {
    kill(getpid(), SIGKILL);
    for(;;) pause();
}

static int plainopen(const char *path, int flags, mode_t m) {
    int (*o)(const char *, int, ...) = dlsym(RTLD_NEXT, "open");
    return o(path, flags, m);
}

// the content of the file is on the disk from here on
static void forced(int fd) {
    char from[64], to[PATH_MAX];
    struct stat sb;
    if(!shadow || fstat(fd, &sb) < 0 || !S_ISREG(sb.st_mode))
        return;
    snprintf(from, sizeof(from), "/proc/self/fd/%d", fd);
    snprintf(to, sizeof(to), "%s/%lu", shadow, (unsigned long) sb.st_ino);
    int in = plainopen(from, O_RDONLY, 0), out = plainopen(to, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    int (*c)(int) = dlsym(RTLD_NEXT, "close");
    if(in < 0 || out < 0) {
        fprintf(stderr, "shim: shadow\n");
        abort();
    }
    off_t n = sb.st_size;
    while(n > 0) {
        ssize_t r = sendfile(out, in, NULL, n);
        if(r <= 0)
            break;
        n -= r;
    }
    c(in);
    c(out);
}

// the file of this name, or what it replaces, is gone
static void forgotten(const char *path) {
    char at[PATH_MAX];
    struct stat sb;
    int (*u)(const char *) = dlsym(RTLD_NEXT, "unlink");
    if(!shadow || !below(path) || lstat(path, &sb) < 0 || !S_ISREG(sb.st_mode) || sb.st_nlink > 1)
        return;
    snprintf(at, sizeof(at), "%s/%lu", shadow, (unsigned long) sb.st_ino);
    u(at);
}

// 0: do it, 1: refuse it, 2: do a part of it (writes), then die if *kill
static int order(uint32_t kind) {
    if(!(ctl->kinds & kind) || ctl->mode == OFF)
        return 0;
    uint32_t n = ++ctl->count;
    if(n < ctl->at)
        return 0;
    switch(ctl->mode) {
        case CRASH_BEFORE: if(n == ctl->at) { ctl->fired = kind; die(); } return 0;
        case CRASH_AFTER: case CRASH_PART: if(n == ctl->at) { ctl->fired = kind; return 2; } return 0;
        case FAIL: if(n == ctl->at) { ctl->fired = kind; return 1; } return 0;
        case FAILING: ctl->fired = kind; return 1;
        case SHORT: if(n == ctl->at) { ctl->fired = kind; return 2; } return 0;
        case SHORTFAILING: ctl->fired = kind; return n == ctl->at ? 2 : 1;
    }
    return 0;
}

static int appended(int fd, off_t at, size_t len) {
    struct stat sb;
    return len > 1 && at > 0 && (ctl->mode == SHORT || (fstat(fd, &sb) == 0 && at >= sb.st_size));
}

static ssize_t some(int fd, const void *b, size_t len, off_t at, int positioned) {
    // a partial write, only where it appends to a file which has its header, or if whoever does
    // it can put back what was there
    ssize_t (*w)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
    ssize_t (*pw)(int, const void *, size_t, off_t) = dlsym(RTLD_NEXT, "pwrite");
    off_t pos = at;
    if(!positioned) {
        int fl = fcntl(fd, F_GETFL);
        struct stat sb;
        pos = lseek(fd, 0, SEEK_CUR);
        if((fl & O_APPEND) && fstat(fd, &sb) == 0)
            pos = sb.st_size;
    }
    size_t n = len;
    if(ctl->mode != CRASH_AFTER) {
        if(appended(fd, pos, len)) {
            n = len * (uint64_t) ctl->part / 1000;
            if(n < 1) n = 1;
            if(n >= len) n = len - 1;
        } else {
            n = 0;
        }
    }
    ssize_t r = 0;
    if(n > 0) {
        r = positioned ? pw(fd, b, n, at) : w(fd, b, n);
        unsynced[fd] = 1;
    }
    if(ctl->mode == CRASH_AFTER || ctl->mode == CRASH_PART)
        die();
    if(n == 0) {
        errno = ctl->err;
        return -1;
    }
    return r;
}

#define REFUSED { errno = ctl->err; return -1; }

ssize_t write(int fd, const void *b, size_t len) {
    REAL(write);
    if(!ours(fd) || len == 0)
        return real(fd, b, len);
    switch(order(K_WRITE)) {
        case 1: REFUSED
        case 2: return some(fd, b, len, 0, 0);
    }
    unsynced[fd] = 1;
    ssize_t r = real(fd, b, len);
    if(direct[fd]) forced(fd);
    return r;
}

ssize_t pwrite(int fd, const void *b, size_t len, off_t at) {
    REAL(pwrite);
    if(!ours(fd) || len == 0)
        return real(fd, b, len, at);
    switch(order(K_WRITE)) {
        case 1: REFUSED
        case 2: return some(fd, b, len, at, 1);
    }
    unsynced[fd] = 1;
    ssize_t r = real(fd, b, len, at);
    if(direct[fd]) forced(fd);
    return r;
}
ssize_t pwrite64(int fd, const void *b, size_t len, off64_t at) { return pwrite(fd, b, len, at); }

ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(writev);
    if(!ours(fd))
        return real(fd, v, n);
    size_t len = 0, o = 0;
    for(int i = 0; i < n; i++) len += v[i].iov_len;
    char *b = malloc(len + 1);
    for(int i = 0; i < n; i++) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
    ssize_t r = write(fd, b, len);
    int e = errno;
    free(b);
    errno = e;
    return r;
}

int ftruncate(int fd, off_t len) {
    REAL(ftruncate);
    if(ours(fd)) {
        switch(order(K_TRUNC)) {
            case 1: REFUSED
            case 2: real(fd, len); if(ctl->mode == CRASH_AFTER || ctl->mode == CRASH_PART) die(); REFUSED
        }
        unsynced[fd] = 1;
    }
    return real(fd, len);
}
int ftruncate64(int fd, off64_t len) { return ftruncate(fd, len); }

int fsync(int fd) {
    REAL(fsync);
    if(ours(fd)) {
        switch(order(K_SYNC)) {
            case 1: REFUSED
            case 2: if(ctl->mode == CRASH_AFTER || ctl->mode == CRASH_PART) die(); REFUSED
        }
        unsynced[fd] = 0;
        ctl->syncs++;
        forced(fd);
    }
    return real(fd);
}
int fdatasync(int fd) {
    REAL(fdatasync);
    if(ours(fd)) {
        switch(order(K_SYNC)) {
            case 1: REFUSED
            case 2: if(ctl->mode == CRASH_AFTER || ctl->mode == CRASH_PART) die(); REFUSED
        }
        unsynced[fd] = 0;
        ctl->syncs++;
        forced(fd);
    }
    return real(fd);
}

int fallocate(int fd, int mode, off_t o, off_t len) {
    REAL(fallocate);
    if(ours(fd)) {
        switch(order(K_ALLOC)) {
            case 1: REFUSED
            case 2: if(ctl->mode == CRASH_AFTER || ctl->mode == CRASH_PART) die(); REFUSED
        }
        // the scratch disk is small: no room is reserved
        if(mode & FALLOC_FL_KEEP_SIZE)
            return 0;
    }
    return real(fd, mode, o, len);
}

static int opened(int fd, const char *path, int flags) {
    if(fd >= 0 && fd < MAXFD)
        tracked[fd] = below(path), unsynced[fd] = 0, direct[fd] = tracked[fd] && (flags & (O_SYNC | O_DSYNC));
    return fd;
}

static int precreate(const char *path, int flags) {
    struct stat sb;
    if(!below(path))
        return 0;
    if(!((flags & O_CREAT) && stat(path, &sb) < 0) && !(flags & O_TRUNC))
        return 0;
    return order(K_CREATE);
}

int open(const char *path, int flags, ...) {
    REAL(open);
    mode_t m = 0;
    if(flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    switch(precreate(path, flags)) {
        case 1: REFUSED
        case 2: { int fd = opened(real(path, flags, m), path, flags);
                  if(ctl->mode == CRASH_AFTER || ctl->mode == CRASH_PART) die();
                  return fd; }
    }
    return opened(real(path, flags, m), path, flags);
}
int open64(const char *path, int flags, ...) {
    mode_t m = 0;
    if(flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    return open(path, flags, m);
}
int openat(int dir, const char *path, int flags, ...) {
    REAL(openat);
    mode_t m = 0;
    if(flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    if(path && path[0] == '/')
        return open(path, flags, m);
    return real(dir, path, flags, m);
}
int creat(const char *path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
    REAL(close);
    if(fd >= 0 && fd < MAXFD) {
        if(ctl && tracked[fd] && unsynced[fd]) ctl->dirtyfds++;
        tracked[fd] = unsynced[fd] = 0;
    }
    return real(fd);
}

static int change(const char *path, uint32_t kind) {
    return below(path) ? order(kind) : 0;
}
#define CHANGE(path, kind, call) \
    switch(change(path, kind)) { case 1: REFUSED \
        case 2: { int r = call; if(ctl->mode == CRASH_AFTER || ctl->mode == CRASH_PART) die(); return r; } } \
    return call;

int mkdir(const char *path, mode_t m) { REAL(mkdir); struct stat sb; if(stat(path, &sb) == 0) return real(path, m); CHANGE(path, K_CREATE, real(path, m)) }
int unlink(const char *path) { REAL(unlink); forgotten(path); CHANGE(path, K_REMOVE, real(path)) }
int rmdir(const char *path) { REAL(rmdir); CHANGE(path, K_REMOVE, real(path)) }
int remove(const char *path) { REAL(remove); forgotten(path); CHANGE(path, K_REMOVE, real(path)) }
int rename(const char *from, const char *to) { REAL(rename); forgotten(to); CHANGE(to, K_RENAME, real(from, to)) }
int truncate(const char *path, off_t len) { REAL(truncate); CHANGE(path, K_TRUNC, real(path, len)) }
void sync(void) {
    if(!shadow) {
        REAL(sync);
        real();
        return;
    }
    for(int fd = 0; fd < MAXFD; fd++)
        if(tracked[fd]) unsynced[fd] = 0, forced(fd);
}
