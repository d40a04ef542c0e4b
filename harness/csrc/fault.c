// Counts the file-system calls made below FAULT_DIR, and ends the process or
// fails the call at the FAULT_AT-th one. LD_PRELOAD only.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static long at = -1, count = 0;
static char mode[32], dir[PATH_MAX], logf_[PATH_MAX];
static char tracked[4096];
static int init_done = 0;

static void init(void) {
    if (init_done) return;
    init_done = 1;
    char *e;
    if ((e = getenv("FAULT_AT"))) at = atol(e);
    if ((e = getenv("FAULT_MODE"))) strncpy(mode, e, sizeof mode - 1);
    if ((e = getenv("FAULT_DIR"))) strncpy(dir, e, sizeof dir - 1);
    if ((e = getenv("FAULT_LOG"))) strncpy(logf_, e, sizeof logf_ - 1);
}
#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))

static void logop(const char *op) {
    if (!logf_[0]) return;
    int fd = REAL(open)(logf_, O_WRONLY | O_APPEND | O_CREAT, 0600);
    if (fd < 0) return;
    char b[64];
    int n = snprintf(b, sizeof b, "%s\n", op);
    if (REAL(write)(fd, b, n) < 0) {}
    REAL(close)(fd);
}
static int below(const char *p) {
    init();
    return dir[0] && p && !strncmp(p, dir, strlen(dir));
}
// 0: run the call; 1: run it, then exit; -1: fail with errno; 2: half of it, then exit; 3: half of it, later fail
static int hit(const char *op) {
    init();
    count++;
    logop(op);
    if (count > at && at > 0 && !strcmp(mode, "full")) { errno = ENOSPC; return !strcmp(op, "write") || !strcmp(op, "open") ? -1 : 0; }
    if (count != at) return 0;
    if (!strcmp(mode, "before")) _exit(9);
    if (!strcmp(mode, "after")) return 1;
    if (!strcmp(mode, "half")) return 2;
    if (!strcmp(mode, "short")) return 3;
    errno = strcmp(mode, "eio") ? ENOSPC : EIO;
    return -1;
}
static int do_open(int (*f)(const char *, int, ...), const char *p, int fl, mode_t m) {
    if (!below(p)) return f(p, fl, m);
    int h = hit((fl & (O_WRONLY | O_RDWR)) ? "open" : "openr");
    if (h < 0) return -1;
    int fd = f(p, fl, m);
    if (h == 1 || h == 2) _exit(9);
    if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = 1;
    return fd;
}
int open(const char *p, int fl, ...) {
    va_list a; va_start(a, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a);
    return do_open(REAL(open), p, fl, m);
}
int open64(const char *p, int fl, ...) {
    va_list a; va_start(a, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a);
    return do_open(REAL(open64), p, fl, m);
}
#define TR(fd) (fd >= 0 && fd < (int)sizeof tracked && tracked[fd])
ssize_t write(int fd, const void *b, size_t n) {
    if (!TR(fd)) return REAL(write)(fd, b, n);
    int h = hit("write");
    if (h < 0) return -1;
    if (h == 2) { if (REAL(write)(fd, b, n / 2) < 0) {} _exit(9); }
    if (h == 3 && n > 1) { n = n / 2; strcpy(mode, "full"); }
    ssize_t r = REAL(write)(fd, b, n);
    if (h == 1) _exit(9);
    return r;
}
#define FDCALL(name, args, call) \
    int name args { \
        if (!TR(fd)) return REAL(name) call; \
        int h = hit(#name); \
        if (h < 0) return -1; \
        int r = REAL(name) call; \
        if (h == 1 || h == 2) _exit(9); \
        return r; \
    }
FDCALL(fsync, (int fd), (fd))
FDCALL(fdatasync, (int fd), (fd))
FDCALL(ftruncate, (int fd, off_t l), (fd, l))
FDCALL(ftruncate64, (int fd, off64_t l), (fd, l))
int close(int fd) {
    if (!TR(fd)) return REAL(close)(fd);
    tracked[fd] = 0;
    int h = hit("close");
    int r = REAL(close)(fd);
    if (h == 1 || h == 2) _exit(9);
    return h < 0 ? 0 : r;
}
int rename(const char *a, const char *b) {
    if (!below(a) && !below(b)) return REAL(rename)(a, b);
    int h = hit("rename");
    if (h < 0) return -1;
    int r = REAL(rename)(a, b);
    if (h == 1 || h == 2) _exit(9);
    return r;
}
int unlink(const char *a) {
    if (!below(a)) return REAL(unlink)(a);
    int h = hit("unlink");
    if (h < 0) return -1;
    int r = REAL(unlink)(a);
    if (h == 1 || h == 2) _exit(9);
    return r;
}
int link(const char *a, const char *b) {
    if (!below(a) && !below(b)) return REAL(link)(a, b);
    int h = hit("link");
    if (h < 0) return -1;
    int r = REAL(link)(a, b);
    if (h == 1 || h == 2) _exit(9);
    return r;
}
