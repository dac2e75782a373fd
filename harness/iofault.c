/* LD_PRELOAD: from the ALSIO_AT-th call on (counted in one process, rank ALSIO_RANK) opening
 * for writing (ALSIO_KIND=open) or writing (ALSIO_KIND=write) a file whose path contains
 * ALSIO_MATCH, such calls fail (EACCES, ENOSPC).  ALSIO_OUT counts calls and failures. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int state, kind, at, calls, failed;      /* kind: 1 open, 2 write */
static const char* match;

static void report(void) {
    const char* o = getenv("ALSIO_OUT");
    if (!o || (!calls && !failed)) return;
    char p[4096], t[128];
    snprintf(p, sizeof p, "%s_%d", o, (int)getpid());
    int fd = syscall(SYS_openat, AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, 0644);
    if (fd < 0) return;
    int n = snprintf(t, sizeof t, "%d %d\n", calls, failed);
    syscall(SYS_write, fd, t, n);
    syscall(SYS_close, fd);
}

static void init(void) {
    if (state) return;
    state = 1;
    match = getenv("ALSIO_MATCH");
    const char *k = getenv("ALSIO_KIND"), *a = getenv("ALSIO_AT"), *r = getenv("ALSIO_RANK"), *w = getenv("OMPI_COMM_WORLD_RANK");
    if (!match || !k) return;
    if (r && atoi(r) != (w ? atoi(w) : 0)) return;
    kind = !strcmp(k, "open") ? 1 : 2;
    at = a ? atoi(a) : 0;
}

static int hit(int what, const char* path) {
    if (kind != what || !path || !strstr(path, match)) return 0;
    int n = calls++;
    int f = at >= 0 && n >= at;
    failed += f;
    report();
    return f;
}

static int hitfd(int fd) {
    init();
    if (kind != 2) return 0;
    char l[64], p[4096];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, p, sizeof p - 1);
    if (n <= 0) return 0;
    p[n] = 0;
    return hit(2, p);
}

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
#define WR(name, ret, args, pass) ret name args { REAL(name); if (hitfd(fd)) { errno = ENOSPC; return -1; } return real pass; }
WR(write, ssize_t, (int fd, const void* b, size_t n), (fd, b, n))
WR(pwrite, ssize_t, (int fd, const void* b, size_t n, off_t o), (fd, b, n, o))
WR(pwrite64, ssize_t, (int fd, const void* b, size_t n, off64_t o), (fd, b, n, o))
WR(writev, ssize_t, (int fd, const struct iovec* b, int n), (fd, b, n))
WR(pwritev, ssize_t, (int fd, const struct iovec* b, int n, off_t o), (fd, b, n, o))
WR(pwritev64, ssize_t, (int fd, const struct iovec* b, int n, off64_t o), (fd, b, n, o))

#define OP(name, decl, at_, pass) int name decl { REAL(name); init(); mode_t m = 0; \
    if (f & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, f); m = va_arg(v, int); va_end(v); } \
    if ((f & (O_WRONLY | O_RDWR)) && hit(1, p)) { errno = EACCES; return -1; } return real pass; }
OP(open, (const char* p, int f, ...), 0, (p, f, m))
OP(open64, (const char* p, int f, ...), 0, (p, f, m))
OP(openat, (int d, const char* p, int f, ...), 0, (d, p, f, m))
OP(openat64, (int d, const char* p, int f, ...), 0, (d, p, f, m))
