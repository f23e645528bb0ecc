// Preloaded into a program under test: ends it, like a kill, at a chosen file write
// (FAULT_WRITE=n) or at a chosen solution of the boundary conditions (FAULT_SOLVE=n),
// or makes every file write from the n-th on fail like a full disk (FAULT_ENOSPC=n),
// or stops the clock (FAULT_TIME=seconds).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
#include <stdlib.h>
#include <errno.h>
#include <time.h>
static long val(const char* e) { e = getenv(e); return e ? atol(e) : -1; }
static long w = -2, s = -2, f = -2;
static int tick(void) {
    if (w == -2) w = val("FAULT_WRITE"); if (f == -2) f = val("FAULT_ENOSPC");
    if (w > 0 && --w == 0) _exit(137);
    if (f > 0 && --f == 0) f = 0;
    return f == 0;
}
static void solve(void) { if (s == -2) s = val("FAULT_SOLVE"); if (s > 0 && --s == 0) _exit(137); }
#define NEXT(n) static __typeof__(n)* p; if (!p) p = (__typeof__(n)*)dlsym(RTLD_NEXT, #n)
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { if (tick()) { errno = ENOSPC; return -1; } NEXT(pwrite); return p(fd, b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { if (tick()) { errno = ENOSPC; return -1; } NEXT(pwrite64); return p(fd, b, n, o); }
void dgesv_(int* n, const int* r, double* a, int* l, int* i, double* x, int* k, int* f) { solve(); static void (*p)(int*, const int*, double*, int*, int*, double*, int*, int*); if (!p) p = dlsym(RTLD_NEXT, "dgesv_"); p(n, r, a, l, i, x, k, f); }
void cblas_dgemv(int o, int t, int m, int n, double a, const double* A, int l, const double* x, int ix, double b, double* y, int iy) { solve(); static void (*p)(int, int, int, int, double, const double*, int, const double*, int, double, double*, int); if (!p) p = dlsym(RTLD_NEXT, "cblas_dgemv"); p(o, t, m, n, a, A, l, x, ix, b, y, iy); }
time_t time(time_t* p) { long v = val("FAULT_TIME"); if (v < 0) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); v = t.tv_sec; } if (p) *p = v; return v; }
