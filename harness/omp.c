// Preloaded into a program under test: other schedules of its parallel loops, chosen by OMPFUZZ=seed.
// Chunks of dynamic loops get other sizes, and threads are held up where they begin, take a chunk, reach a
// barrier or enter a critical section. All of this an OpenMP runtime is free to do.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include <sched.h>
static uint64_t seed; static int on = -1, chunks, hold, slow;
static __thread uint64_t st; static int threads;
static uint64_t rnd(void) {
    if (!st) st = seed*0x9E3779B97F4A7C15ull + (uint64_t)__atomic_add_fetch(&threads, 1, __ATOMIC_RELAXED)*0xD1B54A32D192ED03ull + 1;
    st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st*0x2545F4914F6CDD1Dull >> 16;
}
static void init(void) {
    if (on >= 0) return;
    const char* e = getenv("OMPFUZZ"); seed = e ? strtoull(e, 0, 10) : 0;
    chunks = seed % 5; hold = seed/5 % 4; slow = seed/20 % 4; on = e != 0;
}
static void pause_(int weight) {
    if (!on) return;
    uint64_t r = rnd();
    if (r % 16 >= (uint64_t)(hold*weight)) return;
    r /= 16;
    if (slow == 0 || r % 4 == 0) sched_yield();
    else if (slow == 1) for (volatile int i = r/4 % 3000; i > 0; i--);
    else usleep(r/4 % (slow == 2 ? 30 : 200));
}
static long chunk(long c) { init(); if (!on) return c; switch (chunks) { case 0: return c; case 1: return 1; case 2: return 3; case 3: return c/8+1; default: return c*4; } }
#define NEXT(n) static __typeof__(n)* p; if (!p) p = (__typeof__(n)*)dlsym(RTLD_NEXT, #n)
typedef unsigned long long U;
bool GOMP_loop_nonmonotonic_dynamic_start(long a, long b, long i, long c, long* x, long* y) { NEXT(GOMP_loop_nonmonotonic_dynamic_start); c = chunk(c); pause_(2); return p(a, b, i, c, x, y); }
bool GOMP_loop_nonmonotonic_dynamic_next(long* x, long* y) { NEXT(GOMP_loop_nonmonotonic_dynamic_next); pause_(1); return p(x, y); }
bool GOMP_loop_ull_nonmonotonic_dynamic_start(bool u, U a, U b, U i, U c, U* x, U* y) { NEXT(GOMP_loop_ull_nonmonotonic_dynamic_start); c = i < (1ull<<32) ? (U)chunk(c) : c; pause_(2); return p(u, a, b, i, c, x, y); }
bool GOMP_loop_ull_nonmonotonic_dynamic_next(U* x, U* y) { NEXT(GOMP_loop_ull_nonmonotonic_dynamic_next); pause_(1); return p(x, y); }
void GOMP_barrier(void) { NEXT(GOMP_barrier); init(); pause_(3); p(); pause_(3); }
void GOMP_critical_start(void) { NEXT(GOMP_critical_start); init(); if (on && rnd() % 64 == 0) pause_(1); p(); }
void GOMP_critical_end(void) { NEXT(GOMP_critical_end); p(); if (on && rnd() % 64 == 0) pause_(1); }
void GOMP_loop_end(void) { NEXT(GOMP_loop_end); pause_(2); p(); }
void GOMP_loop_end_nowait(void) { NEXT(GOMP_loop_end_nowait); pause_(2); p(); }
struct job { void (*fn)(void*); void* data; };
static void late(void* v) { struct job* j = v; pause_(4); j->fn(j->data); pause_(4); }
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned flags) { NEXT(GOMP_parallel); init(); struct job j = { fn, data }; p(late, &j, n, flags); }
