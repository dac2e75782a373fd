/* A replacement of the OpenMP runtime (LD_PRELOAD before libgomp) on plain POSIX threads:
 * threads start and end parallel regions through mutexes, so that ThreadSanitizer sees the
 * ordering OpenMP gives and nothing more (libgomp's futexes are invisible to it).
 * ALSOMP_MODE=free    threads run at the same time, started in a pseudo-random order
 * ALSOMP_MODE=serial  one thread after the other in a pseudo-random order (changing at
 *                     barriers), which makes every interleaving of whole chunks reachable
 * ALSOMP_SEED, OMP_NUM_THREADS, ALSOMP_US (random delays at thread starts), ALSOMP_OUT.<pid> */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

typedef unsigned long long ull;
#define SLOTS 64
typedef struct { long id; ull next, end, chunk; long incr; int used, guided; } share_t;
typedef struct team {
    int n, serial, turn, arrived; unsigned gen; int* order;
    void (*fn)(void*); void* data;
    pthread_mutex_t mu; pthread_cond_t cv; share_t share[SLOTS]; long single; void* copy;
} team_t;
static __thread int tid = 0, nt = 1;
static __thread team_t* team = NULL;
static __thread long wsid = 0, singles = 0;
static __thread share_t* cur = NULL;
static int maxt = 0, serial = 0, maxus = 0, inited = 0;
static uint64_t rng = 88172645463325252ull;
static pthread_mutex_t glob = PTHREAD_MUTEX_INITIALIZER, crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
static long regions, widest, barriers, reordered; static unsigned char seen[8192]; static long distinct;

static void report(void) {
    const char* o = getenv("ALSOMP_OUT"); if (!o) return;
    char name[4096]; snprintf(name, sizeof name, "%s.%d", o, (int) getpid());
    FILE* f = fopen(name, "w"); if (!f) return;
    fprintf(f, "{\"regions\": %ld, \"threads\": %ld, \"barriers\": %ld, \"reordered\": %ld, \"orders\": %ld}\n", regions, widest, barriers, reordered, distinct);
    fclose(f);
}
static void init(void) {
    if (inited) return;
    pthread_mutex_lock(&glob);
    if (!inited) {
        const char* s = getenv("OMP_NUM_THREADS"); maxt = s ? atoi(s) : (int) sysconf(_SC_NPROCESSORS_ONLN); if (maxt < 1) maxt = 1; if (maxt > 64) maxt = 64;
        s = getenv("ALSOMP_MODE"); serial = s && !strcmp(s, "serial");
        s = getenv("ALSOMP_US"); maxus = s ? atoi(s) : 0;
        s = getenv("ALSOMP_SEED"); rng ^= (s ? strtoull(s, 0, 10) : 1) * 0x9E3779B97F4A7C15ull; if (!rng) rng = 1;
        for (int i = 0; i < 20; i++) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; }
        atexit(report); inited = 1;
    }
    pthread_mutex_unlock(&glob);
}
static uint64_t rnd(void) {   /* only called by the thread that opens a region, under glob */
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng;
}
static void shuffle(int* o, int n) { for (int i = n - 1; i > 0; i--) { int j = (int)(rnd() >> 11) % (i + 1); if (j < 0) j = -j; int t = o[i]; o[i] = o[j]; o[j] = t; } }

static void take(team_t* t) {           /* serial mode: wait for this thread's turn */
    pthread_mutex_lock(&t->mu);
    while (t->turn < t->n && t->order[t->turn] != tid) pthread_cond_wait(&t->cv, &t->mu);
    pthread_mutex_unlock(&t->mu);
}
static void give(team_t* t) {
    pthread_mutex_lock(&t->mu); t->turn++; pthread_cond_broadcast(&t->cv); pthread_mutex_unlock(&t->mu);
}
typedef struct { team_t* t; int id; int us; } arg_t;
static void* enter(void* p) {
    arg_t* a = p; team_t* t = a->t;
    tid = a->id; nt = t->n; team = t; wsid = singles = 0; cur = NULL;
    if (a->us) usleep((useconds_t) a->us);
    if (t->serial) take(t);
    t->fn(t->data);
    if (t->serial) give(t);
    return NULL;
}
/* Workers are kept between regions; posting and finishing a region order exactly as creating
 * and joining them would, since a worker's earlier regions ended before this one began. */
typedef struct { pthread_t th; pthread_mutex_t mu; pthread_cond_t cv; arg_t* job; int up; } worker_t;
static worker_t pool[64];
static int pool_busy = 0;
static void* work(void* p) {
    worker_t* w = p;
    for (;;) {
        pthread_mutex_lock(&w->mu);
        while (!w->job) pthread_cond_wait(&w->cv, &w->mu);
        arg_t* j = w->job; pthread_mutex_unlock(&w->mu);
        enter(j);
        tid = 0; nt = 1; team = NULL;
        pthread_mutex_lock(&w->mu); w->job = NULL; pthread_cond_broadcast(&w->cv); pthread_mutex_unlock(&w->mu);
    }
    return NULL;
}
static void post(int k, arg_t* a) {
    worker_t* w = &pool[k];
    if (!w->up) { pthread_mutex_init(&w->mu, NULL); pthread_cond_init(&w->cv, NULL); w->job = NULL; w->up = 1; pthread_create(&w->th, NULL, work, w); pthread_detach(w->th); }
    pthread_mutex_lock(&w->mu); w->job = a; pthread_cond_broadcast(&w->cv); pthread_mutex_unlock(&w->mu);
}
static void finish(int k) {
    worker_t* w = &pool[k];
    pthread_mutex_lock(&w->mu); while (w->job) pthread_cond_wait(&w->cv, &w->mu); pthread_mutex_unlock(&w->mu);
}
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned flags) {
    (void) flags; init();
    if (!n) n = (unsigned) maxt;
    if (n > 64) n = 64;
    if (team) n = 1;                    /* nested regions run on one thread */
    int stid = tid, snt = nt; team_t* st = team; long sw = wsid, ss = singles; share_t* sc = cur;
    team_t t; memset(&t, 0, sizeof t);
    pthread_mutex_init(&t.mu, NULL); pthread_cond_init(&t.cv, NULL);
    t.n = (int) n; t.fn = fn; t.data = data; t.serial = serial && n > 1;
    int order[64], begin[64]; arg_t a[64]; pthread_t th[64];
    pthread_mutex_lock(&glob);
    regions++; if ((long) n > widest) widest = (long) n;
    for (int i = 0; i < (int) n; i++) order[i] = begin[i] = i;
    shuffle(order, (int) n); shuffle(begin, (int) n);
    if (n > 1) {
        uint64_t h = n; int mix = 0; const int* o = serial ? order : begin; for (int i = 0; i < (int) n; i++) { h = (h ^ (uint64_t) o[i]) * 1099511628211ull; if (o[i] != i) mix = 1; }
        reordered += mix; h ^= h >> 29; unsigned b = (unsigned)(h % 65536); if (!(seen[b / 8] & (1 << b % 8))) { seen[b / 8] |= (unsigned char)(1 << b % 8); distinct++; }
    }
    for (int i = 0; i < (int) n; i++) a[i] = (arg_t) { &t, i, maxus && n > 1 && !(rnd() & 3) ? (int)(rnd() % (uint64_t) maxus) : 0 };
    pthread_mutex_unlock(&glob);
    t.order = order;
    if (n == 1) { tid = 0; nt = 1; wsid = singles = 0; cur = NULL; team_t* mine = team; team = &t; fn(data); team = mine; }
    else {
        int zero = 0, own = __atomic_compare_exchange_n(&pool_busy, &zero, 1, 0, __ATOMIC_ACQUIRE, __ATOMIC_RELAXED);
        for (int i = 0; i < (int) n; i++) { int k = begin[i]; if (!k) continue; if (own) post(k, &a[k]); else pthread_create(&th[k], NULL, enter, &a[k]); }
        enter(&a[0]);
        for (int i = 1; i < (int) n; i++) { if (own) finish(i); else pthread_join(th[i], NULL); }
        if (own) __atomic_store_n(&pool_busy, 0, __ATOMIC_RELEASE);
    }
    tid = stid; nt = snt; team = st; wsid = sw; singles = ss; cur = sc;
    pthread_cond_destroy(&t.cv); pthread_mutex_destroy(&t.mu);
}
void GOMP_barrier(void) {
    team_t* t = team; if (!t || t->n == 1) return;
    if (t->serial) give(t);
    pthread_mutex_lock(&t->mu);
    unsigned g = t->gen;
    if (++t->arrived == t->n) {
        t->arrived = 0; t->gen++; __atomic_add_fetch(&barriers, 1, __ATOMIC_RELAXED);
        if (t->serial) { pthread_mutex_lock(&glob); shuffle(t->order, t->n); pthread_mutex_unlock(&glob); t->turn = 0; }
        pthread_cond_broadcast(&t->cv);
    } else while (g == t->gen) pthread_cond_wait(&t->cv, &t->mu);
    pthread_mutex_unlock(&t->mu);
    if (t->serial) take(t);
}
bool GOMP_cancel(int w, bool c) { (void) w; (void) c; return false; }
bool GOMP_cancellation_point(int w) { (void) w; return false; }
bool GOMP_barrier_cancel(void) { GOMP_barrier(); return false; }
void GOMP_critical_start(void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void** p) { (void) p; pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void** p) { (void) p; pthread_mutex_unlock(&crit); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }
bool GOMP_single_start(void) {
    team_t* t = team; if (!t) return true;
    pthread_mutex_lock(&t->mu); bool r = singles++ == t->single; if (r) t->single++; pthread_mutex_unlock(&t->mu); return r;
}
void* GOMP_single_copy_start(void) { if (GOMP_single_start()) return NULL; GOMP_barrier(); return team->copy; }
void GOMP_single_copy_end(void* d) { team->copy = d; GOMP_barrier(); }

/* loops whose chunks are handed out at run time */
static share_t alone;
static bool fetch(long* a, long* b) {
    share_t* s = cur; team_t* t = team; bool ok = false;
    if (t) pthread_mutex_lock(&t->mu);
    ull left = s->next < s->end ? s->end - s->next : 0;
    if (left) {
        ull c = s->chunk; if (s->guided && t && left / (ull)(2 * t->n) > c) c = left / (ull)(2 * t->n);
        if (c > left) c = left;
        *a = (long) s->next; *b = (long)(s->next + c); s->next += c; ok = true;
    }
    if (t) pthread_mutex_unlock(&t->mu);
    return ok;
}
/* iterations are numbered 0..n-1; the caller converts */
static __thread long l_start, l_incr;
static void open_(long start, long end, long incr, long chunk, int guided) {
    team_t* t = team; init();
    ull n = incr > 0 ? (end > start ? (ull)((end - start + incr - 1) / incr) : 0) : (end < start ? (ull)((start - end - incr - 1) / -incr) : 0);
    l_start = start; l_incr = incr;
    if (!t) { cur = &alone; alone = (share_t) { 0, 0, n, n ? n : 1, incr, 1, 0 }; return; }
    pthread_mutex_lock(&t->mu);
    long id = ++wsid; share_t* s = &t->share[id % SLOTS];
    if (s->id != id) *s = (share_t) { id, 0, n, chunk > 0 ? (ull) chunk : 1, incr, 1, guided };
    cur = s; pthread_mutex_unlock(&t->mu);
}
static bool step(long* a, long* b) { long i, j; if (!fetch(&i, &j)) return false; *a = l_start + i * l_incr; *b = l_start + j * l_incr; return true; }
#define LOOP(name, g) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { open_(s, e, i, c, g); return step(a, b); } \
    bool GOMP_loop_##name##_next(long* a, long* b) { return step(a, b); } \
    bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { (void) up; open_((long) s, (long) e, (long) i, (long) c, g); return step((long*) a, (long*) b); } \
    bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return step((long*) a, (long*) b); }
LOOP(dynamic, 0) LOOP(nonmonotonic_dynamic, 0) LOOP(guided, 1) LOOP(nonmonotonic_guided, 1) LOOP(static, 0)
#define LOOPR(name) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long* a, long* b) { open_(s, e, i, 1, 0); return step(a, b); } \
    bool GOMP_loop_##name##_next(long* a, long* b) { return step(a, b); } \
    bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull* a, ull* b) { (void) up; open_((long) s, (long) e, (long) i, 1, 0); return step((long*) a, (long*) b); } \
    bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return step((long*) a, (long*) b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_loop_end_cancel(void) { GOMP_barrier(); return false; }
typedef struct { void (*fn)(void*); void* data; long s, e, i, c; int g; } pl_t;
static void pl_body(void* p) { pl_t* q = p; open_(q->s, q->e, q->i, q->c, q->g); q->fn(q->data); }
#define PLOOP(name, g) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned f) { pl_t q = { fn, d, s, e, i, c, g }; GOMP_parallel(pl_body, &q, n, f); }
PLOOP(dynamic, 0) PLOOP(nonmonotonic_dynamic, 0) PLOOP(guided, 1) PLOOP(nonmonotonic_guided, 1) PLOOP(static, 0)
#define PLOOPR(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned f) { pl_t q = { fn, d, s, e, i, 1, 0 }; GOMP_parallel(pl_body, &q, n, f); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
/* sections are a loop over section numbers 1..n */
unsigned GOMP_sections_next(void) { long a, b; return step(&a, &b) ? (unsigned) a : 0; }
unsigned GOMP_sections_start(unsigned n) { open_(1, (long) n + 1, 1, 1, 0); return GOMP_sections_next(); }
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) {}
typedef struct { void (*fn)(void*); void* data; unsigned n; } ps_t;
static void ps_body(void* p) { ps_t* q = p; open_(1, (long) q->n + 1, 1, 1, 0); q->fn(q->data); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned f) { ps_t q = { fn, d, count }; GOMP_parallel(ps_body, &q, n, f); }

int omp_get_thread_num(void) { return tid; }
int omp_get_num_threads(void) { return nt; }
int omp_get_max_threads(void) { init(); return team ? 1 : maxt; }
void omp_set_num_threads(int n) { init(); if (n > 0) maxt = n > 64 ? 64 : n; }
int omp_get_num_procs(void) { return (int) sysconf(_SC_NPROCESSORS_ONLN); }
int omp_in_parallel(void) { return team && team->n > 1; }
