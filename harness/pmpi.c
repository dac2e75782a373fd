/* MPI monitor and delay injector (LD_PRELOAD).  Delays calls by pseudo-random
 * times (ALSPMPI_SEED, ALSPMPI_US), overwrites receive buffers with NaN when a
 * receive is posted, checks that send buffers are left alone until the send is
 * complete, that messages of a receive have the announced size, and that no
 * request is left over at MPI_Finalize.  It records the thread level granted and the calling
 * threads.  Results are appended to $ALSPMPI_OUT.<rank>. */
#define _GNU_SOURCE
#include <math.h>
#include <mpi.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

typedef struct { MPI_Request r; int send; const void* buf; int count; MPI_Datatype t; uint64_t hash; MPI_Comm c; } rec_t;
#define MAX 65536
static rec_t recs[MAX];
static int nrec = 0;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static long n_send, n_recv, n_wait, n_coll, changed, truncated_, leftover, concurrent, offthread, delays_;
static int level = -1, inside = 0;
static pid_t main_tid;
static uint64_t rng = 0;
static int maxus = 0, off = 0;
static int rank = 0;

static void setup(void) {
    main_tid = (pid_t) syscall(SYS_gettid);
    PMPI_Comm_rank(MPI_COMM_WORLD, &rank);
    const char* s = getenv("ALSPMPI_SEED"); rng = (s ? strtoull(s, 0, 10) : 1) * 0x9E3779B97F4A7C15ull + (uint64_t) rank * 0xD1B54A32D192ED03ull + 1;
    s = getenv("ALSPMPI_US"); maxus = s ? atoi(s) : 0;
}
static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static void delay(void) {
    if (!maxus) return;
    pthread_mutex_lock(&mu); uint64_t x = rnd(); delays_++; pthread_mutex_unlock(&mu);
    if (x & 3) usleep((useconds_t)((x >> 8) % (uint64_t) maxus));
}
static void enter(void) {
    int k = __atomic_add_fetch(&inside, 1, __ATOMIC_SEQ_CST);
    if (k > 1) __atomic_add_fetch(&concurrent, 1, __ATOMIC_SEQ_CST);
    if ((pid_t) syscall(SYS_gettid) != main_tid) __atomic_add_fetch(&offthread, 1, __ATOMIC_SEQ_CST);
}
static void leave(void) { __atomic_sub_fetch(&inside, 1, __ATOMIC_SEQ_CST); }
static uint64_t hash(const void* buf, int count, MPI_Datatype t, MPI_Comm c) {
    int n = 0, pos = 0; PMPI_Pack_size(count, t, c, &n);
    unsigned char* p = malloc((size_t) n + 1);
    PMPI_Pack(buf, count, t, p, n, &pos, c);
    uint64_t h = 1469598103934665603ull; for (int i = 0; i < pos; i++) h = (h ^ p[i]) * 1099511628211ull;
    free(p); return h;
}
static void poison(void* buf, int count, MPI_Datatype t, MPI_Comm c) {
    int n = 0, pos = 0; PMPI_Pack_size(count, t, c, &n);
    unsigned char* p = malloc((size_t) n + 1); memset(p, 0xff, (size_t) n + 1);
    int sz = 0; PMPI_Type_size(t, &sz);
    if (sz * count <= n) PMPI_Unpack(p, n, &pos, buf, count, t, c);
    free(p);
}
static void add(MPI_Request r, int send, const void* buf, int count, MPI_Datatype t, MPI_Comm c, uint64_t h) {
    pthread_mutex_lock(&mu);
    int i = -1;
    for (int k = 0; k < nrec; k++) if (!recs[k].buf) { i = k; break; }
    if (i < 0 && nrec < MAX) i = nrec++;
    if (i >= 0) recs[i] = (rec_t) { r, send, buf, count, t, h, c };
    pthread_mutex_unlock(&mu);
}
/* Under ThreadSanitizer: tell it which memory a message reads or writes (libmpi is not instrumented). */
extern void __tsan_read_range(void*, unsigned long) __attribute__((weak));
extern void __tsan_write_range(void*, unsigned long) __attribute__((weak));
static long touched;
static void touch(const void* buf, int n, MPI_Datatype t, int wr) {
    void (*f)(void*, unsigned long) = wr ? __tsan_write_range : __tsan_read_range;
    if (!f || n <= 0) return;
    int ni, na, nd, comb;
    MPI_Aint lb, ext; PMPI_Type_get_extent(t, &lb, &ext);
    PMPI_Type_get_envelope(t, &ni, &na, &nd, &comb);
    if (comb == MPI_COMBINER_INDEXED && nd == 1) {
        int* I = malloc(sizeof(int) * (size_t) (ni + 1)); MPI_Aint* A = malloc(sizeof(MPI_Aint) * (size_t) (na + 1)); MPI_Datatype D[1];
        PMPI_Type_get_contents(t, ni, na, nd, I, A, D);
        MPI_Aint l1, e1; PMPI_Type_get_extent(D[0], &l1, &e1);
        for (int k = 0; k < n; k++) for (int i = 0; i < I[0]; i++) if (I[1 + i] > 0) {
            f((char*) buf + k * ext + I[1 + I[0] + i] * e1, (unsigned long) (I[1 + i] * e1)); __atomic_add_fetch(&touched, 1, __ATOMIC_RELAXED);
        }
        int x, y, z, c2; PMPI_Type_get_envelope(D[0], &x, &y, &z, &c2); if (c2 != MPI_COMBINER_NAMED) PMPI_Type_free(&D[0]);
        free(I); free(A);
    } else if (comb == MPI_COMBINER_NAMED) { f((void*) buf, (unsigned long) (n * ext)); __atomic_add_fetch(&touched, 1, __ATOMIC_RELAXED); }
    /* other types: nothing is claimed about the memory they cover */
}
static int world_sized(MPI_Comm c) { (void) c; return 1; }

int MPI_Init(int* a, char*** b) { int e = PMPI_Init(a, b); setup(); level = MPI_THREAD_SINGLE; return e; }
int MPI_Init_thread(int* a, char*** b, int req, int* prov) { int e = PMPI_Init_thread(a, b, req, prov); setup(); level = *prov; return e; }
int MPI_Isend(const void* buf, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) {
    enter(); delay(); __atomic_add_fetch(&n_send, 1, __ATOMIC_SEQ_CST);
    touch(buf, n, t, 0);
    uint64_t h = hash(buf, n, t, c);
    int e = PMPI_Isend(buf, n, t, d, tag, c, r);
    add(*r, 1, buf, n, t, c, h); leave(); return e;
}
int MPI_Irecv(void* buf, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* r) {
    enter(); delay(); __atomic_add_fetch(&n_recv, 1, __ATOMIC_SEQ_CST);
    touch(buf, n, t, 1);
    if (world_sized(c)) poison(buf, n, t, c);
    int e = PMPI_Irecv(buf, n, t, s, tag, c, r);
    add(*r, 0, buf, n, t, c, 0); leave(); return e;
}
static void done(MPI_Request r, MPI_Status* st) {
    rec_t q; int found = 0;
    pthread_mutex_lock(&mu);
    for (int k = 0; k < nrec; k++) if (recs[k].buf && recs[k].r == r) { q = recs[k]; recs[k].buf = NULL; found = 1; break; }
    pthread_mutex_unlock(&mu);
    if (!found) return;
    touch(q.buf, q.count, q.t, !q.send);
    if (q.send) { if (hash(q.buf, q.count, q.t, q.c) != q.hash) __atomic_add_fetch(&changed, 1, __ATOMIC_SEQ_CST); }
    else {
        int got = 0, sz = 0; PMPI_Get_elements(st, MPI_DOUBLE, &got); PMPI_Type_size(q.t, &sz);
        if (got != MPI_UNDEFINED && (long) got * 8 != (long) sz * q.count) __atomic_add_fetch(&truncated_, 1, __ATOMIC_SEQ_CST);
    }
}
int MPI_Wait(MPI_Request* r, MPI_Status* s) {
    enter(); delay(); __atomic_add_fetch(&n_wait, 1, __ATOMIC_SEQ_CST);
    MPI_Request old = *r; MPI_Status mine;
    int e = PMPI_Wait(r, &mine); if (s != MPI_STATUS_IGNORE) *s = mine;
    if (old != MPI_REQUEST_NULL) done(old, &mine);
    leave(); return e;
}
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* s) {
    int e = MPI_SUCCESS;
    for (int i = 0; i < n; i++) { int x = MPI_Wait(&r[i], s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &s[i]); if (x) e = x; }
    return e;
}
int MPI_Test(MPI_Request* r, int* f, MPI_Status* s) {
    enter(); MPI_Request old = *r; MPI_Status mine;
    int e = PMPI_Test(r, f, &mine); if (s != MPI_STATUS_IGNORE) *s = mine;
    if (*f && old != MPI_REQUEST_NULL) done(old, &mine);
    leave(); return e;
}
int MPI_Allreduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) {
    enter(); delay(); __atomic_add_fetch(&n_coll, 1, __ATOMIC_SEQ_CST);
    int e = PMPI_Allreduce(a, b, n, t, o, c); leave(); return e;
}
int MPI_Reduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) {
    enter(); delay(); __atomic_add_fetch(&n_coll, 1, __ATOMIC_SEQ_CST);
    int e = PMPI_Reduce(a, b, n, t, o, root, c); leave(); return e;
}
int MPI_Barrier(MPI_Comm c) { enter(); delay(); __atomic_add_fetch(&n_coll, 1, __ATOMIC_SEQ_CST); int e = PMPI_Barrier(c); leave(); return e; }
int MPI_Finalize(void) {
    for (int k = 0; k < nrec; k++) if (recs[k].buf) leftover++;
    const char* o = getenv("ALSPMPI_OUT");
    if (o) {
        char name[4096]; snprintf(name, sizeof name, "%s.%d", o, rank);
        FILE* f = fopen(name, "w");
        if (f) {
            fprintf(f, "{\"level\": %d, \"sends\": %ld, \"recvs\": %ld, \"waits\": %ld, \"collectives\": %ld, \"changed\": %ld, \"truncated\": %ld,"
                    " \"leftover\": %ld, \"concurrent\": %ld, \"offthread\": %ld, \"delays\": %ld, \"touched\": %ld, \"funneled\": %d, \"serialized\": %d, \"multiple\": %d}\n", level, n_send, n_recv, n_wait, n_coll, changed,
                    truncated_, leftover, concurrent, offthread, delays_, touched, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE);
            fclose(f);
        }
    }
    (void) off;
    return PMPI_Finalize();
}
