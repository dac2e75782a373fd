/* Step recorder: a writer plug-in (plain C ABI, see the "dll" writer of alsvinn)
 * loaded by the production executables.  It appends every array it is handed,
 * ghost cells included, to one binary log per process and writer instance, and
 * flushes after every step so that the log survives an abort of the host.
 *
 * Log format (native endianness), repeated:
 *   'STEP' int32 step, double time
 *   'VARI' int32 namelen, name, int32 nx ny nz ngx ngy ngz, double ax ay az bx by bz, doubles
 *   'ENDS' int32 step, double time
 *   'FINI' on orderly finalisation
 * The log starts with 'ALSR' int32 rank, int32 size, int32 instance and
 * 'PARA' int32 len key, int32 len value for every parameter received. */
#include <mpi.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

typedef struct { char base[2048]; char** kv; int n; int rank, size; int skip; } params_t;
typedef struct { FILE* f; params_t* p; int instance; int steps; } data_t;
/* counts the instances of this process; kept in the environment because the library
 * may be unloaded and loaded again between two instances */
static int next_instance(void) {
    const char* e = getenv("ALSREC_COUNT"); long pid = 0; int n = 0;
    if (!e || sscanf(e, "%ld:%d", &pid, &n) != 2 || pid != (long) getpid()) n = 0;
    char v[64]; snprintf(v, sizeof v, "%ld:%d", (long) getpid(), n + 1); setenv("ALSREC_COUNT", v, 1);
    return n;
}
/* ALSREC_MAX: the run ends, on all processes, after this many recorded steps */
static void cap(int steps) {
    const char* m = getenv("ALSREC_MAX");
    if (m && steps >= atoi(m)) { int i = 0; MPI_Initialized(&i); if (i) MPI_Finalize(); fflush(NULL); _exit(0); }
}

static void put(FILE* f, const void* p, size_t n) { if (f && fwrite(p, 1, n, f) != n) { perror("recorder"); exit(97); } }
static void i32(FILE* f, int32_t v) { put(f, &v, 4); }
static void f64(FILE* f, double v) { put(f, &v, 8); }
static void str(FILE* f, const char* s) { int32_t n = (int32_t) strlen(s); i32(f, n); put(f, s, n); }

void* rec_make_parameters(void) {
    params_t* p = calloc(1, sizeof(*p)); p->rank = -1; p->size = -1; return p;
}
void rec_set_parameter(void* v, const char* key, const char* value) {
    params_t* p = v;
    if (!strcmp(key, "logfile")) { snprintf(p->base, sizeof p->base, "%s", value); return; }
    p->kv = realloc(p->kv, sizeof(char*) * 2 * (p->n + 1));
    p->kv[2 * p->n] = strdup(key); p->kv[2 * p->n + 1] = strdup(value); p->n++;
}
void rec_delete_parameters(void* v) { params_t* p = v; for (int i = 0; i < 2 * p->n; i++) free(p->kv[i]); free(p->kv); free(p); }
void* rec_create(const char* name, const char* version, void* v) {
    data_t* d = calloc(1, sizeof(*d)); d->p = v; d->instance = next_instance(); (void) name; (void) version; return d;
}
static void open_log(data_t* d) {
    if (d->f) return;
    int wr = 0, init = 0; MPI_Initialized(&init); if (init) MPI_Comm_rank(MPI_COMM_WORLD, &wr);
    char name[2300];
    snprintf(name, sizeof name, "%s_w%d_i%d.rec", d->p->base, wr, d->instance);
    d->f = fopen(name, "wb"); if (!d->f) { perror(name); exit(97); }
    put(d->f, "ALSR", 4); i32(d->f, d->p->rank); i32(d->f, d->p->size); i32(d->f, d->instance);
    for (int i = 0; i < d->p->n; i++) { put(d->f, "PARA", 4); str(d->f, d->p->kv[2 * i]); str(d->f, d->p->kv[2 * i + 1]); }
}
void rec_delete(void* v) { data_t* d = v; open_log(d); put(d->f, "FINI", 4); fclose(d->f); free(d); }
void rec_set_mpi_comm(void* v, void* pv, MPI_Comm c) {
    params_t* p = pv; (void) v; MPI_Comm_rank(c, &p->rank); MPI_Comm_size(c, &p->size);
}
bool rec_needs_host(void* v, void* p) { (void) v; (void) p; return true; }
void rec_new_timestep(void* v, void* p, double t, int step) {
    data_t* d = v; (void) p; open_log(d); put(d->f, "STEP", 4); i32(d->f, step); f64(d->f, t);
}
void rec_end_timestep(void* v, void* p, double t, int step) {
    data_t* d = v; (void) p; put(d->f, "ENDS", 4); i32(d->f, step); f64(d->f, t); fflush(d->f);
    cap(++d->steps);
}
/* ALSREC_POKE="rank:step:name:i:j:k:value;...": fault injection, overwrites an interior cell
 * of the state just recorded (the host hands out its own memory) */
static void poke(data_t* d, const char* name, double* x, int nx, int ny, int gx, int gy, int gz) {
    const char* e = getenv("ALSREC_POKE"); int wr = 0, init = 0;
    if (!e) return;
    MPI_Initialized(&init); if (init) MPI_Comm_rank(MPI_COMM_WORLD, &wr);
    while (e && *e) {
        int r, s, i, j, k; char n[64], val[64];
        if (sscanf(e, "%d:%d:%63[^:]:%d:%d:%d:%63[^;]", &r, &s, n, &i, &j, &k, val) == 7 && r == wr && s == d->steps && !strcmp(n, name))
            x[i + gx + (size_t) (nx + 2 * gx) * (j + gy + (size_t) (ny + 2 * gy) * (k + gz))] = strtod(val, NULL);
        e = strchr(e, ';'); if (e) e++;
    }
}
void rec_write(void* v, void* p, double t, const char* name, const double* x, int nx, int ny, int nz,
    int gx, int gy, int gz, double ax, double ay, double az, double bx, double by, double bz, int gpu) {
    data_t* d = v; (void) p; (void) t; (void) gpu;
    put(d->f, "VARI", 4); str(d->f, name);
    i32(d->f, nx); i32(d->f, ny); i32(d->f, nz); i32(d->f, gx); i32(d->f, gy); i32(d->f, gz);
    f64(d->f, ax); f64(d->f, ay); f64(d->f, az); f64(d->f, bx); f64(d->f, by); f64(d->f, bz);
    put(d->f, x, sizeof(double) * (size_t)(nx + 2 * gx) * (ny + 2 * gy) * (nz + 2 * gz));
    poke(d, name, (double*) x, nx, ny, gx, gy, gz);
}
