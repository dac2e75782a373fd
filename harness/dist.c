/* A distribution plug-in (see the "dll" distribution of alsuq) whose numbers encode every
 * argument they were asked with. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef struct { double scale; int node, size; } par_t;
typedef struct { int size, dimension; par_t* p; } dat_t;
void* dist_make(void) { par_t* p = calloc(1, sizeof *p); p->node = p->size = -1; return p; }
void dist_set(void* v, const char* k, const char* x) {
    par_t* p = v;
    if (!strcmp(k, "scale")) p->scale = atof(x);
    if (!strcmp(k, "mpi_node")) p->node = atoi(x);
    if (!strcmp(k, "mpi_size")) p->size = atoi(x);
}
void dist_free(void* v) { free(v); }
void* dist_create(int size, int dimension, void* p) { dat_t* d = malloc(sizeof *d); d->size = size; d->dimension = dimension; d->p = p; return d; }
void dist_delete(void* v) { free(v); }
double dist_generate(void* v, int size, int dimension, int component, int sample, void* p) {
    dat_t* d = v;
    if (d->p != p || d->size != size || d->dimension != dimension || d->p->node < 0 || d->p->size < 1) return -1e6;
    return d->p->scale * (((component * 31 + sample * 17 + size * 7 + dimension * 3) % 1009) / 1009.0);
}
