/* A small OpenMP runtime on POSIX threads, compiled with ThreadSanitizer in
   place of libgomp (whose futexes the sanitizer cannot see). It creates a team
   for every parallel region, and delays threads at random at the points where
   the schedule can change: region start, criticals, loop chunks. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#define WS 64
typedef struct { long id; long next, end, incr, chunk; bool up; int claimed; } work;
typedef struct {
    int n;
    pthread_mutex_t m;
    pthread_cond_t c;
    int waiting;
    unsigned long gen;
    work ws[WS];
} team;
typedef struct { team* t; int id; long ws; unsigned long rnd; void (*fn)(void*); void* data; } member;

static __thread member* self;
static int nset = 0;
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER, names = PTHREAD_MUTEX_INITIALIZER;
static unsigned long regions, seed0;
static long delay = -1;

static void nap(void)
{
    if (delay < 0)
    {
        const char* s = getenv("MINIOMP_DELAY");
        delay = s ? atol(s) : 0;
        s = getenv("MINIOMP_SEED");
        seed0 = s ? strtoul(s, 0, 10) : 1;
    }
    if (!delay || !self) return;
    self->rnd = self->rnd * 6364136223846793005UL + 1442695040888963407UL;
    unsigned long r = self->rnd >> 33;
    if (r % 4 == 0) usleep(r / 4 % (unsigned long)delay);
}

static int wanted(void)
{
    if (nset > 0) return nset;
    const char* s = getenv("OMP_NUM_THREADS");
    int n = s ? atoi(s) : 0;
    return n > 0 ? n : (int)sysconf(_SC_NPROCESSORS_ONLN);
}

/* what was seen: regions, largest team, times a lock changed hands, and a hash
   of the order in which threads took locks and loop chunks */
static unsigned long seen_locks, seen_hand, seen_chunks, seen_hash = 1469598103934665603UL;
static int seen_team, seen_last = -1;
static void seen_end(void)
{
    const char* f = getenv("MINIOMP_LOG");
    FILE* o = f ? fopen(f, "a") : 0;
    if (!o) return;
    fprintf(o, "%lu %d %lu %lu %lu %016lx\n", regions, seen_team, seen_locks, seen_hand, seen_chunks, seen_hash);
    fclose(o);
}
__attribute__((constructor)) static void seen_start(void) { atexit(seen_end); }
/* called with the lock held; the mutex would order the threads for the
   sanitizer, hence atomics without ordering */
static void seen(int kind)
{
    int id = self ? self->id : 0;
    unsigned long h = __atomic_load_n(&seen_hash, __ATOMIC_RELAXED);
    __atomic_store_n(&seen_hash, (h ^ (unsigned long)(kind * 1000 + id)) * 1099511628211UL, __ATOMIC_RELAXED);
    if (kind == 1)
    {
        __atomic_fetch_add(&seen_locks, 1, __ATOMIC_RELAXED);
        if (__atomic_exchange_n(&seen_last, id, __ATOMIC_RELAXED) != id) __atomic_fetch_add(&seen_hand, 1, __ATOMIC_RELAXED);
    } else __atomic_fetch_add(&seen_chunks, 1, __ATOMIC_RELAXED);
}

static void* body(void* p)
{
    member* m = p;
    self = m;
    nap();
    m->fn(m->data);
    nap();
    return 0;
}

static void run_team(void (*fn)(void*), void* data, unsigned n, const work* w)
{
    if (delay < 0) nap();
    if (self) n = 1;                 /* no nested parallelism */
    else if (!n) n = wanted();
    team* t = calloc(1, sizeof *t);
    t->n = n;
    pthread_mutex_init(&t->m, 0);
    pthread_cond_init(&t->c, 0);
    for (int i = 0; i < WS; i++) t->ws[i].id = -1;
    if (w) { t->ws[0] = *w; t->ws[0].id = 0; }
    member* mm = calloc(n, sizeof *mm);
    pthread_t* th = calloc(n, sizeof *th);
    regions++;
    if ((int)n > seen_team) seen_team = n;
    for (unsigned i = 0; i < n; i++)
    {
        mm[i] = (member){t, (int)i, w ? 0 : -1, (seed0 * 31 + regions) * 2654435761UL + i * 40503UL + 1, fn, data};
        if (i) pthread_create(&th[i], 0, body, &mm[i]);
    }
    member* old = self;
    body(&mm[0]);
    self = old;
    for (unsigned i = 1; i < n; i++) pthread_join(th[i], 0);
    pthread_mutex_destroy(&t->m);
    pthread_cond_destroy(&t->c);
    free(th); free(mm); free(t);
}

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned flags) { run_team(fn, data, n, 0); }

void GOMP_barrier(void)
{
    if (!self || self->t->n == 1) return;
    team* t = self->t;
    nap();
    pthread_mutex_lock(&t->m);
    unsigned long g = t->gen;
    if (++t->waiting == t->n) { t->waiting = 0; t->gen++; pthread_cond_broadcast(&t->c); }
    else while (t->gen == g) pthread_cond_wait(&t->c, &t->m);
    pthread_mutex_unlock(&t->m);
}

void GOMP_critical_start(void) { nap(); pthread_mutex_lock(&crit); seen(1); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); nap(); }
void GOMP_critical_name_start(void** p)
{
    nap();
    pthread_mutex_lock(&names);
    pthread_mutex_t* m = *p;
    if (!m) { m = malloc(sizeof *m); pthread_mutex_init(m, 0); *p = m; }
    pthread_mutex_unlock(&names);
    pthread_mutex_lock(m);
    seen(1);
}
void GOMP_critical_name_end(void** p)
{
    pthread_mutex_lock(&names);
    pthread_mutex_t* m = *p;
    pthread_mutex_unlock(&names);
    pthread_mutex_unlock(m);
    nap();
}
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }

static work* enter(const work* w, bool* first)
{
    team* t = self->t;
    long id = ++self->ws;
    work* x = &t->ws[id % WS];
    *first = false;
    if (x->id != id) { *x = *w; x->id = id; *first = true; }
    return x;
}

static bool take(work* x, long* a, long* b)
{
    bool more = x->incr > 0 ? x->next < x->end : x->next > x->end;
    if (more)
    {
        long c = x->next + x->chunk * x->incr;
        if (x->incr > 0 ? c > x->end : c < x->end) c = x->end;
        *a = x->next;
        *b = c;
        x->next = c;
        seen(2);
    }
    return more;
}

static member lone;
static team lonet;
static void ensure(void)
{
    if (self) return;
    lonet.n = 1;
    pthread_mutex_init(&lonet.m, 0);
    for (int i = 0; i < WS; i++) lonet.ws[i].id = -1;
    lone.t = &lonet;
    lone.ws = -1;
    self = &lone;
}

static bool loop_start(long s, long e, long inc, long chunk, long* a, long* b)
{
    ensure();
    work w = {0, s, e, inc, chunk > 0 ? chunk : 1, inc > 0, 0};
    bool first, r;
    nap();
    pthread_mutex_lock(&self->t->m);
    r = take(enter(&w, &first), a, b);
    pthread_mutex_unlock(&self->t->m);
    return r;
}

static bool loop_next(long* a, long* b)
{
    nap();
    pthread_mutex_lock(&self->t->m);
    bool r = take(&self->t->ws[self->ws % WS], a, b);
    pthread_mutex_unlock(&self->t->m);
    return r;
}

#define LOOP(kind) \
bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, a, b); } \
bool GOMP_loop_##kind##_next(long* a, long* b) { return loop_next(a, b); } \
bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { return loop_start((long)s, (long)e, (long)i, (long)c, (long*)a, (long*)b); } \
bool GOMP_loop_ull_##kind##_next(unsigned long long* a, unsigned long long* b) { return loop_next((long*)a, (long*)b); } \
void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned f) { work w = {0, s, e, i, c > 0 ? c : 1, i > 0, 0}; run_team(fn, d, n, &w); }
LOOP(static)
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)
#define RLOOP(kind) \
bool GOMP_loop_##kind##_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, 1, a, b); } \
bool GOMP_loop_##kind##_next(long* a, long* b) { return loop_next(a, b); } \
bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* a, unsigned long long* b) { return loop_start((long)s, (long)e, (long)i, 1, (long*)a, (long*)b); } \
bool GOMP_loop_ull_##kind##_next(unsigned long long* a, unsigned long long* b) { return loop_next((long*)a, (long*)b); } \
void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned f) { work w = {0, s, e, i, 1, i > 0, 0}; run_team(fn, d, n, &w); }
RLOOP(runtime)
RLOOP(nonmonotonic_runtime)
RLOOP(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) { }

bool GOMP_single_start(void)
{
    ensure();
    work w = {0};
    bool first;
    pthread_mutex_lock(&self->t->m);
    enter(&w, &first);
    pthread_mutex_unlock(&self->t->m);
    return first;
}

static unsigned section(bool start, unsigned count)
{
    long a, b;
    return (start ? loop_start(1, count + 1, 1, 1, &a, &b) : loop_next(&a, &b)) ? (unsigned)a : 0;
}
unsigned GOMP_sections_start(unsigned n) { return section(true, n); }
unsigned GOMP_sections_next(void) { return section(false, 0); }
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) { }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned f) { work w = {0, 1, count + 1, 1, 1, true, 0}; run_team(fn, d, n, &w); }
void GOMP_taskwait(void) { }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool ifc, unsigned flags, void** dep, int prio, void* detach)
{
    if (cpy)
    {
        char* buf = malloc(size + align);
        char* arg = (char*)(((unsigned long)buf + align - 1) & ~(unsigned long)(align - 1));
        cpy(arg, data);
        fn(arg);
        free(buf);
    } else fn(data);
}

int omp_get_thread_num(void) { return self ? self->id : 0; }
int omp_get_num_threads(void) { return self ? self->t->n : 1; }
int omp_get_max_threads(void) { return wanted(); }
void omp_set_num_threads(int n) { nset = n; }
int omp_get_num_procs(void) { return (int)sysconf(_SC_NPROCESSORS_ONLN); }
int omp_in_parallel(void) { return self && self->t->n > 1; }
int omp_get_level(void) { return self ? 1 : 0; }
int omp_get_thread_limit(void) { return 256; }
void omp_set_dynamic(int n) { }
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int n) { }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
double omp_get_wtick(void) { return 1e-9; }
typedef struct { pthread_mutex_t* m; } mlock;
void omp_init_lock(mlock* l) { l->m = malloc(sizeof(pthread_mutex_t)); pthread_mutex_init(l->m, 0); }
void omp_destroy_lock(mlock* l) { pthread_mutex_destroy(l->m); free(l->m); }
void omp_set_lock(mlock* l) { nap(); pthread_mutex_lock(l->m); seen(1); }
void omp_unset_lock(mlock* l) { pthread_mutex_unlock(l->m); nap(); }
int omp_test_lock(mlock* l) { return pthread_mutex_trylock(l->m) == 0; }
