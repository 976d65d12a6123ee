/* Fork-join OpenMP runtime on plain pthreads, so that a race detector sees the
   real ordering (the system's runtime synchronises with futexes, which it can
   not see).  Random delays at thread start (VF_GOMP_DELAY) vary the schedule.
   Covers what gfortran emits for parallel/do/single/critical/atomic/barrier. */
#include <pthread.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

struct loop { int gen; long next, end, incr, chunk; };
struct team {
    pthread_barrier_t bar;
    pthread_mutex_t mut;
    int n, single_gen;
    struct loop lp[64];
};
struct arg { void (*fn)(void *); void *data; int id; struct team *team; unsigned delay; };

static int g_n = 0;
static __thread int t_id = 0, t_n = 1, t_single = 0, t_loop = 0;
static __thread struct team *t_team;
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
static long regions, threads;

static int maxthreads(void)
{
    int n = __atomic_load_n(&g_n, __ATOMIC_ACQUIRE);
    if (n < 1) {
        const char *s = getenv("OMP_NUM_THREADS");
        n = s ? atoi(s) : 2;
        if (n < 1) n = 1;
    }
    return n > 64 ? 64 : n;
}

static void *run(void *p)
{
    struct arg *a = p;
    int sid = t_id, sn = t_n, ss = t_single, sl = t_loop;
    struct team *st = t_team;
    t_id = a->id; t_n = a->team->n; t_team = a->team; t_single = 0; t_loop = 0;
    if (a->delay) {
        struct timespec ts = {0, a->delay};
        nanosleep(&ts, 0);
    }
    a->fn(a->data);
    t_id = sid; t_n = sn; t_team = st; t_single = ss; t_loop = sl;
    return 0;
}

static void fork_join(void (*fn)(void *), void *data, unsigned nt, struct loop *lp)
{
    static unsigned seed;
    int n = nt ? (int)nt : maxthreads();
    if (n > 64) n = 64;
    if (t_n > 1) n = 1;
    const char *ds = getenv("VF_GOMP_DELAY");
    unsigned dmax = ds ? (unsigned)atoi(ds) : 0;
    pthread_t th[64];
    struct arg a[64];
    struct team *tm = calloc(1, sizeof *tm);
    tm->n = n;
    pthread_barrier_init(&tm->bar, 0, n);
    pthread_mutex_init(&tm->mut, 0);
    if (lp) { tm->lp[0] = *lp; tm->lp[0].gen = 1; }
    __atomic_add_fetch(&regions, 1, __ATOMIC_RELAXED);
    __atomic_add_fetch(&threads, n, __ATOMIC_RELAXED);
    for (int i = 0; i < n; i++) {
        unsigned s = __atomic_add_fetch(&seed, 2654435761u, __ATOMIC_RELAXED);
        s ^= s >> 13; s *= 2246822519u; s ^= s >> 16;
        a[i] = (struct arg){fn, data, i, tm, dmax && s % 3 == 0 ? s % dmax : 0};
    }
    for (int i = 1; i < n; i++)
        if (pthread_create(&th[i], 0, run, &a[i])) abort();
    run(&a[0]);
    for (int i = 1; i < n; i++) pthread_join(th[i], 0);
    pthread_barrier_destroy(&tm->bar);
    pthread_mutex_destroy(&tm->mut);
    free(tm);
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned flags)
{ (void)flags; fork_join(fn, data, nt, 0); }

void GOMP_barrier(void) { if (t_n > 1) pthread_barrier_wait(&t_team->bar); }
void GOMP_critical_start(void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void **p) { (void)p; pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void **p) { (void)p; pthread_mutex_unlock(&crit); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }

bool GOMP_single_start(void)
{
    if (t_n < 2) return true;
    pthread_mutex_lock(&t_team->mut);
    bool first = t_team->single_gen == t_single;
    if (first) t_team->single_gen++;
    t_single++;
    pthread_mutex_unlock(&t_team->mut);
    return first;
}

/* work shared loops with a dynamic schedule: a counter under a lock */
static struct loop solo;
static bool next(long *s, long *e)
{
    struct loop *l = t_team ? &t_team->lp[(t_loop - 1) & 63] : &solo;
    bool ok;
    if (t_team) pthread_mutex_lock(&t_team->mut);
    ok = l->incr > 0 ? l->next < l->end : l->next > l->end;
    if (ok) {
        long x = l->next + l->chunk * l->incr;
        if (l->incr > 0 ? x > l->end : x < l->end) x = l->end;
        *s = l->next; *e = x; l->next = x;
    }
    if (t_team) pthread_mutex_unlock(&t_team->mut);
    return ok;
}
static bool start(long st, long en, long inc, long ch, long *s, long *e)
{
    struct loop *l;
    t_loop++;
    if (t_team) {
        pthread_mutex_lock(&t_team->mut);
        l = &t_team->lp[(t_loop - 1) & 63];
    } else
        l = &solo;
    if (l->gen != t_loop || !t_team)
        *l = (struct loop){t_loop, st, en, inc, ch > 0 ? ch : 1};
    if (t_team) pthread_mutex_unlock(&t_team->mut);
    return next(s, e);
}
#define LOOP(kind) \
 bool GOMP_loop_##kind##_start(long a, long b, long c, long d, long *s, long *e) { return start(a, b, c, d, s, e); } \
 bool GOMP_loop_##kind##_next(long *s, long *e) { return next(s, e); } \
 void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned nt, long a, long b, long c, long d, unsigned f) \
 { struct loop l = {1, a, b, c, d > 0 ? d : 1}; (void)f; fork_join(fn, data, nt, &l); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define RLOOP(kind) \
 bool GOMP_loop_##kind##_start(long a, long b, long c, long *s, long *e) { return start(a, b, c, 1, s, e); } \
 bool GOMP_loop_##kind##_next(long *s, long *e) { return next(s, e); } \
 void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned nt, long a, long b, long c, unsigned f) \
 { struct loop l = {1, a, b, c, 1}; (void)f; fork_join(fn, data, nt, &l); }
RLOOP(runtime) RLOOP(maybe_nonmonotonic_runtime) RLOOP(nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}

int omp_get_thread_num(void) { return t_id; }
int omp_get_num_threads(void) { return t_n; }
int omp_get_max_threads(void) { return maxthreads(); }
void omp_set_num_threads(int n) { if (n > 0) __atomic_store_n(&g_n, n, __ATOMIC_RELEASE); }
int omp_in_parallel(void) { return t_n > 1; }
int omp_get_num_procs(void) { return 8; }
double omp_get_wtime(void)
{ struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
int omp_get_thread_num_(void) { return t_id; }
int omp_get_num_threads_(void) { return t_n; }
int omp_get_max_threads_(void) { return maxthreads(); }
void omp_set_num_threads_(int *n) { omp_set_num_threads(*n); }
int omp_in_parallel_(void) { return t_n > 1; }
int omp_get_num_procs_(void) { return 8; }
double omp_get_wtime_(void) { return omp_get_wtime(); }
void omp_set_dynamic_(int *n) { (void)n; }

long vf_gomp_regions(void) { return regions; }
long vf_gomp_threads(void) { return threads; }
