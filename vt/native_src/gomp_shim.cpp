// A small OpenMP runtime on plain pthreads, so that ThreadSanitizer sees every
// synchronisation (the system libgomp is not instrumented and would give false races).
// Covers what gcc emits for parallel regions and static/dynamic/guided loops, critical,
// single, atomic regions and barriers.
#include <pthread.h>
#include <stdlib.h>

namespace {
struct Team {
    int n;
    pthread_barrier_t bar;
    pthread_mutex_t mu;
    long next, end, incr, chunk;
    int loop_gen;
    int single_taken;
};
thread_local int tid = 0;
thread_local Team* team = 0;
thread_local int my_loop_gen = 0;
thread_local int my_single = 0;
int max_threads = 4;
pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
struct Arg { void (*fn)(void*); void* data; Team* t; int id; };
void* run(void* p) {
    Arg* a = (Arg*)p;
    tid = a->id; team = a->t; my_loop_gen = 0; my_single = 0;
    a->fn(a->data);
    return 0;
}
}

extern "C" {
int omp_get_thread_num() { return tid; }
int omp_get_num_threads() { return team ? team->n : 1; }
int omp_get_max_threads() { return max_threads; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return team != 0; }
void omp_set_num_threads(int n) { max_threads = n > 0 ? n : 1; }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
    if (team) {  // nested: serial
        Team* s = team; int st = tid; team = 0; tid = 0; fn(data); team = s; tid = st; return;
    }
    if (n == 0) n = max_threads;
    if (n > 16) n = 16;
    Team t;
    t.n = n; t.loop_gen = 0; t.single_taken = 0;
    pthread_barrier_init(&t.bar, 0, n);
    pthread_mutex_init(&t.mu, 0);
    pthread_t th[16];
    Arg a[16];
    for (unsigned i = 0; i < n; i++) { a[i].fn = fn; a[i].data = data; a[i].t = &t; a[i].id = i; }
    for (unsigned i = 1; i < n; i++) pthread_create(&th[i], 0, run, &a[i]);
    run(&a[0]);
    for (unsigned i = 1; i < n; i++) pthread_join(th[i], 0);
    team = 0; tid = 0;
    pthread_barrier_destroy(&t.bar);
    pthread_mutex_destroy(&t.mu);
}
void GOMP_barrier() { if (team) pthread_barrier_wait(&team->bar); }
void GOMP_critical_start() { pthread_mutex_lock(&crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void**) { pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void**) { pthread_mutex_unlock(&crit); }
void GOMP_atomic_start() { pthread_mutex_lock(&crit); }
void GOMP_atomic_end() { pthread_mutex_unlock(&crit); }
bool GOMP_single_start() {
    if (!team) return true;
    pthread_mutex_lock(&team->mu);
    bool r = team->single_taken == my_single;
    my_single++;
    if (r) team->single_taken++;
    pthread_mutex_unlock(&team->mu);
    return r;
}
static bool take(long* is, long* ie) {
    Team* t = team;
    pthread_mutex_lock(&t->mu);
    bool more = t->incr > 0 ? t->next < t->end : t->next > t->end;
    if (more) {
        *is = t->next;
        long e = t->next + t->chunk * t->incr;
        if (t->incr > 0 ? e > t->end : e < t->end) e = t->end;
        *ie = e;
        t->next = e;
    }
    pthread_mutex_unlock(&t->mu);
    return more;
}
static bool start(long s, long e, long inc, long ch, long* is, long* ie) {
    if (!team) { *is = s; *ie = e; return s != e; }
    pthread_mutex_lock(&team->mu);
    if (team->loop_gen == my_loop_gen) {
        team->loop_gen++;
        team->next = s; team->end = e; team->incr = inc; team->chunk = ch > 0 ? ch : 1;
    }
    my_loop_gen++;
    pthread_mutex_unlock(&team->mu);
    return take(is, ie);
}
bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long* a, long* b) { return start(s, e, i, c, a, b); }
bool GOMP_loop_guided_start(long s, long e, long i, long c, long* a, long* b) { return start(s, e, i, c, a, b); }
bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long* a, long* b) { return start(s, e, i, c, a, b); }
bool GOMP_loop_nonmonotonic_guided_start(long s, long e, long i, long c, long* a, long* b) { return start(s, e, i, c, a, b); }
bool GOMP_loop_dynamic_next(long* a, long* b) { return team ? take(a, b) : false; }
bool GOMP_loop_guided_next(long* a, long* b) { return team ? take(a, b) : false; }
bool GOMP_loop_nonmonotonic_dynamic_next(long* a, long* b) { return team ? take(a, b) : false; }
bool GOMP_loop_nonmonotonic_guided_next(long* a, long* b) { return team ? take(a, b) : false; }
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
}
