// Stress driver for the C++ exact OT entry points, linked against the current
// EMD_wrapper.cpp under ThreadSanitizer or MemorySanitizer.
//   driver omp  SEED N      every case through EMD_wrap_omp with 2..8 threads
//   driver conc SEED N      8 pthreads each solving their own problems at once
//   driver seq  SEED N      all entry points, one thread (for MSan)
// Prints one line "calls=.. optimal=.. infeasible=.. maxiter=.. checked=.." .
#include "EMD.h"
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <atomic>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    int in(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }
};

static std::atomic<long> calls(0), optimal(0), infeasible(0), maxit(0), bad(0);

static void weights(Rng& r, double* w, int n) {
    int kind = r.in(0, 3);
    double s = 0;
    for (int i = 0; i < n; i++) {
        if (kind == 0) w[i] = 1;
        else if (kind == 1) w[i] = r.u() + 1e-3;
        else if (kind == 2) w[i] = r.u() < 0.4 ? 0 : r.u() + 1e-2;
        else w[i] = pow(10, -6 * r.u());
        s += w[i];
    }
    if (s == 0) { w[0] = 1; s = 1; }
    for (int i = 0; i < n; i++) w[i] /= s;
}

static void account(int rc) {
    calls++;
    if (rc == OPTIMAL) optimal++;
    else if (rc == MAX_ITER_REACHED) maxit++;
    else infeasible++;
}

static void one(Rng& r, int what, int threads, int big) {
    int n = r.in(1, big), m = r.in(1, big);
    if (r.in(0, 9) == 0) n = 1;
    if (r.in(0, 9) == 0) m = 1;
    double* a = (double*)malloc(n * sizeof(double));
    double* b = (double*)malloc(m * sizeof(double));
    double* D = (double*)malloc(sizeof(double) * n * m);
    double* al = (double*)calloc(n, sizeof(double));
    double* be = (double*)calloc(m, sizeof(double));
    double cost = 0;
    weights(r, a, n);
    weights(r, b, m);
    int kc = r.in(0, 3);
    for (int k = 0; k < n * m; k++)
        D[k] = kc == 0 ? r.u() : kc == 1 ? (double)r.in(0, 2) : kc == 2 ? r.u() - 0.5 : 1e5 * r.u();
    uint64_t iters = r.in(0, 4) == 0 ? (uint64_t)r.in(1, 8) : 100000;
    double *ai = NULL, *bi = NULL;
    if (what != 1 && r.in(0, 2) == 0) {
        ai = (double*)malloc(n * sizeof(double));
        bi = (double*)malloc(m * sizeof(double));
        for (int i = 0; i < n; i++) ai[i] = r.u();
        for (int i = 0; i < m; i++) bi[i] = -r.u();
    }
    int rc;
    if (what <= 1) {
        double* G = (double*)calloc((size_t)n * m, sizeof(double));
        rc = what == 0 ? EMD_wrap(n, m, a, b, D, G, al, be, &cost, iters, ai, bi)
                       : EMD_wrap_omp(n, m, a, b, D, G, al, be, &cost, iters, threads);
        if (rc == OPTIMAL)
            for (int i = 0; i < n; i++) {
                double s = 0;
                for (int j = 0; j < m; j++) s += G[(size_t)i * m + j];
                if (!(fabs(s - a[i]) < 1e-7)) bad++;
            }
        free(G);
    } else if (what == 2) {
        uint64_t ne = 0;
        uint64_t cap = (uint64_t)n * m;
        uint64_t *es = (uint64_t*)malloc(cap * 8), *et = (uint64_t*)malloc(cap * 8);
        double* ec = (double*)malloc(cap * 8);
        double p = r.u();
        for (int i = 0; i < n; i++)
            for (int j = 0; j < m; j++)
                if (r.u() < p || (i == 0) || (j == 0)) { es[ne] = i; et[ne] = j; ec[ne] = D[i * m + j]; ne++; }
        uint64_t *fs = (uint64_t*)calloc(ne, 8), *ft = (uint64_t*)calloc(ne, 8), nf = 0;
        double* fv = (double*)calloc(ne, 8);
        rc = EMD_wrap_sparse(n, m, a, b, ne, es, et, ec, fs, ft, fv, &nf, ne, al, be, &cost, iters, ai, bi);
        double s = 0;
        for (uint64_t k = 0; k < nf; k++) { s += fv[k]; if (fs[k] >= (uint64_t)n || ft[k] >= (uint64_t)m) bad++; }
        if (rc == OPTIMAL && !(fabs(s - 1) < 1e-6)) bad++;
        free(es); free(et); free(ec); free(fs); free(ft); free(fv);
    } else {
        int d = r.in(1, 4);
        double *X = (double*)malloc(sizeof(double) * n * d), *Y = (double*)malloc(sizeof(double) * m * d);
        for (int i = 0; i < n * d; i++) X[i] = r.u();
        for (int i = 0; i < m * d; i++) Y[i] = r.u();
        uint64_t cap = (uint64_t)n + m + 2;
        cap = (uint64_t)n * m > cap ? cap : (uint64_t)n * m;
        cap = (uint64_t)(n + m - 1);
        uint64_t *fs = (uint64_t*)calloc(cap, 8), *ft = (uint64_t*)calloc(cap, 8), nf = 0;
        double* fv = (double*)calloc(cap, 8);
        rc = EMD_wrap_lazy(n, m, a, b, X, Y, d, r.in(0, 2), fs, ft, fv, &nf, cap, al, be, &cost, iters, ai, bi);
        double s = 0;
        for (uint64_t k = 0; k < nf; k++) s += fv[k];
        if (rc == OPTIMAL && !(fabs(s - 1) < 1e-6)) bad++;
        free(X); free(Y); free(fs); free(ft); free(fv);
    }
    // consume every output: uninitialised results become visible to MSan
    double t = cost;
    for (int i = 0; i < n; i++) t += al[i];
    for (int i = 0; i < m; i++) t += be[i];
    if (t != t) bad++;
    account(rc);
    free(a); free(b); free(D); free(al); free(be); free(ai); free(bi);
}

struct Job { uint64_t seed; int n; };

static void* worker(void* p) {
    Job* j = (Job*)p;
    Rng r(j->seed);
    for (int k = 0; k < j->n; k++) {
        int w = r.in(0, 2);
        one(r, w == 0 ? 0 : w == 1 ? 2 : 3, 1, 30);
    }
    return NULL;
}

int main(int argc, char** argv) {
    if (argc < 4) return 9;
    uint64_t seed = strtoull(argv[2], NULL, 10);
    int n = atoi(argv[3]);
    if (!strcmp(argv[1], "omp")) {
        Rng r(seed);
        for (int k = 0; k < n; k++) one(r, 1, r.in(2, 8), 45);
    } else if (!strcmp(argv[1], "conc")) {
        pthread_t t[8];
        Job j[8];
        for (int i = 0; i < 8; i++) {
            j[i].seed = seed * 131 + i;
            j[i].n = n;
            pthread_create(&t[i], NULL, worker, &j[i]);
        }
        for (int i = 0; i < 8; i++) pthread_join(t[i], NULL);
    } else {
        Rng r(seed);
        for (int k = 0; k < n; k++) { int w = r.in(0, 2); one(r, w == 0 ? 0 : w == 1 ? 2 : 3, 1, 25); }
    }
    printf("calls=%ld optimal=%ld infeasible=%ld maxiter=%ld bad=%ld\n", calls.load(), optimal.load(),
           infeasible.load(), maxit.load(), bad.load());
    fflush(stdout);
    return bad.load() ? 8 : 0;
}
