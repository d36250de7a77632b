// Replacement of libgomp's runtime made of pthread primitives, so that ThreadSanitizer sees exactly the
// synchronisation OpenMP guarantees (fork, join, barrier, critical) and no more: loop counters are relaxed atomics.
// GOMPSHIM_THREADS  team size          GOMPSHIM_CHUNK  chunk size used instead of the requested one (0: as requested)
// GOMPSHIM_SEED     nonzero: random pauses at chunk boundaries and region entries
// GOMPSHIM_STATS    file with one 32-byte record per region: function offset, entries, entries shared by >= 2 threads, chunks
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" char __executable_start;

namespace {

const int MAXT = 64, MAXWS = 8192, MAXREG = 256;

struct Stat { uint64_t fn, entries, shared, chunks; };

struct Team {
    int n;
    void (*fn)(void*);
    void* data;
    std::atomic<long> ws[MAXWS];
    std::atomic<long> single[MAXWS];
    std::atomic<long> took[MAXT];
    pthread_mutex_t bm;
    pthread_cond_t bc;
    int bcount; unsigned bgen;
    bool preset; long ps, pe, pi, pc;
};

struct Loop { bool ull, up; long start, end, incr, chunk; int id; };

struct Worker { pthread_t t; pthread_mutex_t m; pthread_cond_t c; int id; unsigned job, done; };

Team team;
Worker pool[MAXT];
int npool = 0;
pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
Stat* stats = nullptr;
Stat nostats[MAXREG];

thread_local int tid = 0, depth = 0, wsid = 0, sgid = 0;
thread_local Loop loop;
thread_local uint64_t lcg = 0;

long env(const char* n, long d) { const char* s = getenv(n); return s ? atol(s) : d; }
int nthreads() { static int n = [] { long v = env("GOMPSHIM_THREADS", 4); return int(v < 1 ? 1 : v > MAXT ? MAXT : v); }(); return n; }
long chunk_override() { static long c = env("GOMPSHIM_CHUNK", 0); return c; }
long seed() { static long s = env("GOMPSHIM_SEED", 0); return s; }

void pause_maybe()
{
    if (!seed()) return;
    if (!lcg) lcg = uint64_t(seed()) * 7919 + tid * 104729 + 1;
    lcg = lcg * 6364136223846793005ull + 1442695040888963407ull;
    unsigned r = lcg >> 40;
    if (r % 16 == 0) sched_yield();
    else if (r % 512 == 1) usleep(r % 7 * 20);
    else if (r % 8 == 2) for (volatile int i = 0; i < int(r % 400); i++) {}
}

Stat* stat_of(void (*fn)(void*))
{
    if (!stats) {
        stats = nostats;
        if (const char* f = getenv("GOMPSHIM_STATS")) {
            int fd = open(f, O_RDWR | O_CREAT, 0666);
            if (fd >= 0 && !ftruncate(fd, sizeof(Stat) * MAXREG)) {
                void* p = mmap(nullptr, sizeof(Stat) * MAXREG, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED) stats = (Stat*)p;
            }
            if (fd >= 0) close(fd);
        }
    }
    uint64_t off = uint64_t((char*)fn - &__executable_start);
    for (int i = 0; i < MAXREG; i++) {
        if (stats[i].fn == off || !stats[i].fn) { stats[i].fn = off; return stats + i; }
    }
    return nostats;
}

void run_as(int id)
{
    tid = id; wsid = sgid = 0; depth = 1;
    if (team.preset) { loop = Loop{false, team.pi > 0, team.ps, team.pe, team.pi, team.pc, wsid++}; }
    pause_maybe();
    team.fn(team.data);
    depth = 0;
}

void* worker(void* a)
{
    Worker& w = *(Worker*)a;
    unsigned seen = 0;
    for (;;) {
        pthread_mutex_lock(&w.m);
        while (w.job == seen) pthread_cond_wait(&w.c, &w.m);
        seen = w.job;
        pthread_mutex_unlock(&w.m);
        run_as(w.id);
        pthread_mutex_lock(&w.m);
        w.done = seen;
        pthread_cond_signal(&w.c);
        pthread_mutex_unlock(&w.m);
    }
    return nullptr;
}

void barrier()
{
    if (!depth || team.n < 2) return;
    pthread_mutex_lock(&team.bm);
    unsigned g = team.bgen;
    if (++team.bcount == team.n) { team.bcount = 0; team.bgen++; pthread_cond_broadcast(&team.bc); }
    else while (team.bgen == g) pthread_cond_wait(&team.bc, &team.bm);
    pthread_mutex_unlock(&team.bm);
    pause_maybe();
}

void parallel(void (*fn)(void*), void* data, unsigned want)
{
    if (depth) {              // nested regions are serialised
        int t = tid, d = depth, w = wsid, s = sgid; Loop l = loop;
        fprintf(stderr, "gompshim: nested parallel region\n"); (void)t; (void)d; (void)w; (void)s; (void)l;
        abort();
    }
    int n = want ? int(want) : nthreads();
    if (n > MAXT) n = MAXT;
    team.n = n; team.fn = fn; team.data = data;
    static bool init = false;
    if (!init) { init = true; pthread_mutex_init(&team.bm, nullptr); pthread_cond_init(&team.bc, nullptr); }
    static int used_ws = MAXWS;
    for (int i = 0; i < used_ws; i++) { team.ws[i].store(0, std::memory_order_relaxed); team.single[i].store(0, std::memory_order_relaxed); }
    for (int i = 0; i < n; i++) team.took[i].store(0, std::memory_order_relaxed);
    Stat* st = stat_of(fn);
    while (npool < n - 1) {
        Worker& w = pool[++npool];
        pthread_mutex_init(&w.m, nullptr); pthread_cond_init(&w.c, nullptr);
        w.id = npool; w.job = w.done = 0;
        if (pthread_create(&w.t, nullptr, worker, &w)) { perror("gompshim"); abort(); }
    }
    for (int i = 1; i < n; i++) {
        pthread_mutex_lock(&pool[i].m);
        pool[i].job++;
        pthread_cond_signal(&pool[i].c);
        pthread_mutex_unlock(&pool[i].m);
    }
    run_as(0);
    used_ws = (wsid > sgid ? wsid : sgid) + 1;
    if (used_ws > MAXWS) used_ws = MAXWS;
    for (int i = 1; i < n; i++) {
        pthread_mutex_lock(&pool[i].m);
        while (pool[i].done != pool[i].job) pthread_cond_wait(&pool[i].c, &pool[i].m);
        pthread_mutex_unlock(&pool[i].m);
    }
    team.preset = false;
    int busy = 0;
    for (int i = 0; i < n; i++) { long k = team.took[i].load(std::memory_order_relaxed); busy += k > 0; st->chunks += k; }
    st->entries++;
    st->shared += busy > 1 || (n > 1 && !wsid);
}

bool next(long* s, long* e)
{
    Loop& l = loop;
    if (l.id >= MAXWS) { fprintf(stderr, "gompshim: too many loops in a region\n"); abort(); }
    uint64_t total = l.incr > 0 ? (uint64_t(l.end) > uint64_t(l.start) || (!l.ull && l.end > l.start) ? (uint64_t(l.end) - uint64_t(l.start) + l.incr - 1) / l.incr : 0)
                                : (l.start > l.end ? (uint64_t(l.start) - uint64_t(l.end) - l.incr - 1) / uint64_t(-l.incr) : 0);
    if (!l.ull && l.incr > 0 && l.end <= l.start) total = 0;
    long c = chunk_override() ? chunk_override() : l.chunk > 0 ? l.chunk : 1;
    long i = team.ws[l.id].fetch_add(c, std::memory_order_relaxed);
    if (uint64_t(i) >= total) return false;
    long j = uint64_t(i) + c > total ? long(total) : i + c;
    *s = l.start + i * l.incr;
    *e = l.start + j * l.incr;
    team.took[tid].fetch_add(1, std::memory_order_relaxed);
    pause_maybe();
    return true;
}

bool start(bool ull, bool up, long s, long e, long incr, long chunk, long* is, long* ie)
{
    if (!depth) {             // orphaned loop outside a region: one thread does it all
        team.n = 1; wsid = 0; team.ws[0].store(0, std::memory_order_relaxed);
    }
    loop = Loop{ull, up, s, e, incr, chunk, wsid++};
    return next(is, ie);
}

}

extern "C" {
int omp_get_thread_num() { return depth ? tid : 0; }
int omp_get_num_threads() { return depth ? team.n : 1; }
int omp_get_max_threads() { return nthreads(); }
int omp_get_num_procs() { return nthreads(); }
int omp_in_parallel() { return depth > 0; }
int omp_get_level() { return depth; }
void omp_set_num_threads(int) {}
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

typedef pthread_mutex_t* omp_lock_shim;
void omp_init_lock(omp_lock_shim* l) { *l = new pthread_mutex_t; pthread_mutex_init(*l, nullptr); }
void omp_destroy_lock(omp_lock_shim* l) { delete *l; }
void omp_set_lock(omp_lock_shim* l) { pthread_mutex_lock(*l); }
void omp_unset_lock(omp_lock_shim* l) { pthread_mutex_unlock(*l); }
int omp_test_lock(omp_lock_shim* l) { return !pthread_mutex_trylock(*l); }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n); }
void GOMP_barrier() { barrier(); }
void GOMP_critical_start() { pthread_mutex_lock(&crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void** p)
{
    pthread_mutex_lock(&atom);
    if (!*p) { pthread_mutex_t* m = new pthread_mutex_t; pthread_mutex_init(m, nullptr); *p = m; }
    pthread_mutex_t* m = (pthread_mutex_t*)*p;
    pthread_mutex_unlock(&atom);
    pthread_mutex_lock(m);
}
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock((pthread_mutex_t*)*p); }
void GOMP_atomic_start() { pthread_mutex_lock(&atom); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atom); }
bool GOMP_single_start()
{
    if (!depth || team.n < 2) return true;
    return team.single[sgid++].exchange(1, std::memory_order_relaxed) == 0;
}

#define LOOPS(KIND) \
bool GOMP_loop_##KIND##_start(long s, long e, long i, long c, long* a, long* b) { return start(false, i > 0, s, e, i, c, a, b); } \
bool GOMP_loop_##KIND##_next(long* a, long* b) { return next(a, b); } \
bool GOMP_loop_ull_##KIND##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { return start(true, up, long(s), long(e), long(i), long(c), (long*)a, (long*)b); } \
bool GOMP_loop_ull_##KIND##_next(unsigned long long* a, unsigned long long* b) { return next((long*)a, (long*)b); } \
void GOMP_parallel_loop_##KIND(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { team.preset = true; team.ps = s; team.pe = e; team.pi = i; team.pc = c; parallel(fn, d, n); }
LOOPS(dynamic)
LOOPS(nonmonotonic_dynamic)
LOOPS(guided)
LOOPS(nonmonotonic_guided)
LOOPS(static)
#define RLOOPS(KIND) \
bool GOMP_loop_##KIND##_start(long s, long e, long i, long* a, long* b) { return start(false, i > 0, s, e, i, 1, a, b); } \
bool GOMP_loop_##KIND##_next(long* a, long* b) { return next(a, b); } \
bool GOMP_loop_ull_##KIND##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* a, unsigned long long* b) { return start(true, up, long(s), long(e), long(i), 1, (long*)a, (long*)b); } \
bool GOMP_loop_ull_##KIND##_next(unsigned long long* a, unsigned long long* b) { return next((long*)a, (long*)b); } \
void GOMP_parallel_loop_##KIND(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { team.preset = true; team.ps = s; team.pe = e; team.pi = i; team.pc = 1; parallel(fn, d, n); }
RLOOPS(runtime)
RLOOPS(maybe_nonmonotonic_runtime)
RLOOPS(nonmonotonic_runtime)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
}
