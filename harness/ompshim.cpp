// A small OpenMP run-time on POSIX threads, built with the thread sanitizer: GNU's own run-time synchronises in ways the sanitizer cannot see.
// Only the entry points that this code base uses.
#include <pthread.h>
#include <stdlib.h>
#include <stdint.h>
#include <unistd.h>
#include <stdio.h>
#include <time.h>
#include <atomic>

enum { NWS = 256 };
struct Team { int n; pthread_barrier_t bar; void (*fn)(void *); void *data; std::atomic<long> ws[NWS]; };	// ws: next iteration of each work-sharing construct
struct Share { long cur, end, step; int k; };
struct Arg  { Team *team; int id; };
static __thread Team *team = nullptr;
static __thread int   tid  = 0;
static __thread Share my   = { 0, 0, 1, 0 };
static const long     NONE = (1L << 62) + 12345;
static void clear (Team &t) { for (auto &w : t.ws) w.store (NONE, std::memory_order_relaxed); }
static int            want = 0;
static std::atomic<uint64_t> regions (0), threads (0);

static int def () {
	if (want <= 0) { const char *s = getenv ("OMP_NUM_THREADS"); want = s ? atoi (s) : 2; if (want < 1) want = 1; }
	return want;
}
static void *body (void *p) {
	Arg *a = static_cast<Arg *> (p);
	team = a->team; tid = a->id; my.k = 0;
	team->fn (team->data);
	return nullptr;
}

extern "C" {
void GOMP_parallel (void (*fn)(void *), void *data, unsigned n, unsigned) {
	if (n == 0) n = def ();
	if (team != nullptr) n = 1;
	Team *old = team; int oldId = tid;
	Team &t = *new Team; clear (t); Share keep = my; my.k = 0; t.n = n; t.fn = fn; t.data = data;
	if (n == 1) { if (old == nullptr) { pthread_barrier_init (&t.bar, nullptr, 1); team = &t; tid = 0; } fn (data); if (old == nullptr) { team = nullptr; pthread_barrier_destroy (&t.bar); } delete &t; my = keep; return; }
	regions++; threads += n;
	pthread_barrier_init (&t.bar, nullptr, n);
	pthread_t *h = new pthread_t[n]; Arg *a = new Arg[n];
	for (unsigned i = 1; i < n; i++) { a[i].team = &t; a[i].id = i; if (pthread_create (&h[i], nullptr, body, &a[i])) abort (); }
	team = &t; tid = 0;
	fn (data);
	team = old; tid = oldId;
	for (unsigned i = 1; i < n; i++) pthread_join (h[i], nullptr);
	pthread_barrier_destroy (&t.bar); delete &t; my = keep;
	delete[] h; delete[] a;
}
void GOMP_barrier () { if (team != nullptr && team->n > 1) pthread_barrier_wait (&team->bar); }
static pthread_mutex_t atom = PTHREAD_MUTEX_INITIALIZER, crit = PTHREAD_MUTEX_INITIALIZER;
void GOMP_atomic_start ()   { pthread_mutex_lock (&atom); }
void GOMP_atomic_end ()     { pthread_mutex_unlock (&atom); }
void GOMP_critical_start () { pthread_mutex_lock (&crit); }
void GOMP_critical_end ()   { pthread_mutex_unlock (&crit); }
static pthread_mutex_t *named (void **p) {
	pthread_mutex_t *m = static_cast<pthread_mutex_t *> (__atomic_load_n (p, __ATOMIC_ACQUIRE));
	if (m == nullptr) {
		pthread_mutex_t *k = new pthread_mutex_t; pthread_mutex_init (k, nullptr); void *none = nullptr;
		if (__atomic_compare_exchange_n (p, &none, static_cast<void *> (k), false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) m = k;
		else { pthread_mutex_destroy (k); delete k; m = static_cast<pthread_mutex_t *> (none); }
	}
	return m;
}
void GOMP_critical_name_start (void **p) { pthread_mutex_lock (named (p)); }
void GOMP_critical_name_end (void **p)   { pthread_mutex_unlock (named (p)); }
static bool grab (long n, long *got) {	// relaxed: handing out iterations orders nothing
	Team *t = team; if (t == nullptr) return false;
	long c = t->ws[my.k % NWS].fetch_add (n, std::memory_order_relaxed); *got = c; return true;
}
static void enter (long start) {
	my.k++; if (my.k >= NWS) { fprintf (stderr, "ompshim: too many work-sharing constructs in one region\n"); abort (); }
	long none = NONE; if (team != nullptr) team->ws[my.k].compare_exchange_strong (none, start, std::memory_order_relaxed);
}
bool GOMP_single_start () { if (team == nullptr || team->n == 1) return true; enter (0); long g; grab (1, &g); return g == 0; }
static bool next (long *a, long *b) {
	if (team == nullptr) { if (my.cur == my.end) return false; *a = my.cur; *b = my.end; my.cur = my.end; return true; }
	long c; grab (my.step, &c);
	if (my.step > 0 ? c >= my.end : c <= my.end) return false;
	*a = c; *b = c + my.step; if (my.step > 0 ? *b > my.end : *b < my.end) *b = my.end;
	return true;
}
static bool start (long s, long e, long inc, long chunk, long *a, long *b) {
	if (chunk < 1) chunk = 1;
	my.cur = s; my.end = e; my.step = inc*chunk; enter (s); return next (a, b);
}
#define LOOP(KIND) \
	bool GOMP_loop_##KIND##_start (long s, long e, long i, long c, long *a, long *b) { return start (s, e, i, c, a, b); } \
	bool GOMP_loop_##KIND##_next (long *a, long *b) { return next (a, b); } \
	bool GOMP_loop_ull_##KIND##_start (bool, unsigned long s, unsigned long e, unsigned long i, unsigned long c, unsigned long *a, unsigned long *b) { return start (s, e, i, c, (long *) a, (long *) b); } \
	bool GOMP_loop_ull_##KIND##_next (unsigned long *a, unsigned long *b) { return next ((long *) a, (long *) b); } \
	void GOMP_parallel_loop_##KIND (void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned f) { \
		LoopArg l = { fn, data, s, e, i, c }; GOMP_parallel (loopBody, &l, n, f); }
struct LoopArg { void (*fn)(void *); void *data; long s, e, i, c; };
static void loopBody (void *p) { LoopArg *l = static_cast<LoopArg *> (p); my.cur = l->s; my.end = l->e; my.step = l->i*(l->c < 1 ? 1 : l->c); enter (l->s); l->fn (l->data); }
LOOP(dynamic) LOOP(nonmonotonic_dynamic) LOOP(guided) LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start (long s, long e, long i, long *a, long *b) { return start (s, e, i, 1, a, b); }
bool GOMP_loop_runtime_next (long *a, long *b) { return next (a, b); }
void GOMP_loop_end () { GOMP_barrier (); }
void GOMP_loop_end_nowait () { }
static unsigned section () { long a, b; return next (&a, &b) ? (unsigned) a : 0; }
unsigned GOMP_sections_start (unsigned n) { my.cur = 1; my.end = n+1; my.step = 1; enter (1); return section (); }
unsigned GOMP_sections_next () { return section (); }
void GOMP_sections_end () { GOMP_barrier (); }
void GOMP_sections_end_nowait () { }
void GOMP_parallel_sections (void (*fn)(void *), void *data, unsigned n, unsigned k, unsigned f) { LoopArg l = { fn, data, 1, (long) k+1, 1, 1 }; GOMP_parallel (loopBody, &l, n, f); }
double omp_get_wtime () { timespec t; clock_gettime (CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9*t.tv_nsec; }
int  omp_get_thread_num ()  { return tid; }
int  omp_get_num_threads () { return team ? team->n : 1; }
int  omp_get_max_threads () { return def (); }
int  omp_get_num_procs ()   { return def (); }
void omp_set_num_threads (int n) { want = n > 0 ? n : 1; }
int  omp_in_parallel ()     { return team && team->n > 1; }
uint64_t ompshim_regions () { return regions; }
uint64_t ompshim_threads () { return threads; }
}
static struct AtEnd { ~AtEnd () {
	const char *f = getenv ("OMPSHIM_STAT");
	if (f != nullptr) { char b[512]; snprintf (b, sizeof b, "%s.%d", f, (int) getpid ()); FILE *o = fopen (b, "w"); if (o) { fprintf (o, "%lu %lu\n", (unsigned long) regions.load (), (unsigned long) threads.load ()); fclose (o); } }
} } atEnd;
