// A small OpenMP run time on plain pthreads, for the programs of the extractor: the synchronisation is then
// visible to the race monitor, and OMP_SEED adds pauses at the scheduling points.  A region that asks for no
// particular number of threads runs in one.
#include <pthread.h>
#include <stdlib.h>
#include <unistd.h>
#include <vector>
#include <map>
#include <memory>
namespace {
struct Team {
  int n; void (*fn)(void*); void* data;
  pthread_mutex_t mu; pthread_barrier_t bar;
  struct Work { bool init; unsigned long long next, end, incr, chunk; bool up; int single; };
  std::vector<Work*> works; std::vector<pthread_mutex_t*> dummy;
};
struct Ctx { Team* t; int id; size_t work; unsigned rs; unsigned long long cs, ce; bool st; };
__thread Ctx* cur = 0;
pthread_mutex_t all = PTHREAD_MUTEX_INITIALIZER;       // unnamed critical, atomics, names
pthread_mutex_t names_mu = PTHREAD_MUTEX_INITIALIZER;
std::map<void**, pthread_mutex_t*>* names = 0;
int seed() { static const char* s = getenv("OMP_SEED"); return s ? atoi(s) : 0; }
void dither() {
  if (!cur || !seed()) return;
  unsigned r = rand_r(&cur->rs);
  if (r % 7 == 0) usleep(r / 7 % 200); else if (r % 3 == 0) sched_yield();
}
struct Start { Team* t; int id; };
void run(Team* t, int id) {
  Ctx c; c.t = t; c.id = id; c.work = 0; c.rs = seed() * 7919 + id * 31 + 1;
  Ctx* old = cur; cur = &c; dither(); t->fn(t->data); cur = old;
}
void* entry(void* p) { Start s = *(Start*)p; delete (Start*)p; run(s.t, s.id); return 0; }
Team::Work* begin() {
  Ctx* c = cur; if (!c) abort();
  pthread_mutex_lock(&c->t->mu);
  if (c->t->works.size() <= c->work) c->t->works.push_back(new Team::Work());
  Team::Work* w = c->t->works[c->work];
  pthread_mutex_unlock(&c->t->mu);
  return w;
}
bool next(unsigned long long* s, unsigned long long* e) {
  Team::Work* w = begin(); Ctx* c = cur; bool r = false;
  dither();
  pthread_mutex_lock(&c->t->mu);
  if (w->up ? w->next < w->end : (long long)w->next > (long long)w->end) {
    unsigned long long z = w->next + w->chunk * w->incr;
    if (w->up ? (z > w->end || z < w->next) : ((long long)z < (long long)w->end)) z = w->end;
    *s = w->next; *e = z; w->next = z; r = true;
  }
  pthread_mutex_unlock(&c->t->mu);
  return r;
}
bool start(bool up, unsigned long long a, unsigned long long b, unsigned long long incr, unsigned long long chunk, unsigned long long* s, unsigned long long* e) {
  
  if (!cur) abort();
  Team::Work* w = begin();
  pthread_mutex_lock(&cur->t->mu);
  if (!w->init) { w->init = true; w->next = a; w->end = b; w->incr = incr; w->chunk = chunk ? chunk : 1; w->up = up; }
  pthread_mutex_unlock(&cur->t->mu);
  return next(s, e);
}
void parallel(void (*fn)(void*), void* data, unsigned n) {
  Team t; t.n = n ? n : 1; if (cur) t.n = 1;
  t.fn = fn; t.data = data; pthread_mutex_init(&t.mu, 0); pthread_barrier_init(&t.bar, 0, t.n);
  std::vector<pthread_t> th(t.n);
  for (int i = 1; i < t.n; ++i) { Start* s = new Start; s->t = &t; s->id = i; pthread_create(&th[i], 0, entry, s); }
  run(&t, 0);
  for (int i = 1; i < t.n; ++i) pthread_join(th[i], 0);
  for (size_t i = 0; i < t.works.size(); ++i) delete t.works[i];
  pthread_mutex_destroy(&t.mu); pthread_barrier_destroy(&t.bar);
}
}
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n); }
int omp_get_thread_num() { return cur ? cur->id : 0; }
int omp_get_num_threads() { return cur ? cur->t->n : 1; }
int omp_get_max_threads() { return 8; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return cur && cur->t->n > 1; }
void omp_set_num_threads(int) {}
void GOMP_barrier() { if (cur) { dither(); pthread_barrier_wait(&cur->t->bar); } }
void GOMP_critical_start() { dither(); pthread_mutex_lock(&all); }
void GOMP_critical_end() { pthread_mutex_unlock(&all); dither(); }
void GOMP_atomic_start() { pthread_mutex_lock(&all); }
void GOMP_atomic_end() { pthread_mutex_unlock(&all); }
void GOMP_critical_name_start(void** p) {
  dither();
  pthread_mutex_lock(&names_mu);
  if (!names) names = new std::map<void**, pthread_mutex_t*>();
  pthread_mutex_t*& m = (*names)[p];
  if (!m) { m = new pthread_mutex_t; pthread_mutex_init(m, 0); }
  pthread_mutex_t* k = m;
  pthread_mutex_unlock(&names_mu);
  pthread_mutex_lock(k);
}
void GOMP_critical_name_end(void** p) {
  pthread_mutex_lock(&names_mu); pthread_mutex_t* k = (*names)[p]; pthread_mutex_unlock(&names_mu);
  pthread_mutex_unlock(k); dither();
}
bool GOMP_single_start() {
  Team::Work* w = begin(); Ctx* c = cur; c->work++;
  pthread_mutex_lock(&c->t->mu); bool r = !w->init; w->init = true; pthread_mutex_unlock(&c->t->mu);
  return r;
}
void GOMP_loop_end_nowait() { cur->work++; }
void GOMP_loop_end() { cur->work++; GOMP_barrier(); }
#define ULL(name) \
bool GOMP_loop_ull_##name##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long i, unsigned long long ch, unsigned long long* s, unsigned long long* e) { return start(up, a, b, i, ch, s, e); } \
bool GOMP_loop_ull_##name##_next(unsigned long long* s, unsigned long long* e) { return next(s, e); } \
bool GOMP_loop_##name##_start(long a, long b, long i, long ch, long* s, long* e) { return start(i > 0, a, b, i, ch, (unsigned long long*)s, (unsigned long long*)e); } \
bool GOMP_loop_##name##_next(long* s, long* e) { return next((unsigned long long*)s, (unsigned long long*)e); }
ULL(dynamic) ULL(guided) ULL(nonmonotonic_dynamic) ULL(nonmonotonic_guided) 
#undef ULL
#define RT(name) \
bool GOMP_loop_ull_##name##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long i, unsigned long long* s, unsigned long long* e) { return start(up, a, b, i, 1, s, e); } \
bool GOMP_loop_ull_##name##_next(unsigned long long* s, unsigned long long* e) { return next(s, e); } \
bool GOMP_loop_##name##_start(long a, long b, long i, long* s, long* e) { return start(i > 0, a, b, i, 1, (unsigned long long*)s, (unsigned long long*)e); } \
bool GOMP_loop_##name##_next(long* s, long* e) { return next((unsigned long long*)s, (unsigned long long*)e); }
RT(runtime) RT(maybe_nonmonotonic_runtime) RT(nonmonotonic_runtime)
}
// combined constructs: the region's first work share is set up by the team
namespace {
struct Loop { void (*fn)(void*); void* data; long a, b, i, ch; };
void shim(void* p) {
  Loop* l = (Loop*)p; Team::Work* w = begin();
  pthread_mutex_lock(&cur->t->mu);
  if (!w->init) { w->init = true; w->next = l->a; w->end = l->b; w->incr = l->i; w->chunk = l->ch ? l->ch : 1; w->up = l->i > 0; }
  pthread_mutex_unlock(&cur->t->mu);
  l->fn(l->data);
}
}
extern "C" {
#define PL(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, long ch, unsigned) { Loop l = {fn, d, a, b, i, ch}; parallel(shim, &l, n); }
PL(dynamic) PL(guided) PL(nonmonotonic_dynamic) PL(nonmonotonic_guided)
}
