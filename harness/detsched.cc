#include "detsched.h"
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <linux/futex.h>
#include <errno.h>
#include <map>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
namespace detsched {
enum Op { NONE, LOCK, SEM, JOIN, COND };
struct Thr {
  int id; std::atomic<int> go; bool done; Op op; void* obj; bool signaled; void* ret; long prio;
  Thr() : id(0), go(0), done(false), op(NONE), obj(0), signaled(false), ret(0), prio(0) {}
};
struct Mut { int owner, depth; Mut() : owner(-1), depth(0) {} };
std::vector<Choice> choices;
std::function<void(const char*)> on_stop;
static std::vector<Thr*>& T() { static std::vector<Thr*>* t = new std::vector<Thr*>; return *t; }
static std::map<void*, Mut>& M() { static std::map<void*, Mut>* t = new std::map<void*, Mut>; return *t; }
static std::map<void*, long>& S() { static std::map<void*, long>* t = new std::map<void*, long>; return *t; }
static std::map<pthread_t, int>& P() { static std::map<pthread_t, int>* t = new std::map<pthread_t, int>; return *t; }
static __thread Thr* me = 0;
static Policy pol; static bool started = false; static long steps = 0;
static std::vector<long> changes;
static unsigned long long rs = 88172645463325252ULL;
static unsigned long long R() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
unsigned Rnd(unsigned n) { return n ? (R() >> 11) % n : 0; }
static bool Chance(double p) { return p > 0 && (R() >> 11) % 1000000 < p * 1e6; }
static long fx(std::atomic<int>* a, int op, int v) { return syscall(SYS_futex, a, op, v, 0, 0, 0); }
static void WaitGo(Thr* t) { while (t->go.load() == 0) fx(&t->go, FUTEX_WAIT_PRIVATE, 0); t->go.store(0); }
static void Give(Thr* t) { t->go.store(1); fx(&t->go, FUTEX_WAKE_PRIVATE, 1); }
static bool Enabled(Thr* t) {
  if (t->done) return false;
  switch (t->op) {
    case NONE: return true;
    case LOCK: { Mut& m = M()[t->obj]; return m.owner < 0; }
    case SEM: return S()[t->obj] > 0;
    case JOIN: return static_cast<Thr*>(t->obj)->done;
    case COND: return false;          // becomes LOCK when signalled
  }
  return false;
}
void Start(const Policy& p) {
  pol = p; started = true; rs = p.seed * 2654435761ULL + 88172645463325252ULL; for (int i = 0; i < 8; ++i) R();
  choices.clear(); steps = 0; changes.clear();
  if (p.mode == 2) for (int i = 0; i < p.depth; ++i) changes.push_back(Rnd(p.len));
}
static Thr* Self0() {
  if (!me) { me = new Thr; me->id = T().size(); T().push_back(me); P()[pthread_self()] = me->id; me->prio = 1000; }
  return me;
}
int Self() { return Self0()->id; }
// choose who runs next; `t` is the caller (possibly not enabled, possibly done)
static void Switch(Thr* t) {
  std::vector<Thr*> en; int cur = -1;
  for (size_t i = 0; i < T().size(); ++i) if (Enabled(T()[i])) { if (T()[i] == t) cur = en.size(); en.push_back(T()[i]); }
  if (en.empty()) {
    bool all = true; for (Thr* x : T()) all &= x->done;
    if (!all) { on_stop("deadlock"); _exit(9); }
    return;
  }
  if (started && ++steps > pol.limit) { on_stop("limit"); _exit(9); }
  int k = cur >= 0 ? cur : 0;
  if (en.size() > 1 && started) {
    if (pol.mode == 0) { if (choices.size() < pol.prefix.size()) k = pol.prefix[choices.size()] % en.size(); }
    else if (pol.mode == 1) { if (cur < 0 || Chance(pol.p)) k = Rnd(en.size()); }
    else {
      for (long c : changes) if (c == steps && cur >= 0) t->prio = -c - 1;
      k = 0; for (size_t i = 1; i < en.size(); ++i) if (en[i]->prio > en[k]->prio) k = i;
    }
    Choice c = {int(en.size()), cur, k}; choices.push_back(c);
  }
  if (en[k] == t) return;
  Give(en[k]);
  if (!t->done) WaitGo(t);
}
static void Point(Op op, void* obj) { Thr* t = Self0(); t->op = op; t->obj = obj; Switch(t); t->op = NONE; }
void Yield() { Point(NONE, 0); }
struct Boot { void* (*f)(void*); void* a; Thr* t; };
static void* Tramp(void* x) {
  Boot b = *static_cast<Boot*>(x); delete static_cast<Boot*>(x);
  me = b.t; WaitGo(me);
  void* r = b.f(b.a);
  me->ret = r; me->done = true; Switch(me);
  return r;
}
}
using namespace detsched;
typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
extern "C" {
int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*f)(void*), void* a) {
  static create_t real = (create_t)dlsym(RTLD_NEXT, "pthread_create");
  Self0();
  Thr* t = new Thr; t->id = T().size(); t->prio = 1000 + long(Rnd(1000)) - 500; T().push_back(t);
  Boot* b = new Boot; b->f = f; b->a = a; b->t = t;
  int r = real(th, at, Tramp, b);
  if (r) { std::fprintf(stderr, "pthread_create failed\n"); _exit(8); }
  P()[*th] = t->id;
  Point(NONE, 0);
  return 0;
}
int pthread_join(pthread_t th, void** ret) {
  if (!P().count(th)) return ESRCH;
  Thr* o = T()[P()[th]]; Point(JOIN, o); if (ret) *ret = o->ret; return 0;
}
int pthread_detach(pthread_t) { return 0; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { M().erase(m); M()[m]; return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { M().erase(m); return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) {
  Thr* t = Self0(); if (t->done) return 0;
  Mut& x = M()[m]; if (x.owner == t->id) { ++x.depth; return 0; }
  Point(LOCK, m); Mut& y = M()[m]; y.owner = t->id; y.depth = 1; return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  Thr* t = Self0(); if (t->done) return 0;
  Point(NONE, 0); Mut& x = M()[m]; if (x.owner >= 0 && x.owner != t->id) return EBUSY;
  x.owner = t->id; ++x.depth; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  Thr* t = Self0(); if (t->done) return 0;
  Mut& x = M()[m]; if (--x.depth <= 0) { x.owner = -1; x.depth = 0; }
  Point(NONE, 0); return 0;
}
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  Thr* t = Self0(); Mut& x = M()[m]; int d = x.depth; x.owner = -1; x.depth = 0;
  t->op = COND; t->obj = c; t->ret = m; Switch(t);      // a signal turns COND into LOCK on m
  t->op = NONE; Mut& y = M()[m]; y.owner = t->id; y.depth = d; return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return pthread_cond_wait(c, m); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_cond_wait(c, m); }
static int Wake(pthread_cond_t* c, bool all) {
  if (Self0()->done) return 0;
  std::vector<Thr*> w; for (Thr* t : T()) if (!t->done && t->op == COND && t->obj == c) w.push_back(t);
  if (!w.empty() && !all) { Thr* t = w[Rnd(w.size())]; w.assign(1, t); }
  for (Thr* t : w) { t->op = LOCK; t->obj = t->ret; }
  Point(NONE, 0); return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { return Wake(c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) { return Wake(c, true); }
int sem_init(sem_t* s, int, unsigned v) { S()[s] = v; return 0; }
int sem_destroy(sem_t* s) { S().erase(s); return 0; }
int sem_wait(sem_t* s) {
  if (started && Chance(pol.eintr)) { Point(NONE, 0); errno = EINTR; return -1; }
  Point(SEM, s); --S()[s]; return 0;
}
int sem_trywait(sem_t* s) { Point(NONE, 0); if (S()[s] > 0) { --S()[s]; return 0; } errno = EAGAIN; return -1; }
int sem_timedwait(sem_t* s, const struct timespec*) { return sem_wait(s); }
int sem_post(sem_t* s) { ++S()[s]; Point(NONE, 0); return 0; }
int sem_getvalue(sem_t* s, int* v) { *v = S()[s]; return 0; }
// short and interrupted transfers on regular files
static bool Disturb(int fd, size_t& n) {
  if (!started || pol.partial <= 0) return false;
  struct stat st; if (fstat(fd, &st) || !S_ISREG(st.st_mode)) return false;
  if (Chance(pol.partial / 2)) { errno = EINTR; return true; }
  if (n > 1 && Chance(pol.partial)) n = 1 + Rnd(n - 1);
  return false;
}
ssize_t read(int fd, void* b, size_t n) { if (Disturb(fd, n)) return -1; return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { if (Disturb(fd, n)) return -1; return syscall(SYS_write, fd, b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { if (Disturb(fd, n)) return -1; return syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { if (Disturb(fd, n)) return -1; return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
}
