// Runs the real sentence server under a deterministic scheduler with simulated
// clients.  Each case names a scenario (input lines, clients and what they do)
// and a number of schedules; every schedule runs in a process of its own, and
// the distinct histories of observable events are reported.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <dlfcn.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <iostream>
#include "mini_json.h"
using namespace std;
extern int ss_main(int, char**);

// ------------------------------------------------------------ scenario
struct ClientSpec { string script, key; bool forever; };
struct Scenario {
  vector<string> lines; bool nonl;          // last line without newline
  vector<ClientSpec> cl; string key; bool multi, stay;
  int penv, pstay;                          // percent
};
static Scenario S;
// ------------------------------------------------------------ shared log
struct Shared { size_t n; char log[1 << 18]; int nch; unsigned char opt[4096], pick[4096], pre[4096]; };
static Shared* sh;
static bool inside = false;                 // in a scheduled child
static unsigned long long rs;
static unsigned rnd(unsigned n) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(rs >> 33) % n; }
static bool dfs = false;
static vector<int> prefix;
static int bound = 0, used = 0;

static string q(const string& s) {
  string o = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; sprintf(b, "\\u%04x", c); o += b; } else o += c; }
  return o + "\"";
}
static unsigned long nev = 0;
static void ev(const string& s) {
  if (sh->n + s.size() + 2 >= sizeof(sh->log)) { sh->n = 0; _exit(78); }
  memcpy(sh->log + sh->n, s.data(), s.size()); sh->n += s.size(); sh->log[sh->n++] = '\n'; ++nev;
}
// ------------------------------------------------------------ world
struct Conn {
  int fd = -1; bool connected = false, accepted = false, closed = false, reset = false, dropped = false, reported = false;
  string in;                                // to the server
  string out; int recv = 0, served = 0; bool holding = false; string held;
  bool errgiven = false;
};
static vector<Conn>& C = *new vector<Conn>;
static string& input = *new string; static size_t fed = 0; static bool eof_fed = false;   // stdin
static int outfd = -1; static off_t outpos = 0; static string& outbuf = *new string;
static map<int, int>& fd2c = *new map<int, int>;
static const int LFD = 900;
static int nextfd = 901;

enum K { READY, LOCK, READ, ACCEPT, TIMED, COND, DONE };
struct Task { sem_t sem; K k; void* obj; int fd; bool expired; void* (*fn)(void*); void* arg; unsigned long exp_at; bool signalled; int idx; };
static vector<Task*>& T = *new vector<Task*>;
static map<void*, int>& owner = *new map<void*, int>;
static thread_local int me = -1;
static int current = 0;

static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static ssize_t real_read(int f, void* b, size_t n) { return syscall(SYS_read, f, b, n); }
static ssize_t real_write(int f, const void* b, size_t n) { return syscall(SYS_write, f, b, n); }

static void poll_stdout() {
  off_t end = lseek(outfd, 0, SEEK_END);
  if (end <= outpos) return;
  string b(end - outpos, 0); ssize_t r = pread(outfd, &b[0], b.size(), outpos); outpos = end;
  outbuf.append(b, 0, r);
  for (size_t p; (p = outbuf.find('\n')) != string::npos; ) { ev("{\"k\":\"out\",\"t\":" + q(outbuf.substr(0, p)) + "}"); outbuf.erase(0, p + 1); }
}
static bool readable(int fd) {
  if (fd == 0) return fed < input.size() || eof_fed;
  auto i = fd2c.find(fd); if (i == fd2c.end()) return true;
  Conn& c = C[i->second]; return !c.in.empty() || c.closed || c.reset;
}
static bool pendingconn() { for (auto& c : C) if (c.connected && !c.accepted) return true; return false; }
static bool enabled(Task* t) {
  switch (t->k) {
    case READY: return true;
    case LOCK: return owner[t->obj] < 0;
    case READ: return readable(t->fd);
    case ACCEPT: return pendingconn();
    case TIMED: return t->fd >= 0 && readable(t->fd);
    case COND: return t->signalled && owner[t->obj] < 0;
    default: return false;
  }
}
// ---- environment actions
static size_t nfed = 0;                                     // lines fed
struct Act { int what, c; };                                // 0 feed 1 connect 2 act on received line 3 idle close
static void feed() {
  if (nfed < S.lines.size()) {
    bool last = nfed + 1 == S.lines.size();
    ev("{\"k\":\"feed\",\"t\":" + q(S.lines[nfed]) + "}");
    input += S.lines[nfed]; if (!(last && S.nonl)) input += '\n';
    ++nfed;
    if (last && S.nonl) { eof_fed = true; ev("{\"k\":\"eof\"}"); }
  } else { eof_fed = true; ev("{\"k\":\"eof\"}"); }
}
static vector<Act> acts() {
  vector<Act> a;
  if (!eof_fed) a.push_back({0, 0});
  for (int i = 0; i < (int)C.size(); ++i) {
    Conn& c = C[i];
    if (!c.connected) { a.push_back({1, i}); continue; }
    if (c.closed || c.dropped) continue;
    if (c.holding) { a.push_back({2, i}); continue; }
    const string& s = S.cl[i].script;
    if (c.served < (int)s.size() && s[c.served] == 'i') a.push_back({3, i});
  }
  return a;
}
static void env(Act a) {
  char b[64]; Conn& c = a.what ? C[a.c] : *(Conn*)0;
  int id = a.c + 1;
  if (a.what == 0) { feed(); return; }
  if (a.what == 1) {
    c.connected = true;
    bool ok = S.key.empty() || S.cl[a.c].key == S.key;
    if (!S.key.empty() && S.cl[a.c].key != "-") { if (S.cl[a.c].key == "!") c.closed = true; else c.in = S.cl[a.c].key + "\n"; }
    sprintf(b, "{\"k\":\"conn\",\"c\":%d,\"auth\":%s}", id, ok ? "true" : "false"); ev(b);
    if (c.closed) { sprintf(b, "{\"k\":\"close\",\"c\":%d}", id); ev(b); }
    return;
  }
  if (a.what == 3) { c.closed = true; sprintf(b, "{\"k\":\"close\",\"c\":%d}", id); ev(b); return; }
  const string& s = S.cl[a.c].script;
  char w = c.served < (int)s.size() ? s[c.served] : 'r';
  ++c.served;
  auto reply = [&](bool part) {
    vector<string> ls; ls.push_back(c.held + "/" + to_string(id));
    if (S.multi && c.served % 2) ls.push_back("+" + c.held);
    string j; for (auto& l : ls) { c.in += l + (part ? "" : "\n"); j += (j.empty() ? "" : ",") + q(l); }
    ev("{\"k\":\"reply\",\"c\":" + to_string(id) + ",\"part\":" + (part ? "true" : "false") + ",\"r\":[" + j + "]}");
  };
  if (w == 'r' || w == 'R' || w == 'i') reply(false);
  if (w == 'p') reply(true);
  c.holding = false;
  if (w == 'x') { c.reset = c.closed = true; }
  if (w == 'c' || w == 'R' || w == 'p') c.closed = true;
  if (c.closed) { sprintf(b, "{\"k\":\"close\",\"c\":%d}", id); ev(b); }
}
static void finish(int code) { poll_stdout(); _exit(code); }

// choose the next task and hand over the processor
static unsigned long quiet_at = ~0ul;
static int steps = 0;
static void schedule(bool wait) {
  Task* mine = me >= 0 ? T[me] : 0;
  for (;;) {
    poll_stdout();
    if (++steps > 20000) { ev("{\"k\":\"endless\"}"); finish(77); }
    vector<int> en;
    if (mine && enabled(mine)) en.push_back(me);
    for (int i = 0; i < (int)T.size(); ++i) if (i != me && enabled(T[i])) en.push_back(i);
    bool cur = mine && enabled(mine);
    vector<Act> ac = acts();
    int pick = -1;
    if (en.empty()) {
      // let every waiting time-out expire once after the last event
      for (int i = 0; i < (int)T.size(); ++i)
        if (T[i]->k == TIMED && T[i]->exp_at != nev) { T[i]->exp_at = nev; T[i]->expired = true; pick = i; break; }
      if (pick < 0) {
        if (quiet_at != nev) { ev("{\"k\":\"quiet\"}"); quiet_at = nev; for (auto t : T) t->exp_at = nev; }
        if (ac.empty()) { ev("{\"k\":\"stuck\"}"); finish(77); }
      }
    }
    if (pick < 0) {
      int n = en.size() + ac.size(), k = 0;
      if (dfs) {
        int at = sh->nch;
        bool free_ = !cur && en.empty();
        int avail = free_ ? n : (!cur ? n : (used < bound ? n : 1));
        if (!cur && !en.empty() && used >= bound) avail = en.size();
        if (avail > 1 && at < 4096) {
          k = at < (int)prefix.size() ? prefix[at] : 0;
          if (k >= avail) k = avail - 1;
          sh->opt[at] = avail; sh->pick[at] = k; sh->nch++;
        } else k = 0;
        if (cur && k > 0) ++used;
        else if (!cur && !en.empty() && k >= (int)en.size()) ++used;
      } else {
        bool useenv = !ac.empty() && (en.empty() || (int)rnd(100) < S.penv);
        if (useenv) k = en.size() + rnd(ac.size());
        else if (cur && (int)rnd(100) < S.pstay) k = 0;
        else k = rnd(en.size());
      }
      if (k >= (int)en.size()) { env(ac[k - en.size()]); continue; }
      pick = en[k];
    }
    Task* t = T[pick];
    if (t->k == LOCK || t->k == COND) owner[t->obj] = pick;
    t->k = READY;
    if (pick == me) return;
    current = pick;
    sem_post(&t->sem);
    if (!wait) for (;;) pause();
    while (sem_wait(&mine->sem)) ;
    return;
  }
}
static void yield(K k, void* obj = 0, int fd = -1) {
  Task* t = T[me]; t->k = k; t->obj = obj; t->fd = fd; t->expired = false; t->signalled = false;
  schedule(true);
}
static Task* newtask() { Task* t = new Task(); sem_init(&t->sem, 0, 0); t->k = READY; t->exp_at = ~0ul; t->idx = T.size(); T.push_back(t); return t; }
static void* tramp(void* p) {
  Task* t = (Task*)p; me = t->idx;
  while (sem_wait(&t->sem)) ;
  t->fn(t->arg);
  t->k = DONE; schedule(false); return 0;
}
#define IN (inside && me >= 0)
extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!IN) { if (!real_create) real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create"); return real_create(t, a, fn, arg); }
  if (!real_create) real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
  Task* k = newtask(); k->fn = fn; k->arg = arg;
  int r = real_create(t, a, tramp, k);
  yield(READY); return r;
}
void pthread_exit(void*) { if (me >= 0) T[me]->k = DONE; schedule(false); for (;;) pause(); }
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!IN) return 0;
  if (!owner.count(m)) owner[m] = -1;
  yield(LOCK, m); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!IN) return 0;
  if (!owner.count(m)) owner[m] = -1;
  yield(READY); if (owner[m] >= 0) return EBUSY; owner[m] = me; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!IN) return 0;
  owner[m] = -1; yield(READY); return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!IN) return 0;
  owner[m] = -1; Task* t = T[me]; t->k = COND; t->obj = m; t->arg = c; t->signalled = false; schedule(true); return 0;
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!IN) return 0;
  for (auto t : T) if (t->k == COND && t->arg == c && !t->signalled) { t->signalled = true; break; }
  yield(READY); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!IN) return 0;
  for (auto t : T) if (t->k == COND && t->arg == c) t->signalled = true;
  yield(READY); return 0;
}
unsigned sleep(unsigned s) { if (!IN) return 0; yield(TIMED, 0, -1); return 0; }
int usleep(useconds_t) { if (!IN) return 0; yield(TIMED, 0, -1); return 0; }
int sched_yield() { if (!IN) return 0; yield(READY); return 0; }
int nanosleep(const struct timespec*, struct timespec*) { if (!IN) return 0; yield(TIMED, 0, -1); return 0; }
// ---- network
static bool mysock(int fd) { return inside && (fd == LFD || fd2c.count(fd)); }
int socket(int, int, int) { return LFD; }
int setsockopt(int, int, int, const void*, socklen_t) { return 0; }
int bind(int, const struct sockaddr*, socklen_t) __THROW;
int bind(int, const struct sockaddr*, socklen_t) __THROW { return 0; }
int listen(int, int) __THROW { return 0; }
int getsockname(int, struct sockaddr* a, socklen_t* n) __THROW { return 0; }
int accept(int, struct sockaddr* a, socklen_t* n) {
  for (;;) {
    yield(ACCEPT);
    for (int i = 0; i < (int)C.size(); ++i) if (C[i].connected && !C[i].accepted) {
      C[i].accepted = true; C[i].fd = nextfd++; fd2c[C[i].fd] = i;
      return C[i].fd;
    }
  }
}
static map<int, bool>& midline = *new map<int, bool>;
static ssize_t do_read(int fd, void* b, size_t n) {
  if (!midline[fd] || !readable(fd)) yield(READ, 0, fd);
  if (fd == 0) {
    if (fed >= input.size()) return 0;
    size_t k = min(n, input.size() - fed); size_t nl = input.find('\n', fed);
    memcpy(b, input.data() + fed, k); fed += k; (void)nl;
    midline[0] = input[fed - 1] != '\n';
    return k;
  }
  Conn& c = C[fd2c[fd]];
  if (!c.in.empty()) { size_t k = min(n, c.in.size()); memcpy(b, c.in.data(), k); midline[fd] = c.in[k - 1] != '\n'; c.in.erase(0, k); return k; }
  midline[fd] = false;
  if (c.reset && !c.errgiven) { c.errgiven = true; errno = ECONNRESET; return -1; }
  return 0;
}
ssize_t read(int fd, void* b, size_t n) {
  if (IN && (fd == 0 || fd2c.count(fd))) return do_read(fd, b, n);
  return real_read(fd, b, n);
}
ssize_t recv(int fd, void* b, size_t n, int) { return IN && fd2c.count(fd) ? do_read(fd, b, n) : -1; }
static ssize_t do_write(int fd, const void* b, size_t n, bool nosig) {
  yield(READY);
  int i = fd2c[fd]; Conn& c = C[i];
  c.out.append((const char*)b, n);
  for (size_t p; (p = c.out.find('\n')) != string::npos; ) {
    string l = c.out.substr(0, p); c.out.erase(0, p + 1);
    ev("{\"k\":\"send\",\"c\":" + to_string(i + 1) + ",\"t\":" + q(l) + "}");
    if (!c.closed) { c.holding = true; c.held = l; ++c.recv; }
  }
  if (c.reset) {
    if (!nosig) {
      struct sigaction sa; sigaction(SIGPIPE, 0, &sa);
      if (sa.sa_handler == SIG_DFL) { poll_stdout(); signal(SIGPIPE, SIG_DFL); raise(SIGPIPE); }
    }
    errno = EPIPE; return -1;
  }
  return n;
}
ssize_t write(int fd, const void* b, size_t n) {
  if (IN && fd2c.count(fd)) return do_write(fd, b, n, false);
  return real_write(fd, b, n);
}
ssize_t send(int fd, const void* b, size_t n, int fl) { return IN && fd2c.count(fd) ? do_write(fd, b, n, fl & MSG_NOSIGNAL) : -1; }
int close(int fd) {
  if (IN && fd == LFD) return 0;
  if (IN && fd2c.count(fd)) {
    yield(READY);
    int i = fd2c[fd]; fd2c.erase(fd); Conn& c = C[i]; c.dropped = true; c.holding = false;
    ev("{\"k\":\"drop\",\"c\":" + to_string(i + 1) + "}");
    return 0;
  }
  return syscall(SYS_close, fd);
}
int shutdown(int fd, int) __THROW { return 0; }
int select(int nfds, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
  if (!IN) return -1;
  int fd = -1;
  for (int i = 0; i < nfds && i < FD_SETSIZE && r; ++i) if (FD_ISSET(i, r) && (i == 0 || fd2c.count(i))) { fd = i; break; }
  if (w) FD_ZERO(w);
  if (e) FD_ZERO(e);
  if (fd < 0) { yield(TIMED, 0, -1); if (r) FD_ZERO(r); return 0; }
  if (tv) {
    bool now = tv->tv_sec == 0 && tv->tv_usec == 0;
    if (now) yield(READY); else yield(TIMED, 0, fd);
  } else yield(READ, 0, fd);
  FD_ZERO(r);
  if (readable(fd)) { FD_SET(fd, r); return 1; }
  return 0;
}
int poll(struct pollfd* p, nfds_t n, int ms) {
  if (!IN) return -1;
  int fd = -1; for (nfds_t i = 0; i < n; ++i) { p[i].revents = 0; if (fd < 0 && (p[i].fd == 0 || fd2c.count(p[i].fd))) fd = p[i].fd; }
  if (fd < 0 || ms > 0) yield(TIMED, 0, fd); else if (ms == 0) yield(READY); else yield(READ, 0, fd);
  int k = 0; for (nfds_t i = 0; i < n; ++i) if ((p[i].fd == 0 || fd2c.count(p[i].fd)) && readable(p[i].fd)) { p[i].revents = POLLIN; ++k; }
  return k;
}
// ---- memory of the server: filled with small numbers, never reused
static void* __real_malloc(size_t n) { return malloc(n); }
static int fillv = 0;
static set<void*>* dead;
void* ss_malloc(size_t n) {
  void* p = __real_malloc(n + 16);
  if (IN) { int* w = (int*)p; for (size_t i = 0; i < (n + 16) / 4; ++i) w[i] = fillv; }
  return p;
}
void* ss_realloc(void* p, size_t n) { return realloc(p, n + 16); }
void ss_free(void* p) {
  if (!IN || !p) { if (!inside) free(p); return; }
  if (dead->count(p)) { ev("{\"k\":\"doublefree\"}"); finish(77); }
  dead->insert(p);
}
}
// ------------------------------------------------------------ one schedule
static pair<string, string> run_one(unsigned long long seed) {
  sh->n = 0; sh->nch = 0;
  int mfd = memfd_create("out", 0);
  pid_t pid = fork();
  if (pid == 0) {
    outfd = mfd; dup2(mfd, 1);
    int dn = open("/dev/null", O_RDWR); dup2(dn, 2); dup2(dn, 0);
    signal(SIGPIPE, SIG_DFL);
    alarm(20);
    rs = seed * 2654435761ULL + 12345; rnd(2); fillv = dfs ? 2 : (int)rnd(3); dead = new set<void*>();
    C.assign(S.cl.size(), Conn());
    inside = true; newtask(); me = 0;
    vector<string> av = {"sentserver"};
    if (S.multi) av.push_back("-m");
    if (S.stay) av.push_back("--stay-alive");
    if (!S.key.empty()) { av.push_back("-k"); av.push_back(S.key); }
    vector<char*> a; for (auto& x : av) a.push_back((char*)x.c_str()); a.push_back(0);
    int r = ss_main(a.size() - 1, a.data());
    exit(r);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
  string log(sh->log, sh->n);
  // what is left of the output
  off_t end = lseek(mfd, 0, SEEK_END); string all(end, 0); if (end) pread(mfd, &all[0], end, 0); syscall(SYS_close, mfd);
  size_t seen = 0; for (size_t p = 0; (p = log.find("{\"k\":\"out\"", p)) != string::npos; ++p) ++seen;
  size_t pos = 0; for (size_t i = 0; i < seen; ++i) { size_t x = all.find('\n', pos); if (x == string::npos) break; pos = x + 1; }
  string rest = all.substr(pos);
  while (!rest.empty()) { size_t x = rest.find('\n'); log += "{\"k\":\"out\",\"t\":" + q(x == string::npos ? rest + "<no newline>" : rest.substr(0, x)) + "}\n"; rest = x == string::npos ? "" : rest.substr(x + 1); }
  if (WIFEXITED(st)) { if (WEXITSTATUS(st) != 77) log += "{\"k\":\"exit\",\"code\":" + to_string(WEXITSTATUS(st)) + "}\n"; }
  else log += "{\"k\":\"signal\",\"code\":" + to_string(WTERMSIG(st)) + "}\n";
  return make_pair(log, string());
}
int main() {
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  string line;
  while (getline(cin, line)) {
    mj::Val v = mj::parse(line);
    S = Scenario();
    for (auto& x : v["lines"].arr) S.lines.push_back(x.str);
    S.nonl = v["nonl"].num; S.multi = v["multi"].num; S.stay = v["stay"].num; S.key = v["key"].str;
    for (auto& x : v["cl"].arr) { ClientSpec c; c.script = x["s"].str; c.key = x["key"].str; S.cl.push_back(c); }
    set<string> seen; string o; long runs = 0, dup = 0;
    long n = v["n"].num; long long seed = v["seed"].num;
    auto take = [&](const string& log) {
      ++runs;
      if (!seen.insert(log).second) return;
      string e; size_t p = 0; while (p < log.size()) { size_t x = log.find('\n', p); e += (e.empty() ? "" : ",") + log.substr(p, x - p); p = x + 1; }
      o += (o.empty() ? "" : ",") + ("[" + e + "]");
    };
    dfs = v["dfs"].num >= 0 && v["dfs"].num < 100;
    if (dfs) {
      bound = v["dfs"].num; prefix.clear();
      bool complete = false;
      while (runs < n) {
        take(run_one(1).first);
        int k = sh->nch - 1;
        while (k >= 0 && sh->pick[k] + 1 >= sh->opt[k]) --k;
        if (k < 0) { complete = true; break; }
        prefix.assign(sh->pick, sh->pick + k); prefix.push_back(sh->pick[k] + 1);
      }
      printf("{\"runs\":%ld,\"complete\":%d,\"h\":[%s]}\n", runs, (int)complete, o.c_str());
    } else {
      static const int PE[] = {3, 15, 50, 85}, PS[] = {0, 40, 80, 95};
      for (long i = 0; i < n; ++i) {
        rs = seed * 1000003 + i; rnd(2);
        S.penv = PE[rnd(4)]; S.pstay = PS[rnd(4)];
        take(run_one(seed * 1000003 + i).first);
      }
      printf("{\"runs\":%ld,\"h\":[%s]}\n", runs, o.c_str());
    }
    fflush(stdout);
  }
}
