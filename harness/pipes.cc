// Queues, chains of block workers, sorters and thread pools of klm/util under a
// deterministic scheduler.  Every case is run under many schedules, each in a child process;
// distinct observations are reported once.
#include "util/pcqueue.hh"
#include "util/thread_pool.hh"
#include "util/stream/chain.hh"
#include "util/stream/multi_stream.hh"
#include "util/stream/stream.hh"
#include "util/stream/io.hh"
#include "util/stream/sort.hh"
#include "mini_json.h"
#include "detsched.h"
#include <boost/thread/thread.hpp>
#include <boost/utility/in_place_factory.hpp>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <set>
#include <memory>
#include <cstring>
using mj::Val; using mj::W;
using namespace util::stream;
typedef std::vector<long> Seq;

// ---------------------------------------------------------------- queue
struct Ev { long t, k, v; };       // k: 0 put called, 1 put returned, 2 get called, 3 get returned, 4 put failed, 5 get failed, 6 done
static std::vector<Ev> evs;
static void Log(long t, long k, long v) { Ev e = {t, k, v}; evs.push_back(e); }
struct Boom {};
static __thread bool throw_next = false;
struct Item {           // copying takes two steps, and may fail
  long a, b;
  Item() : a(0), b(0) {}
  explicit Item(long v) : a(v), b(v) {}
  Item& operator=(const Item& o) {
    if (throw_next) { throw_next = false; throw Boom(); }
    a = o.a; detsched::Yield(); b = o.b; return *this;
  }
  long get() const { return a == b ? a : -1; }
};
struct User {
  util::PCQueue<Item>* q; const Val* ops; long id;
  void operator()() {
    for (size_t i = 0; i < ops->size(); ++i) {
      const Val& o = (*ops)[i];
      bool put = o[size_t(0)].s() == "p"; long v = o[size_t(1)].i(); bool boom = o[size_t(2)].b();
      if (put) {
        Item it(v); Log(id, 0, v); throw_next = boom;
        try { q->Produce(it); throw_next = false; Log(id, 1, v); } catch (const Boom&) { Log(id, 4, v); }
      } else {
        Item it; Log(id, 2, 0); throw_next = boom;
        try { if (v) { q->Consume(it); } else { it = Item(0); q->Consume(it); } throw_next = false; Log(id, 3, it.get()); } catch (const Boom&) { Log(id, 5, 0); }
      }
    }
    Log(id, 6, 0);
  }
};
static void WriteEvs(W& w) { w.k("ev").a(); for (const Ev& e : evs) w.a().v(e.t).v(e.k).v(e.v).e(); w.e(); }
static void DoQueue(const Val& c, W& w) {
  util::PCQueue<Item> q(c["cap"].i());
  boost::thread_group g; std::vector<User> us(c["prog"].size());
  for (size_t i = 0; i < us.size(); ++i) { us[i].q = &q; us[i].ops = &c["prog"][i]; us[i].id = i + 1; }
  for (User& u : us) g.create_thread(boost::ref(u));
  g.join_all();
}
// ---------------------------------------------------------------- pool
struct Handler {
  typedef long Request; long id;
  static long next;
  explicit Handler(long base) : id(base + next++) {}
  void operator()(long r) { Log(id, 0, r); detsched::Yield(); Log(id, 1, r); }
};
long Handler::next = 1;
static void DoPool(const Val& c, W& w) {
  {
    util::ThreadPool<Handler> p(c["cap"].i(), c["workers"].i(), 0L, -1L);
    for (size_t i = 0; i < c["req"].size(); ++i) p.Produce(c["req"][i].i());
  }
  Log(0, 6, 0);
}
// ---------------------------------------------------------------- chains
struct Obs { Seq in, out; long ends; std::string kind; Obs() : ends(0) {} };
static std::vector<Obs*> obs;
static Obs* NewObs(const std::string& k) { Obs* o = new Obs; o->kind = k; obs.push_back(o); return o; }
static void Put(void* p, size_t es, long key, long pay) {
  unsigned char* b = static_cast<unsigned char*>(p); uint32_t k = key, q = pay;
  memcpy(b, &k, 4); if (es >= 8) memcpy(b + 4, &q, 4);
  for (size_t i = 8; i < es; ++i) b[i] = static_cast<unsigned char>(k * 7 + i);
}
static bool Get(const void* p, size_t es, long& key, long& pay) {
  const unsigned char* b = static_cast<const unsigned char*>(p); uint32_t k, q = 0;
  memcpy(&k, b, 4); if (es >= 8) memcpy(&q, b + 4, 4);
  key = k; pay = q;
  for (size_t i = 8; i < es; ++i) if (b[i] != static_cast<unsigned char>(k * 7 + i)) { key = -7; pay = -7; return false; }
  return true;
}
// a record is logged as key * 1000 + payload (payload < 1000); anything else as -7
static long Val1(const void* p, size_t es) { long k, q; Get(p, es, k, q); if (k < 0 || k > 2000000 || q < 0 || q > 999) return -7; return k * 1000 + q; }
static void Set1(void* p, size_t es, long v) { Put(p, es, v / 1000, v % 1000); }
struct SrcW { const Val* v; Obs* o;
  void Run(const ChainPosition& pos) {
    size_t es = pos.GetChain().EntrySize(); Stream s(pos);
    for (size_t i = 0; i < v->size(); ++i, ++s) { detsched::Yield(); Set1(s.Get(), es, (*v)[i].i()); o->out.push_back((*v)[i].i()); }
    s.Poison(); ++o->ends;
  } };
struct LSrcW { const Val* v; const Val* sizes; Obs* o;
  void Run(const ChainPosition& pos) {
    size_t es = pos.GetChain().EntrySize(), per = pos.GetChain().BlockSize() / es, at = 0, k = 0; Link l(pos);
    while (at < v->size() || k < sizes->size()) {
      size_t n = k < sizes->size() ? std::min<size_t>((*sizes)[k].i(), per) : per; ++k;
      n = std::min(n, v->size() - at);
      for (size_t i = 0; i < n; ++i, ++at) { detsched::Yield(); Set1(static_cast<char*>(l->Get()) + i * es, es, (*v)[at].i()); o->out.push_back((*v)[at].i()); }
      l->SetValidSize(n * es); ++l;
    }
    l.Poison(); ++o->ends;
  } };
struct AddW { long c; Obs* o;
  void Run(const ChainPosition& pos) {
    size_t es = pos.GetChain().EntrySize();
    for (Stream s(pos); s; ++s) { long v = Val1(s.Get(), es); o->in.push_back(v); detsched::Yield(); if (c) Set1(s.Get(), es, v + 1000 * c); o->out.push_back(v + 1000 * c); }
    ++o->ends;
  } };
struct DropW { long m, r; Obs* o;
  void Run(const ChainPosition& pos) {
    size_t es = pos.GetChain().EntrySize();
    for (Link l(pos); l; ++l) {
      char* b = static_cast<char*>(l->Get()); char* to = b;
      for (char* p = b; p < static_cast<const char*>(l->ValidEnd()); p += es) {
        long v = Val1(p, es); o->in.push_back(v); detsched::Yield();
        if ((v / 1000) % m != r) { if (to != p) memcpy(to, p, es); to += es; o->out.push_back(v); }
      }
      l->SetValidSize(to - b);
    }
    ++o->ends;
  } };
struct FanW { size_t n; std::vector<Obs*> o;     // first chain is read, the others written
  void Run(const ChainPositions& pos) {
    Streams s(pos); std::vector<size_t> es; for (size_t i = 0; i < n; ++i) es.push_back(pos[i].GetChain().EntrySize());
    for (; s[0]; ++s[0]) {
      long v = Val1(s[0].Get(), es[0]); o[0]->in.push_back(v); o[0]->out.push_back(v); detsched::Yield();
      for (size_t i = 1; i < n; ++i) if ((v / 1000) % n != i) { long x = v + 1000 * long(i); if (es[i] < 8) x -= x % 1000; Set1(s[i].Get(), es[i], x); o[i]->out.push_back(x); ++s[i]; }
    }
    ++o[0]->ends;
    for (size_t i = 1; i < n; ++i) { s[i].Poison(); ++o[i]->ends; }
  } };
struct KeyLess : public std::binary_function<const void*, const void*, bool> {
  bool operator()(const void* a, const void* b) const { uint32_t x, y; memcpy(&x, a, 4); memcpy(&y, b, 4); return x < y; }
};
struct AddUp { template <class C> bool operator()(void* into, const void* option, const C& cmp) const {
    if (cmp(into, option)) return false;
    uint32_t x, y; memcpy(&x, static_cast<char*>(into) + 4, 4); memcpy(&y, static_cast<const char*>(option) + 4, 4); x += y; memcpy(static_cast<char*>(into) + 4, &x, 4); return true; } };
struct TapW { Seq* blocks; bool reset; void Run(const ChainPosition& pos) { size_t es = pos.GetChain().EntrySize(); for (Link l(pos); l; ++l) blocks->push_back(l->ValidSize() / es); } };
static std::vector<int> files; static std::vector<std::unique_ptr<FileBuffer> > fbs;
static std::string tmp_prefix;
static Seq blocks; static Seq geom; static Seq fsize;
static Seq ReadBack(int fd, size_t es) {
  Seq r; std::vector<char> b(es); off_t off = 0; 
  while (true) { ssize_t g = ::syscall(SYS_pread64, fd, &b[0], es, off); if (g <= 0) break; if (size_t(g) != es) { r.push_back(-8); break; } r.push_back(Val1(&b[0], es)); off += es; }
  return r;
}
static ChainConfig CC(const Val& c) { return ChainConfig(c["es"].i(), c["n"].i(), c["mem"].i()); }
static void AddStage(Chain& ch, const Val& s, std::vector<std::shared_ptr<void> >& keep) {
  std::string k = s["k"].s(); Obs* o = NewObs(k);
  if (k == "src") { SrcW x = {&s["v"], o}; ch >> x; }
  else if (k == "lsrc") { LSrcW x = {&s["v"], &s["sz"], o}; ch >> x; }
  else if (k == "add") { AddW x = {s["c"].i(), o}; ch >> x; }
  else if (k == "drop") { DropW x = {s["m"].i(), s["r"].i(), o}; ch >> x; }
  else if (k == "write") { ch >> Write(files[s["f"].i()]); }
  else if (k == "read") { util::SeekOrThrow(files[s["f"].i()], 0); ch >> Read(files[s["f"].i()]); }
  else if (k == "pread") { ch >> PRead(files[s["f"].i()]); }
  else if (k == "fbread") { ch >> fbs[s["f"].i()]->Source(); }
  else if (k == "wrec") { ch >> WriteAndRecycle(files[s["f"].i()]); }
  else if (k == "pwrec") { ch >> PWriteAndRecycle(files[s["f"].i()]); }
  else if (k == "fbsink") { ch >> fbs[s["f"].i()]->Sink(); }
  else if (k == "recycle") { ch >> kRecycle; }
}
static void DoChain(const Val& c, W& w) {
  const Val& cs = c["chains"];
  for (long i = 0; i < c["files"].i(); ++i) files.push_back(util::MakeTemp(tmp_prefix));
  for (long i = 0; i < c["files"].i(); ++i) fbs.push_back(std::unique_ptr<FileBuffer>(new FileBuffer(util::MakeTemp(tmp_prefix))));
  Chains chains(cs.size());
  for (size_t i = 0; i < cs.size(); ++i) { chains.push_back(CC(cs[i])); geom.push_back(chains[i].BlockSize()); geom.push_back(chains[i].EntrySize()); }
  for (size_t r = 0; r < c["rounds"].size(); ++r) {
    const Val& R = c["rounds"][r]; std::vector<std::shared_ptr<void> > keep;
    for (size_t i = 0; i < R["trunc"].size(); ++i) util::ResizeOrThrow(files[R["trunc"][i].i()], 0), util::SeekOrThrow(files[R["trunc"][i].i()], 0);
    std::unique_ptr<Stream> mp(new Stream); Stream& mains = *mp; bool have_main = false; Obs* mo = 0; size_t mes = 0;
    for (size_t i = 0; i < R["st"].size(); ++i) {
      const Val& s = R["st"][i];
      if (s["k"].s() == "fan") { FanW x; x.n = cs.size(); for (size_t j = 0; j < cs.size(); ++j) x.o.push_back(NewObs("fan")); chains >> x; }
      else if (s["k"].s() == "main") { mo = NewObs("main"); mes = chains[s["ch"].i()].EntrySize(); chains[s["ch"].i()] >> mains; have_main = true; }
      else AddStage(chains[s["ch"].i()], s, keep);
    }
    if (have_main) { for (; mains; ++mains) { detsched::Yield(); mo->in.push_back(Val1(mains.Get(), mes)); mo->out.push_back(mo->in.back()); } ++mo->ends; }
    mp.reset();      // a reader that met the end at once passes it on when it is destroyed
    chains.Wait(R["release"].b());
  }
  for (size_t i = 0; i < files.size(); ++i) fsize.push_back(util::SizeOrThrow(files[i]));
}
template <class Combine> static void SortIt(const Val& c, const Combine& comb) {
  Chain in(CC(c["in"])); std::vector<std::shared_ptr<void> > keep;
  for (size_t i = 0; i < c["pre"].size(); ++i) AddStage(in, c["pre"][i], keep);
  TapW tap = {&blocks, false}; in >> tap;
  SortConfig sc; sc.temp_prefix = tmp_prefix; sc.buffer_size = c["buf"].i(); sc.total_memory = c["total"].i();
  Sort<KeyLess, Combine> sorter(in, sc, KeyLess(), comb);
  in.Wait(true);
  geom.push_back(in.BlockSize()); geom.push_back(in.EntrySize()); geom.push_back(sorter.Size());
  std::string mode = c["mode"].s();
  if (mode == "steal") { files.push_back(sorter.StealCompleted()); return; }
  Chain out(CC(c["out"]));
  geom.push_back(out.BlockSize()); geom.push_back(out.EntrySize());
  if (mode == "lazy") sorter.Output(out, c["lazy"].i());
  else if (mode == "need") { size_t m = sorter.Merge(c["lazy"].i()); sorter.Output(out, m); }
  else sorter.Output(out);
  for (size_t i = 0; i < c["post"].size(); ++i) AddStage(out, c["post"][i], keep);
  if (c["read"].b()) {
    Stream s; Obs* mo = NewObs("main"); size_t es = out.EntrySize(); out >> s >> kRecycle;
    for (; s; ++s) { detsched::Yield(); mo->in.push_back(Val1(s.Get(), es)); mo->out.push_back(mo->in.back()); } ++mo->ends;
  }
  out.Wait();
}
static void DoSort(const Val& c, W& w) { if (c["comb"].b()) SortIt(c, AddUp()); else SortIt(c, NeverCombine()); }
static void Dump(W& w, const char* k, const Seq& s) { w.k(k).a(); for (long x : s) w.v(x); w.e(); }
static void WriteAll(W& w, const Val& c) {
  WriteEvs(w);
  w.k("obs").a(); for (Obs* o : obs) { w.o().k("k").v(o->kind); Dump(w, "in", o->in); Dump(w, "out", o->out); w.k("ends").v(o->ends).e(); } w.e();
  size_t es = c.has("chains") ? c["chains"][size_t(0)]["es"].i() : c.has("in") ? c["in"]["es"].i() : 8;
  w.k("files").a(); for (int f : files) { w.a(); for (long x : ReadBack(f, es)) w.v(x); w.e(); } w.e();
  Dump(w, "blocks", blocks); Dump(w, "geom", geom); Dump(w, "fsize", fsize);
}
// ---------------------------------------------------------------- one schedule
static int pipefd[2];
static void Send(const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t g = ::syscall(SYS_write, pipefd[1], s.data() + o, s.size() - o); if (g <= 0) break; o += g; } }
static void Finish(const Val& c, const char* how) {
  W w; w.o().k("end").v(how); WriteAll(w, c); w.e();
  std::string s = w.s + "\n"; 
  std::string ch; for (detsched::Choice& x : detsched::choices) { ch += std::to_string(x.n) + " " + std::to_string(x.cur) + " " + std::to_string(x.picked) + " "; }
  Send(s + ch + "\n"); _exit(0);
}
struct Outcome { std::string rec; std::vector<detsched::Choice> ch; };
static Outcome RunOne(const Val& c, const detsched::Policy& p) {
  if (pipe(pipefd)) _exit(7);
  pid_t k = fork();
  if (!k) {
    close(pipefd[0]); alarm(20);
    detsched::on_stop = [&](const char* how) { Finish(c, how); };
    detsched::Start(p);
    std::string t = c["k"].s(); W dummy;
    try { if (t == "queue") DoQueue(c, dummy); else if (t == "pool") DoPool(c, dummy); else if (t == "chain") DoChain(c, dummy); else DoSort(c, dummy); }
    catch (const std::exception& e) { Finish(c, (std::string("exception: ") + e.what()).c_str()); }
    Finish(c, "ok");
  }
  close(pipefd[1]); std::string all; char b[65536]; ssize_t g;
  while ((g = ::syscall(SYS_read, pipefd[0], b, sizeof b)) > 0) all.append(b, g);
  close(pipefd[0]); int st; waitpid(k, &st, 0);
  Outcome o; size_t nl = all.find('\n');
  if (nl == std::string::npos) { o.rec = std::string("{\"end\":\"") + (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit") + "\"}"; return o; }
  o.rec = all.substr(0, nl); std::istringstream is(all.substr(nl + 1)); detsched::Choice x; while (is >> x.n >> x.cur >> x.picked) o.ch.push_back(x);
  return o;
}
static void One(const std::string& line) {
  Val c = mj::parse(line); tmp_prefix = c["tmp"].s();
  std::set<std::string> seen; std::vector<std::string> recs; long runs = 0, points = 0; bool stop = false;
  auto note = [&](const Outcome& o) { ++runs; points = std::max<long>(points, o.ch.size()); if (seen.insert(o.rec).second) recs.push_back(o.rec); if (recs.size() >= size_t(c["keep"].i(200))) stop = true; };
  // every schedule with at most `pre` pre-emptions, in depth-first order, up to a limit
  long dfs = c["dfs"].i(0), pre = c["pre"].i(1);
  if (dfs) {
    std::vector<std::pair<std::vector<int>, int> > todo(1, std::make_pair(std::vector<int>(), 0));
    while (!todo.empty() && runs < dfs && !stop) {
      size_t pick = runs % 2 ? todo.size() - 1 : detsched::Rnd(todo.size());
      std::swap(todo[pick], todo.back());
      std::pair<std::vector<int>, int> x = todo.back(); todo.pop_back();
      detsched::Policy p; p.mode = 0; p.prefix = x.first; Outcome o = RunOne(c, p); note(o);
      std::vector<int> taken; for (size_t i = 0; i < o.ch.size(); ++i) taken.push_back(o.ch[i].picked);
      for (size_t i = x.first.size(); i < o.ch.size(); ++i)
        for (int j = 0; j < o.ch[i].n; ++j) {
          if (j == o.ch[i].picked) continue;
          int cost = x.second + (o.ch[i].cur >= 0 && j != o.ch[i].cur);
          if (cost > pre || todo.size() > 200000) continue;
          std::vector<int> pf(taken.begin(), taken.begin() + i); pf.push_back(j); todo.push_back(std::make_pair(pf, cost));
        }
    }
  }
  for (long i = 0; i < c["rnd"].i(0) && !stop; ++i) {
    detsched::Policy p; p.seed = c["seed"].i() * 1000 + i + 1; p.mode = 1 + i % 2;
    static const double ps[] = {.02, .1, .3, .6, 1};
    p.p = ps[(i / 2) % 5]; p.depth = 1 + (i / 2) % 8; p.len = c["len"].i(400);
    if (i % 3 == 2) { p.eintr = .1; p.partial = .2; }
    note(RunOne(c, p));
  }
  std::string s = "{\"runs\":" + std::to_string(runs) + ",\"points\":" + std::to_string(points) + ",\"r\":[";
  for (size_t i = 0; i < recs.size(); ++i) s += (i ? "," : "") + recs[i];
  s += "]}"; std::fprintf(mj::out(), "%s\n", s.c_str()); std::fflush(mj::out());
}
int main() { mj::out(); std::string l; while (std::getline(std::cin, l)) if (!l.empty()) One(l); return 0; }
