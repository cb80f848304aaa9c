// Queries, chart fragments and partial application on generated language models.
#include "lm/model.hh"
#include "lm/left.hh"
#include "lm/partial.hh"
#include "lm/enumerate_vocab.hh"
#include "mini_json.h"
#include <sstream>
#include <fstream>
#include <unistd.h>
using namespace lm::ngram;
using mj::Val; using mj::W;
typedef std::vector<lm::WordIndex> Ids;
static long Fix(double x) { double y = x * 8; long r = std::lround(y); if (!(std::fabs(y) < 1e8) || std::fabs(y - r) > 1e-2) return 999999999; return r; }
struct Enum : public lm::EnumerateVocab {
  std::vector<std::pair<long, std::string> > got;
  void Add(lm::WordIndex i, const StringPiece& s) { got.push_back(std::make_pair(long(i), std::string(s.data(), s.size()))); }
};
template <class M> struct Run {
  const M& m; const Val& c; W& w; Ids id; std::map<lm::WordIndex, long> back;
  std::map<long, long> ptr;   // pointers are arbitrary numbers: renumber by first appearance
  Run(const M& mm, const Val& cc, W& ww) : m(mm), c(cc), w(ww) {
    const Val& v = c["vocab"];
    for (size_t i = 0; i < v.size(); ++i) {
      lm::WordIndex x = i == 0 ? m.GetVocabulary().NotFound() : i == 1 ? m.GetVocabulary().BeginSentence() : i == 2 ? m.GetVocabulary().EndSentence() : m.GetVocabulary().Index(v[i].s());
      id.push_back(x); if (!back.count(x)) back[x] = i;
    }
  }
  void Words(const State& s) { w.a(); for (int i = 0; i < s.length; ++i) w.v(back.count(s.words[i]) ? back[s.words[i]] : -1L); w.e(); }
  void Backs(const State& s) { w.a(); for (int i = 0; i < s.length; ++i) w.v(Fix(s.backoff[i])); w.e(); }
  void Query(const Val& q) {
    bool bos = q["bos"].b();
    State st(bos ? m.BeginSentenceState() : m.NullContextState()), out, o2, gs;
    Ids hist; if (bos) hist.push_back(m.GetVocabulary().BeginSentence());
    std::vector<char> vs(m.StateSize()), vo(m.StateSize());
    if (bos) m.BeginSentenceWrite(&vs[0]); else m.NullContextWrite(&vs[0]);
    w.o().k("bos").v(long(bos)).k("s").a();
    for (size_t i = 0; i < q["w"].size(); ++i) w.v(long(q["w"][i].i()));
    w.e().k("r").a();
    for (size_t i = 0; i < q["w"].size(); ++i) {
      lm::WordIndex x = id[q["w"][i].i()];
      lm::FullScoreReturn r = m.FullScore(st, x, out);
      Ids rev(hist.rbegin(), hist.rend()); const lm::WordIndex* b = rev.empty() ? &x : &rev[0];
      lm::FullScoreReturn f = m.FullScoreForgotState(b, b + rev.size(), x, o2);
      hist.push_back(x);
      Ids rev2(hist.rbegin(), hist.rend());
      m.GetState(&rev2[0], &rev2[0] + rev2.size(), gs);
      float p1 = m.BaseScore(&vs[0], x, &vo[0]);
      lm::FullScoreReturn v = m.BaseFullScore(&vs[0], x, &vo[0]);
      lm::FullScoreReturn v2 = m.BaseFullScoreForgotState(b, b + rev.size(), x, &o2);
      w.o().k("p").a().v(Fix(r.prob)).v(Fix(f.prob)).v(Fix(p1)).v(Fix(v.prob)).v(Fix(v2.prob)).e();
      w.k("n").a().v(long(r.ngram_length)).v(long(f.ngram_length)).v(long(v.ngram_length)).v(long(v2.ngram_length)).e();
      w.k("il").a().v(long(r.independent_left)).v(long(v.independent_left)).e().k("rest").v(Fix(r.rest));
      w.k("st"); Words(out); w.k("bo"); Backs(out);
      w.k("gs"); Words(gs); w.k("gb"); Backs(gs); w.k("fs"); Words(o2); w.k("fb"); Backs(o2);
      w.k("eq").v(long(out == gs && !out.Compare(gs) && !(out < gs) && !(gs < out) && out == o2 && hash_value(out) == hash_value(gs) && !memcmp(&vo[0], &out, 0))).e();
      st = out; vs = vo;
    }
    w.e().e();
  }
  void Frag(const ChartState& s, float p, const std::vector<long>& str, bool bos) {
    w.o().k("s").a(); for (size_t i = 0; i < str.size(); ++i) w.v(str[i]); w.e().k("bos").v(long(bos)).k("p").v(Fix(p));
    w.k("ll").v(long(s.left.length)).k("lf").v(long(s.left.full)).k("rw"); Words(s.right); w.k("rb"); Backs(s.right);
    w.k("ptr").a();
    for (int i = 0; i < s.left.length; ++i) { long x = s.left.pointers[i]; if (!ptr.count(x)) { long n = ptr.size(); ptr[x] = n; } w.v(ptr[x]); }
    w.e().e();
  }
  struct N { ChartState s; float p; std::vector<long> str; bool bos; };
  std::vector<N> all;
  N Tree(const Val& t) {
    N n; n.bos = t["b"].b(); n.p = 0;
    // children first
    std::vector<N> kids; const Val& ch = t["c"];
    for (size_t i = 0; i < ch.size(); ++i) if (ch[i].t == Val::OBJ) kids.push_back(Tree(ch[i]));
    memset(&n.s, 0x5a, sizeof(n.s));
    RuleScore<M> rs(m, n.s); size_t k = 0;
    if (t["reset"].b()) { rs.Terminal(id[2]); ChartState other; rs.Reset(other); rs.Terminal(id[0]); rs.Reset(n.s); }
    if (n.bos) rs.BeginSentence();
    for (size_t i = 0; i < ch.size(); ++i) {
      if (ch[i].t == Val::OBJ) {
        const N& q = kids[k++];
        if (i == 0 && !n.bos && (t["bn"].b() || q.bos)) rs.BeginNonTerminal(q.s, q.p); else rs.NonTerminal(q.s, q.p);
        if (q.bos) n.bos = true;
        n.str.insert(n.str.end(), q.str.begin(), q.str.end());
      } else { rs.Terminal(id[ch[i].i()]); n.str.push_back(ch[i].i()); }
    }
    n.p = rs.Finish();
    Frag(n.s, n.p, n.str, n.bos); all.push_back(n);
    return n;
  }
  N Flat(const Val& v, bool bos) {
    N n; n.bos = bos; RuleScore<M> rs(m, n.s); if (bos) rs.BeginSentence();
    for (size_t i = 0; i < v.size(); ++i) { n.str.push_back(v[i].i()); rs.Terminal(id[v[i].i()]); }
    n.p = rs.Finish(); return n;
  }
  // A X B, the state of X revealed piece by piece (as the incremental search does)
  void Apply(const Val& a) {
    N A = Flat(a["A"], a["bos"].b()), X = Flat(a["X"], false), B = Flat(a["B"], false);
    float adj = 0; int l = 0, r = 0; bool lf = false, rf = false;
    const int L = X.s.left.length, R = X.s.right.length; const bool full = X.s.left.full;
    const Val& plan = a["plan"]; size_t pi = 0;      // each step: [side, how many]
    ChartState cur = X.s;
    while (l < L || r < R || (full && (!lf || !rf))) {
      int side = 0, how = 100;
      if (pi < plan.size()) { side = plan[pi][0].i(); how = plan[pi][1].i(); ++pi; }
      else side = (l < L || (full && !lf)) ? 0 : 1;
      if (side == 0) {
        if (l == L && (!full || lf)) continue;
        int to = std::min(L, l + how); bool f = full && to == L && (how >= 2 || l == L);
        if (to == l && !f) continue;
        Left rev = X.s.left; rev.length = to; rev.full = f;
        adj += RevealAfter(m, A.s.left, A.s.right, rev, l); l = to; lf = f;
      } else {
        if (r == R && (!full || rf)) continue;
        int to = std::min(R, r + how); bool f = full && to == R && (how >= 2 || r == R);
        if (to == r && !f) continue;
        Right rev = X.s.right; rev.length = to;
        adj += RevealBefore(m, rev, r, f, B.s.left, B.s.right); r = to; rf = f;
      }
    }
    if (full) A.s.left.full = true;
    else adj += Subsume(m, A.s.left, A.s.right, B.s.left, B.s.right, L);
    N o; o.s.left = A.s.left; o.s.right = B.s.right; o.bos = A.bos; o.str = A.str;
    o.str.insert(o.str.end(), X.str.begin(), X.str.end()); o.str.insert(o.str.end(), B.str.begin(), B.str.end());
    Frag(o.s, A.p + X.p + B.p + adj, o.str, o.bos); all.push_back(o);
  }
  void operator()() {
    w.k("ord").v(long(m.Order())).k("ids").a(); for (size_t i = 0; i < id.size(); ++i) w.v(long(id[i])); w.e();
    w.k("bound").v(long(m.GetVocabulary().Bound()));
    w.k("q").a(); for (size_t i = 0; i < c["q"].size(); ++i) Query(c["q"][i]); w.e();
    w.k("t").a(); for (size_t i = 0; i < c["t"].size(); ++i) Tree(c["t"][i]);
    for (size_t i = 0; i < c["ap"].size(); ++i) Apply(c["ap"][i]);
    w.e();
    // equality, order and hashes of all fragments agree with equality of strings (checked where strings are equal)
    w.k("same").a(); w.v(1L);
    for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j < i; ++j) if (all[i].str == all[j].str && all[i].bos == all[j].bos) {
      ChartState x = all[i].s, y = all[j].s; x.ZeroRemaining(); y.ZeroRemaining();
      bool bytes = x.left.length == y.left.length && x.right.length == y.right.length && !memcmp(x.left.pointers, y.left.pointers, sizeof x.left.pointers) && !memcmp(x.right.words, y.right.words, sizeof x.right.words);
      w.v(long(all[i].s == all[j].s && !all[i].s.Compare(all[j].s) && !(all[i].s < all[j].s) && hash_value(all[i].s) == hash_value(all[j].s) && bytes));
    }
    w.e();
  }
};
template <class M> void Do(const Val& c, W& w) {
  const Val& how = c["how"]; Config cfg; Enum en;
  cfg.messages = 0; cfg.show_progress = false; cfg.arpa_complain = Config::NONE; cfg.enumerate_vocab = &en;
  cfg.sentence_marker_missing = lm::SILENT; cfg.unknown_missing = lm::SILENT; cfg.positive_log_probability = lm::SILENT;
  if (how.has("unk")) cfg.unknown_missing_logprob = how["unk"].i() / 8.0;
  if (how.has("mult")) cfg.probing_multiplier = how["mult"].num;
  if (how.has("qb")) cfg.prob_bits = how["qb"].i(); if (how.has("bb")) cfg.backoff_bits = how["bb"].i();
  if (how.has("ab")) cfg.pointer_bhiksha_bits = how["ab"].i();
  cfg.building_memory = how["mem"].i(1 << 20);
  for (size_t i = 0; i < how["lower"].size(); ++i) cfg.rest_lower_files.push_back(how["lower"][i].s());
  if (cfg.rest_lower_files.size()) cfg.rest_function = Config::REST_LOWER;
  std::string bin = c["file"].s() + ".bin", tmp = c["file"].s() + ".tmp";
  cfg.temporary_directory_prefix = tmp.c_str();
  std::string via = how["via"].s();
  long loads[] = {util::LAZY, util::POPULATE_OR_LAZY, util::POPULATE_OR_READ, util::READ, util::PARALLEL_READ};
  cfg.load_method = static_cast<util::LoadMethod>(loads[how["load"].i(0)]);
  if (via != "arpa") {
    cfg.write_mmap = bin.c_str(); cfg.write_method = via == "mmap" ? Config::WRITE_MMAP : Config::WRITE_AFTER; cfg.include_vocab = how["voc"].i(1);
    if (how["keep"].b()) { M m(c["file"].s().c_str(), cfg); Run<M> r(m, c, w); r(); }   // use the model that was written
    else {
      { M m(c["file"].s().c_str(), cfg); }
      cfg.write_mmap = 0; en.got.clear(); if (!cfg.include_vocab) cfg.enumerate_vocab = 0;
      ModelType t; bool rb = RecognizeBinary(bin.c_str(), t);
      w.k("recog").v(long(rb && t == M::kModelType));
      M m(bin.c_str(), cfg); Run<M> r(m, c, w); r();
    }
  } else { M m(c["file"].s().c_str(), cfg); Run<M> r(m, c, w); r(); }
  w.k("enum").a(); for (size_t i = 0; i < en.got.size(); ++i) w.a().v(en.got[i].first).v(en.got[i].second).e(); w.e();
  unlink(bin.c_str());
}
static void One(const std::string& line) {
  Val c = mj::parse(line); W w; w.o();
  { std::ofstream f(c["file"].s().c_str()); f << c["arpa"].s(); }
  try {
    std::string t = c["how"]["type"].s();
    if (t == "probing") Do<ProbingModel>(c, w); else if (t == "rest") Do<RestProbingModel>(c, w);
    else if (t == "trie") Do<TrieModel>(c, w); else if (t == "qtrie") Do<QuantTrieModel>(c, w);
    else if (t == "atrie") Do<ArrayTrieModel>(c, w); else Do<QuantArrayTrieModel>(c, w);
    w.e();
    std::fprintf(mj::out(), "%s\n", w.s.c_str());
  } catch (const std::exception& e) {
    W x; x.o().k("crash").v(std::string("exception: ") + e.what()).e(); std::fprintf(mj::out(), "%s\n", x.s.c_str());
  }
  unlink(c["file"].s().c_str());
  std::fflush(mj::out());
}
int main() { mj::out(); std::string l; while (std::getline(std::cin, l)) if (!l.empty()) One(l); return 0; }
