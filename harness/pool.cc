// Candidate pools, risk and entropy, and what the tuning programs are given.
#include <fstream>
#include <sstream>
#include "forest_json.h"
#include "ns.h"
#include "hg_io.h"
#include "kbest.h"
#include "viterbi.h"
#include "candidate_set.h"
#include "risk.h"
#include "entropy.h"
#include "verbose.h"
using namespace std;
using mj::W;
typedef vector<WordID> S;
typedef boost::shared_ptr<SegmentEvaluator> Ev;
static long r3(double x) { if (!(fabs(x) < 2e6)) return 1999999999L; return lround(x * 1000); }
static long r6(double x) { if (!(fabs(x) < 2000)) return 1999999999L; return lround(x * 1e6); }
static void words(W& w, const S& s) { w.a(); for (size_t i = 0; i < s.size(); ++i) w.v(fj::WdNum(s[i])); w.e(); }
static S sent(const mj::Val& v) { S s; for (size_t i = 0; i < v.size(); ++i) s.push_back(fj::Wd(v[i].i())); return s; }
static double unit(const mj::Val& c) { return c.has("u") ? double(c["u"][size_t(0)].num) / double(c["u"][1].num) : 1.0; }
static void fields(W& w, const SufficientStats& s, size_t n) { w.a(); for (size_t i = 0; i < n; ++i) w.v(r3(s[i])); w.e(); }
static void build(const mj::Val& f, double u, Hypergraph* hg) {
  fj::Build(f, hg);
  for (size_t k = 0; k < hg->edges_.size(); ++k) {
    hg->edges_[k].feature_values_ *= u;
    const_cast<TRule&>(*hg->edges_[k].rule_).scores_ *= u;
    if (f["E"][k].has("z")) hg->edges_[k].feature_values_.set_value(fj::FId(f["E"][k]["z"].i()), 0.0);   // an explicit zero
  }
}
static Ev evaluator(EvaluationMetric* m, const mj::Val& r) {
  vector<S> refs; for (size_t k = 0; k < r.size(); ++k) refs.push_back(sent(r[k]));
  return m->CreateSegmentEvaluator(refs);
}
static void cands(W& w, const training::CandidateSet& cs, int nf, double u, size_t n, const EvaluationMetric* m) {
  w.a();
  for (size_t i = 0; i < cs.size(); ++i) {
    w.o().k("y"); words(w, cs[i].ewords);
    SparseVector<double> f = cs[i].fmap; f /= u;
    w.k("f"); fj::Feats(w, f, nf); w.k("x").v(fj::ExtraFeats(f, nf)).k("st"); fields(w, cs[i].eval_feats, n);
    w.e();
  }
  w.e();
}
// every distinct yield of a forest with its statistics and score
static void table(const mj::Val& c, const Hypergraph& hg, EvaluationMetric* m, const Ev& ev, W& w, set<S>* seen) {
  const size_t n = m->SufficientStatisticsVectorSize();
  KBest::KBestDerivations<S, ESentenceTraversal> kb(hg, 1000);
  for (unsigned i = 0; i < 1000; ++i) {
    const KBest::KBestDerivations<S, ESentenceTraversal>::Derivation* d = kb.LazyKthBest(hg.nodes_.size() - 1, i);
    if (!d) break;
    if (!seen->insert(d->yield).second) continue;
    SufficientStats s; ev->Evaluate(d->yield, &s);
    w.o().k("y"); words(w, d->yield); w.k("st"); fields(w, s, n); w.k("sc").v(r6(m->ComputeScore(s))); w.e();
  }
}
static void pool(const mj::Val& c, W& w) {
  EvaluationMetric* m = EvaluationMetric::Instance(c["m"].s());
  const double u = unit(c); const int nf = 3;
  const size_t n = m->SufficientStatisticsVectorSize();
  Ev ev = evaluator(m, c["r"]);
  boost::shared_ptr<training::CandidateSet> cs(new training::CandidateSet);
  set<S> seen;
  W t; t.a();
  w.k("size").v(n).k("err").v(m->IsErrorMetric() ? 1 : 0).k("after").a();
  const mj::Val& ops = c["ops"];
  for (size_t i = 0; i < ops.size(); ++i) {
    const string k = ops[i]["op"].s();
    if (k == "reload") {
      cs->WriteToFile(c["file"].s());
      cs.reset(new training::CandidateSet);
      cs->ReadFromFile(c["file"].s());
    } else {
      Hypergraph hg; build(ops[i]["F"], u, &hg);
      vector<double> wt; fj::Weights(ops[i]["w"], &wt); wt.resize(max(wt.size(), size_t(FD::NumFeats())));
      hg.Reweight(wt);
      table(c, hg, m, ev, t, &seen);
      if (k == "uniq") cs->AddUniqueKBestCandidates(hg, ops[i]["k"].i(), ev.get());
      else cs->AddKBestCandidates(hg, ops[i]["k"].i(), ev.get());
    }
    cands(w, *cs, nf, u, n, m);
  }
  t.e();
  w.e().k("tab"); w.sep(); w.s += t.s; w.need = true;
  if (!c.has("p")) return;
  // risk and entropy at parameters that are multiples of log 2
  vector<double> p(max(size_t(FD::NumFeats()), size_t(64)), 0.0);
  for (size_t j = 0; j < c["p"].size(); ++j) p[fj::FId(j + 1)] = c["p"][j].i() * log(2.0) / u;
  SparseVector<double> g, h;
  training::CandidateSetRisk risk(*cs, *m);
  training::CandidateSetEntropy ent(*cs);
  const double r = risk(p, &g), e = ent(p, &h);
  g *= 1 / u; h *= 1 / u;
  w.k("risk").v(r6(r)).k("ent").v(r6(e)).k("rg").a(); for (int j = 1; j <= nf; ++j) w.v(r6(g.value(fj::FId(j)))); w.e();
  w.k("eg").a(); for (int j = 1; j <= nf; ++j) w.v(r6(h.value(fj::FId(j)))); w.e();
  w.k("again").v(risk(p) == r && ent(p) == e);
}
// forests for the programs, and the scores of what they can yield
static void prep(const mj::Val& c, W& w) {
  EvaluationMetric* m = EvaluationMetric::Instance(c["m"].s());
  w.k("size").v(m->SufficientStatisticsVectorSize()).k("err").v(m->IsErrorMetric() ? 1 : 0).k("tab").a();
  for (size_t i = 0; i < c["sents"].size(); ++i) {
    w.a(); set<S> seen;
    Ev ev = evaluator(m, c["sents"][i]["r"]);
    for (size_t q = 0; q < c["sents"][i]["F"].size(); ++q) {
      Hypergraph hg; build(c["sents"][i]["F"][q], unit(c), &hg);
      WriteFile wf(c["sents"][i]["write"][q].s());
      HypergraphIO::WriteToBinary(hg, wf.stream());
      table(c, hg, m, ev, w, &seen);
    }
    w.e();
  }
  w.e();
}
static void mbr(const mj::Val& c, W& w) {
  EvaluationMetric* m = EvaluationMetric::Instance(c["m"].s());
  w.k("err").v(m->IsErrorMetric() ? 1 : 0).k("sc").a();
  for (size_t g = 0; g < c["lists"].size(); ++g) {
    const mj::Val& L = c["lists"][g];
    w.a();
    for (size_t i = 0; i < L.size(); ++i) {
      Ev ev = m->CreateSegmentEvaluator(vector<S>(1, sent(L[i])));
      w.a();
      for (size_t j = 0; j < L.size(); ++j) { SufficientStats s; ev->Evaluate(sent(L[j]), &s); w.v(r6(m->ComputeScore(s))); }
      w.e();
    }
    w.e();
  }
  w.e();
}
int main() {
  mj::out();
  SetSilent(true);
  string l;
  while (getline(cin, l)) {
    mj::Val c = mj::parse(l);
    W w; w.o();
    fj::Suffix() = c.has("sfx") ? c["sfx"].s() : "";
    const string k = c["op"].s();
    if (k == "pool") pool(c, w); else if (k == "prep") prep(c, w); else mbr(c, w);
    w.e(); w.put();
  }
}
