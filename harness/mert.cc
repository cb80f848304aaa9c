// Line search: envelopes of forests, error surfaces and the step the optimiser takes.
#include <fstream>
#include <sstream>
#include "forest_json.h"
#include "ns.h"
#include "ces.h"
#include "hg_io.h"
#include "inside_outside.h"
#include "mert_geometry.h"
#include "error_surface.h"
#include "line_optimizer.h"
#include "sparse_vector.h"
#include "sampler.h"
using namespace std;
using mj::W;
typedef vector<WordID> S;
static long r3(double x) { if (!(fabs(x) < 2e6)) return 1999999999L; return lround(x * 1000); }
static long r6(double x) {
  if (x != x) return 1999999998L;
  if (x == -std::numeric_limits<double>::infinity()) return -1000000000L;
  if (!(fabs(x) < 2100)) return 1999999999L;
  return lround(floor(x * 1e6 + 1e-4));
}
static void fields(W& w, const SufficientStats& s, size_t n) { w.a(); for (size_t i = 0; i < n; ++i) w.v(r3(s[i])); w.e(); }
static void words(W& w, const S& s) { w.a(); for (size_t i = 0; i < s.size(); ++i) w.v(fj::WdNum(s[i])); w.e(); }
static void vec(const mj::Val& v, SparseVector<double>* o) { for (size_t j = 0; j < v.size(); ++j) if (v[j].i()) o->set_value(fj::FId(j + 1), v[j].i()); }

static void line(const mj::Val& c, W& w) {
  EvaluationMetric* m = EvaluationMetric::Instance(c["m"].s());
  SparseVector<double> O, D; vec(c["O"], &O); vec(c["D"], &D);
  const ConvexHullWeightFunction wf(O, D);
  const mj::Val& ss = c["sents"];
  vector<ErrorSurface> es(ss.size());
  const size_t n = m->SufficientStatisticsVectorSize();
  w.k("err").v(m->IsErrorMetric() ? 1 : 0).k("sents").a();
  for (size_t i = 0; i < ss.size(); ++i) {
    Hypergraph hg; fj::Build(ss[i]["F"], &hg);
    if (ss[i].has("write")) {
      ofstream out(ss[i]["write"].s().c_str(), ios::binary);
      HypergraphIO::WriteToBinary(hg, &out);
    }
    vector<S> refs;
    for (size_t k = 0; k < ss[i]["r"].size(); ++k) { S s; for (size_t q = 0; q < ss[i]["r"][k].size(); ++q) s.push_back(fj::Wd(ss[i]["r"][k][q].i())); refs.push_back(s); }
    boost::shared_ptr<SegmentEvaluator> ev = m->CreateSegmentEvaluator(refs);
    const ConvexHull hull = Inside<ConvexHull, ConvexHullWeightFunction>(hg, NULL, wf);
    w.o().k("hull").a();
    const vector<boost::shared_ptr<MERTPoint> >& seg = hull.GetSortedSegs();
    for (size_t k = 0; k < seg.size(); ++k) {
      S t; seg[k]->ConstructTranslation(&t);
      SufficientStats st; ev->Evaluate(t, &st);
      w.o().k("x").v(r6(seg[k]->x)).k("m").v(mj::exact(seg[k]->m)).k("b").v(mj::exact(seg[k]->b)).k("y"); words(w, t); w.k("st"); fields(w, st, n); w.e();
    }
    w.e();
    ComputeErrorSurface(*ev, hull, &es[i], m, hg);
    if (c["ser"].i(0)) { string s; es[i].Serialize(&s); ErrorSurface b; b.Deserialize(s); es[i] = b; }
    w.k("surf").a();
    for (size_t k = 0; k < es[i].size(); ++k) { w.o().k("x").v(r6(es[i][k].x)).k("f"); fields(w, es[i][k].delta, n); w.e(); }
    w.e().e();
  }
  w.e();
  float score = 0;
  LineOptimizer::ScoreType type = m->IsErrorMetric() ? LineOptimizer::MINIMIZE_SCORE : LineOptimizer::MAXIMIZE_SCORE;
  double pos = c.has("eps") ? LineOptimizer::LineOptimize(m, es, type, &score, c["eps"].num / 1e6) : LineOptimizer::LineOptimize(m, es, type, &score);
  w.k("pos").v(r6(pos)).k("sc").v(r6(score));
}
static void dirs(const mj::Val& c, W& w) {
  vector<int> f; for (size_t i = 0; i < c["f"].size(); ++i) f.push_back(fj::FId(c["f"][i].i()));
  RandomNumberGenerator<boost::mt19937> rng(c["seed"].i(1));
  vector<SparseVector<double> > d;
  LineOptimizer::CreateOptimizationDirections(f, c["n"].i(), &rng, &d, c["inc"].i(1) != 0);
  w.k("dirs").a();
  const int nf = c["nf"].i();
  for (size_t i = 0; i < d.size(); ++i) {
    w.o().k("v").a(); for (int j = 1; j <= nf; ++j) w.v((long)lround(d[i].value(fj::FId(j)) * 1e4)); w.e();
    double l2 = d[i].dot(d[i]);
    w.k("l2").v(r6(l2)).k("x").v(fj::ExtraFeats(d[i], nf)).e();
  }
  w.e();
}
int main() {
  mj::out();
  string l;
  while (getline(cin, l)) {
    mj::Val c = mj::parse(l);
    W w; w.o();
    if (c["op"].s() == "dirs") dirs(c, w); else line(c, w);
    w.e(); w.put();
  }
}
