// Runs forest operations of the real library on forests given as JSON.
#include <iostream>
#include <sstream>
#include "forest_json.h"
#include "kbest.h"
#include "viterbi.h"
#include "inside_outside.h"
#include "hg_union.h"
#include "hg_remove_eps.h"
#include "hg_io.h"
#include "exp_semiring.h"
#include "verbose.h"
#include "lattice.h"
#include "fdict.h"
using namespace std;
bool SILENT_dummy;
namespace {
map<const HG::Edge*, int> eidx;  // edge -> index in the case
struct TreeTrav {
  typedef string Result;
  void operator()(const HG::Edge& e, const vector<const string*>& ants, string* r) const {
    map<const HG::Edge*, int>::const_iterator it = eidx.find(&e);
    *r = "[" + to_string(it == eidx.end() ? -1 : it->second);
    for (size_t i = 0; i < ants.size(); ++i) *r += "," + *ants[i];
    *r += "]";
  }
};
struct PairTrav {  // yield with the tree riding along: the filter sees the yield only
  typedef pair<vector<WordID>, string> Result;
  void operator()(const HG::Edge& e, const vector<const Result*>& ants, Result* r) const {
    vector<const vector<WordID>*> a; vector<const string*> b;
    for (size_t i = 0; i < ants.size(); ++i) { a.push_back(&ants[i]->first); b.push_back(&ants[i]->second); }
    ESentenceTraversal()(e, a, &r->first); TreeTrav()(e, b, &r->second);
  }
};
struct PairUnique { KBest::FilterUnique f; bool operator()(const PairTrav::Result& r) { return f(r.first); } };
void Words(mj::W& w, const vector<WordID>& s) { w.a(); for (size_t i = 0; i < s.size(); ++i) w.v(fj::WdNum(s[i])); w.e(); }
template <class F> void KB(const Hypergraph& g, int k, int nf, mj::W& w) {
  KBest::KBestDerivations<PairTrav::Result, PairTrav, F> kb(g, k);
  for (int i = 0; i < k; ++i) {
    typename KBest::KBestDerivations<PairTrav::Result, PairTrav, F>::Derivation* d = kb.LazyKthBest(g.nodes_.size() - 1, i);
    if (!d) break;
    w.o().k("s").v(mj::exact(log(d->score))).k("y"); Words(w, d->yield.first);
    w.k("f"); fj::Feats(w, d->feature_values, nf);
    w.k("t"); w.sep(); w.s += d->yield.second; w.need = true;
    w.e();
  }
}
void KBY(const Hypergraph& g, int k, mj::W& w) {  // exactly as the decoder instantiates it
  KBest::KBestDerivations<vector<WordID>, ESentenceTraversal, KBest::FilterUnique> kb(g, k);
  for (int i = 0; i < k; ++i) {
    KBest::KBestDerivations<vector<WordID>, ESentenceTraversal, KBest::FilterUnique>::Derivation* d = kb.LazyKthBest(g.nodes_.size() - 1, i);
    if (!d) break;
    w.o().k("s").v(mj::exact(log(d->score))).k("y"); Words(w, d->yield); w.e();
  }
}
void Codes(mj::W& w, const string& s) { w.a(); for (size_t i = 0; i < s.size(); ++i) w.v(int(static_cast<unsigned char>(s[i]))); w.e(); }
string FromCodes(const mj::Val& v) { string s; for (size_t i = 0; i < v.size(); ++i) s += static_cast<char>(v[i].i()); return s; }
void DumpLat(mj::W& w, const Lattice& l) {
  w.a();
  for (size_t i = 0; i < l.size(); ++i) {
    w.a();
    for (size_t j = 0; j < l[i].size(); ++j) {
      w.o().k("w"); Codes(w, TD::Convert(l[i][j].label));
      w.k("d").v(l[i][j].dist2next).k("f").a();
      for (SparseVector<double>::const_iterator it = l[i][j].features.begin(); it != l[i][j].features.end(); ++it) {
        w.a(); Codes(w, FD::Convert(it->first)); w.v(long(llround(it->second * 1000))).e(); }
      w.e().e();
    }
    w.e();
  }
  w.e();
}
long lin(const prob_t& p) { return p == prob_t() ? 0 : mj::exact(p.as_float()); }
long lgd(const prob_t& p, double div) { return p == prob_t() ? -999999 : mj::exact(log(p), div); }
long lg(const prob_t& p) { return p == prob_t() ? -999999 : mj::exact(log(p)); }
}
int main() {
  mj::out();
  string line;
  while (getline(cin, line)) {
    mj::Val v = mj::parse(line);
    const string op = v["op"].s();
    mj::W w;
    Hypergraph g; map<const TRule*, int> ids;
    const int nf = v["g"]["nf"].i();
    fj::Build(v["g"], &g, &ids);
    vector<double> wt; fj::Weights(v["w"], &wt);
    const double div = v["wdiv"].i(1);
    for (size_t i = 0; i < wt.size(); ++i) wt[i] /= div;
    if (v.has("w")) g.Reweight(wt);
    eidx.clear();
    for (size_t i = 0; i < g.edges_.size(); ++i) eidx[&g.edges_[i]] = i;
    w.o();
    if (op == "best") {
      int k = v["k"].i();
      w.k("kb").a(); KB<KBest::NoFilter<PairTrav::Result> >(g, k, nf, w); w.e();
      w.k("ku").a(); KB<PairUnique>(g, k, nf, w); w.e();
      w.k("ky").a(); KBY(g, k, w); w.e();
      vector<WordID> s; prob_t p = ViterbiESentence(g, &s);
      string tr; prob_t p2 = Viterbi<TreeTrav>(g, &tr);
      vector<WordID> fs; prob_t p3 = ViterbiFSentence(g, &fs);
      w.k("v").o().k("s").v(lg(p)).k("y"); Words(w, s);
      w.k("s2").v(lg(p2)).k("s3").v(lg(p3)).k("t"); w.sep(); w.s += tr; w.need = true;
      w.k("f"); fj::Feats(w, ViterbiFeatures(g), nf);
      w.k("src"); Words(w, fs);
      w.k("el").v(ViterbiELength(g)).k("pl").v(ViterbiPathLength(g));
      HypergraphP vh = g.CreateViterbiHypergraph();
      w.k("vh"); fj::Dump(w, *vh, nf, &ids, false);
      w.e();
    } else if (op == "sums") {
      double sc = v["scale"].i();
      vector<prob_t> in; prob_t z = Inside<prob_t, EdgeProb>(g, &in);
      w.k("in").a(); for (size_t i = 0; i < in.size(); ++i) w.v(lin(in[i])); w.e().k("z").v(lin(z));
      vector<prob_t> outs; Outside<prob_t, EdgeProb>(g, in, &outs);
      w.k("out").a(); for (size_t i = 0; i < outs.size(); ++i) w.v(lin(outs[i])); w.e();
      vector<prob_t> po; prob_t zs = g.ComputeEdgePosteriors(sc, &po);
      w.k("post").a(); for (size_t i = 0; i < po.size(); ++i) w.v(lin(po[i])); w.e().k("zs").v(lin(zs));
      w.k("np").v(mj::exact(g.NumberOfPaths()));
      SparseVector<prob_t> ex;
      prob_t ze = InsideOutside<prob_t, EdgeProb, SparseVector<prob_t>, EdgeFeaturesAndProbWeightFunction>(g, &ex);
      w.k("ex").a(); for (int j = 1; j <= nf; ++j) w.v(lin(ex.value(fj::FId(j)))); w.e().k("ze").v(lin(ze));
      typedef PRPair<prob_t, prob_t> PR;
      // expectation semiring: expected number of edges
      PR pr = Inside<PR, PRWeightFunction<prob_t, EdgeProb, prob_t, TransitionCountWeightFunction> >(g);
      w.k("prp").v(lin(pr.p)).k("prr").v(lin(pr.r));
      // Boolean / best path quantities on the same graph with log weights lw
      Hypergraph b; fj::Build(v["g"], &b); 
      for (size_t i = 0; i < b.edges_.size(); ++i) b.edges_[i].edge_prob_.logeq(v["lw"][i].i());
      vector<prob_t> bp; prob_t bz = b.ComputeBestPathThroughEdges(&bp);
      w.k("bp").a(); for (size_t i = 0; i < bp.size(); ++i) w.v(lg(bp[i])); w.e().k("bz").v(lg(bz));
      vector<prob_t> nv; b.ComputeNodeViterbi(&nv);
      w.k("nv").a(); for (size_t i = 0; i < nv.size(); ++i) w.v(lg(nv[i])); w.e();
      vector<prob_t> ev; b.ComputeEdgeViterbi(&ev);
      w.k("ev").a(); for (size_t i = 0; i < ev.size(); ++i) w.v(lg(ev[i])); w.e();
    } else if (op == "push") {
      prob_t z = g.PushWeightsToGoal(v["scale"].i());
      w.k("z").v(lin(z)).k("p").a();
      for (size_t i = 0; i < g.edges_.size(); ++i) { double d = g.edges_[i].edge_prob_.as_float(); w.v(std::isfinite(d) ? long(llround(d * 100000)) : -1L); }
      w.e();
    } else if (op == "prune") {
      vector<bool> mask(g.edges_.size());
      for (size_t i = 0; i < v["mask"].size(); ++i) mask[v["mask"][i].i()] = true;
      bool m = v["mask"].size() > 0;
      g.PruneInsideOutside(v["alpha2"].i() / 2.0, v["dens4"].i() / 4.0, m ? &mask : 0, v["sum"].b(), 1.0, v["safe"].b());
      w.k("r"); fj::Dump(w, g, nf, &ids, false);
      if (!g.edges_.empty()) { if (!v["sum"].b()) { vector<WordID> s; w.k("best").v(lgd(ViterbiESentence(g, &s), div)); } 
        w.k("p").a(); for (size_t i = 0; i < g.edges_.size(); ++i) w.v(v["sum"].b() ? lin(g.edges_[i].edge_prob_) : lgd(g.edges_[i].edge_prob_, div)); w.e(); }
    } else if (op == "prunebig") {  // many parallel ways to build one node, the best one somewhere
      Hypergraph b; const int n = v["n"].i(), at = v["at"].i();
      b.AddNode(fj::Cat(1)); b.AddNode(fj::Cat(0));
      TRulePtr r(new TRule("[C1] ||| w1 ||| w1")), top(new TRule("[Goal] ||| [C1] ||| [1]"));
      b.ReserveNodes(2, n + 1);
      for (int i = 0; i < n; ++i) { Hypergraph::Edge* e = b.AddEdge(r, TailNodeVector()); e->edge_prob_.logeq(i == at ? 0 : (i % 2 ? -1 : -20)); b.ConnectEdgeToHeadNode(e->id_, 0); }
      Hypergraph::Edge* e = b.AddEdge(top, TailNodeVector(1, 0)); e->edge_prob_.logeq(0); b.ConnectEdgeToHeadNode(e->id_, 1);
      b.PruneInsideOutside(v["alpha2"].i() / 2.0, 0);
      vector<WordID> s; prob_t p = b.edges_.empty() ? prob_t() : ViterbiESentence(b, &s);
      long odd = 0; for (size_t i = 0; i < b.edges_.size(); ++i) odd += lg(b.edges_[i].edge_prob_) == -1;
      w.k("left").v(b.edges_.size()).k("odd").v(odd).k("best").v(lg(p));
    } else if (op == "edges") {  // PruneEdges with a given mask, and the subset constructors
      vector<bool> mask(g.edges_.size());
      for (size_t i = 0; i < v["mask"].size(); ++i) mask[v["mask"][i].i()] = true;
      vector<bool> keep(g.edges_.size()); for (size_t i = 0; i < keep.size(); ++i) keep[i] = !mask[i];
      if (v["sub"].b()) { HypergraphP s = g.CreateEdgeSubset(keep); w.k("r"); fj::Dump(w, *s, nf, &ids, false);
        w.k("keep").a(); for (size_t i = 0; i < keep.size(); ++i) if (keep[i]) w.v(i); w.e(); }
      else { g.PruneEdges(mask, v["safe"].b()); w.k("r"); fj::Dump(w, g, nf, &ids, false); }
    } else if (op == "topo") {
      vector<bool> mask(g.edges_.size());
      for (size_t i = 0; i < v["mask"].size(); ++i) mask[v["mask"][i].i()] = true;
      g.TopologicallySortNodesAndEdges(v["goal"].i(), v["mask"].size() ? &mask : 0);
      w.k("r"); fj::Dump(w, g, nf, &ids, false);
    } else if (op == "union") {
      Hypergraph b; fj::Build(v["b"], &b, &ids, 1000);
      w.k("da"); fj::Dump(w, g, nf, &ids, true); w.k("db"); fj::Dump(w, b, nf, &ids, true);
      if (v["plain"].b()) g.Union(b); else HG::Union(b, &g);
      w.k("r"); fj::Dump(w, g, nf, &ids, true);
    } else if (op == "io") {
      w.k("a"); fj::Dump(w, g, nf, 0, true);
      ostringstream os; HypergraphIO::WriteToBinary(g, &os);
      istringstream is(os.str()); Hypergraph h;
      if (v["dirty"].b()) fj::Build(v["b"], &h);
      bool ok = HypergraphIO::ReadFromBinary(&is, &h);
      w.k("ok").v(ok ? 1 : 0).k("r"); fj::Dump(w, h, nf, 0, true);
      w.k("lin").v(int(g.is_linear_chain_ == h.is_linear_chain_));
      // the archive of the copy, scored and searched like the original
      vector<double> ww; fj::Weights(v["rw"], &ww);
      g.Reweight(ww); h.Reweight(ww);
      vector<WordID> s1, s2; w.k("v1").v(lg(ViterbiESentence(g, &s1))).k("v2").v(lg(ViterbiESentence(h, &s2)));
    } else if (op == "plf") {
      string t = FromCodes(v["text"]);
      Lattice l, l2; HypergraphIO::PLFtoLattice(t, &l);
      w.k("lat"); DumpLat(w, l);
      string o = HypergraphIO::AsPLF(l);
      w.k("out"); Codes(w, o);
      LatticeTools::ConvertTextOrPLF(o, &l2); w.k("back"); DumpLat(w, l2);
      Hypergraph h; HypergraphIO::ReadFromPLF(t, &h);
      vector<double> ww; int id = FD::Convert("LatticeCost_0"); ww.resize(id + 1); ww[id] = 1;
      h.Reweight(ww); w.k("hout"); Codes(w, HypergraphIO::AsPLF(h));
    } else if (op == "pushsrc") {
      Hypergraph h; HypergraphIO::ReadFromPLF(FromCodes(v["text"]), &h);
      for (size_t i = 0; i + 1 < h.nodes_.size(); ++i) for (size_t j = 0; j < h.nodes_[i].out_edges_.size(); ++j)
        h.edges_[h.nodes_[i].out_edges_[j]].edge_prob_ = prob_t(double(v["ws"][i][j].i()));
      h.PushWeightsToSource(1.0);
      w.k("p").a();
      for (size_t i = 0; i + 1 < h.nodes_.size(); ++i) { w.a(); for (size_t j = 0; j < h.nodes_[i].out_edges_.size(); ++j) {
        double d = h.edges_[h.nodes_[i].out_edges_[j]].edge_prob_.as_float(); w.v(std::isfinite(d) ? long(llround(d * 100000)) : -1L); } w.e(); }
      w.e();
    } else if (op == "eps") {
      RemoveEpsilons(&g, fj::Wd(9));
      w.k("r"); fj::Dump(w, g, nf, 0, true);
    }
    w.e();
    w.put();
  }
}
