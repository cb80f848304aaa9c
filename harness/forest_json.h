// forests <-> JSON
#ifndef VERIF_FOREST_JSON_H_
#define VERIF_FOREST_JSON_H_
#include <map>
#include <set>
#include "mini_json.h"
#include "hg.h"
#include "fdict.h"
#include "tdict.h"
#include "trule.h"
namespace fj {
inline std::string& Suffix() { static std::string s; return s; }   // of feature names
inline int FId(int k) { return FD::Convert("F" + std::to_string(k) + Suffix()); }
inline WordID Wd(int k) { return TD::Convert("w" + std::to_string(k)); }
inline int WdNum(WordID w) { std::string s = TD::Convert(w); return (s.size() > 1 && s[0] == 'w') ? atoi(s.c_str() + 1) : 999; }
inline WordID Cat(int k) { return -TD::Convert(k == 0 ? std::string("Goal") : "C" + std::to_string(k)); }
inline int CatNum(WordID c) { if (c == 0) return -1; std::string s = TD::Convert(c < 0 ? -c : c); return s == "Goal" ? 0 : atoi(s.c_str() + 1); }
// {"n":N, "nf":NF, "E":[{"h","t","e","s"(source side, optional),"f":[..],"p"(optional integer probability),"sp":[4]}], "c":[cats], "hash":[..]}
inline void Build(const mj::Val& v, Hypergraph* g, std::map<const TRule*, int>* ids = 0, int base = 0) {
  int n = v["n"].i();
  for (int i = 0; i < n; ++i) {
    Hypergraph::Node* nd = g->AddNode(v.has("c") ? Cat(v["c"][i].i()) : Cat(i + 1 == n ? 0 : 1));
    nd->node_hash = v.has("hash") ? v["hash"][i].i() : 1000 + i;
  }
  for (size_t k = 0; k < v["E"].size(); ++k) {
    const mj::Val& e = v["E"][k];
    TailNodeVector t;
    for (size_t j = 0; j < e["t"].size(); ++j) t.push_back(e["t"][j].i());
    TRulePtr r(new TRule());
    for (size_t j = 0; j < e["e"].size(); ++j) { long x = e["e"][j].i(); r->e_.push_back(x > 0 ? Wd(x) : x); }
    if (e.has("s")) {
      int a = 0;
      for (size_t j = 0; j < e["s"].size(); ++j) { long x = e["s"][j].i(); r->f_.push_back(x > 0 ? Wd(x) : g->nodes_[t[a++]].cat_); }
    } else {
      for (size_t j = 0; j < t.size(); ++j) r->f_.push_back(g->nodes_[t[j]].cat_);
      for (size_t j = 0; j < e["e"].size(); ++j) if (e["e"][j].i() > 0) r->f_.push_back(Wd(e["e"][j].i()));
    }
    r->arity_ = t.size();
    r->lhs_ = g->nodes_[e["h"].i()].cat_;
    if (ids) (*ids)[r.get()] = base + k;
    for (size_t j = 0; j < e["f"].size(); ++j) if (e["f"][j].i()) r->scores_.set_value(FId(j + 1), e["f"][j].i());
    Hypergraph::Edge* ed = g->AddEdge(r, t);
    for (size_t j = 0; j < e["f"].size(); ++j) if (e["f"][j].i()) ed->feature_values_.set_value(FId(j + 1), e["f"][j].i());
    if (e.has("p")) ed->edge_prob_ = prob_t(static_cast<double>(e["p"].i()));
    if (e.has("sp")) { ed->i_ = e["sp"][size_t(0)].i(); ed->j_ = e["sp"][1].i(); ed->prev_i_ = e["sp"][2].i(); ed->prev_j_ = e["sp"][3].i(); }
    g->ConnectEdgeToHeadNode(ed->id_, e["h"].i());
  }
}
inline void Weights(const mj::Val& w, std::vector<double>* out) {
  for (size_t j = 0; j < w.size(); ++j) {
    int id = FId(j + 1);
    if (static_cast<int>(out->size()) <= id) out->resize(id + 1, 0.0);
    (*out)[id] = w[j].i();
  }
}
inline void Feats(mj::W& w, const SparseVector<double>& f, int nf) {
  w.a();
  for (int j = 1; j <= nf; ++j) w.v(mj::exact(f.value(FId(j))));
  w.e();
}
inline int ExtraFeats(const SparseVector<double>& f, int nf) {
  std::set<int> ok; for (int j = 1; j <= nf; ++j) ok.insert(FId(j));
  int c = 0; for (SparseVector<double>::const_iterator it = f.begin(); it != f.end(); ++it) if (!ok.count(it->first) && it->second != 0) ++c;
  return c;
}
inline void Dump(mj::W& w, const Hypergraph& g, int nf, const std::map<const TRule*, int>* ids, bool rules) {
  w.o().k("n").v(g.nodes_.size());
  w.k("ids").a(); for (size_t i = 0; i < g.nodes_.size(); ++i) w.v(g.nodes_[i].id_); w.e();
  w.k("eids").a(); for (size_t i = 0; i < g.edges_.size(); ++i) w.v(g.edges_[i].id_); w.e();
  w.k("c").a(); for (size_t i = 0; i < g.nodes_.size(); ++i) w.v(CatNum(g.nodes_[i].cat_)); w.e();
  w.k("in").a(); for (size_t i = 0; i < g.nodes_.size(); ++i) { w.a(); for (size_t j = 0; j < g.nodes_[i].in_edges_.size(); ++j) w.v(g.nodes_[i].in_edges_[j]); w.e(); } w.e();
  w.k("out").a(); for (size_t i = 0; i < g.nodes_.size(); ++i) { w.a(); for (size_t j = 0; j < g.nodes_[i].out_edges_.size(); ++j) w.v(g.nodes_[i].out_edges_[j]); w.e(); } w.e();
  w.k("E").a();
  for (size_t i = 0; i < g.edges_.size(); ++i) {
    const Hypergraph::Edge& e = g.edges_[i];
    w.o().k("h").v(e.head_node_).k("t").a();
    for (size_t j = 0; j < e.tail_nodes_.size(); ++j) w.v(static_cast<long>(e.tail_nodes_[j]));
    w.e();
    int id = -1;
    if (ids) { std::map<const TRule*, int>::const_iterator it = ids->find(e.rule_.get()); if (it != ids->end()) id = it->second; }
    w.k("id").v(id);
    w.k("f"); Feats(w, e.feature_values_, nf);
    w.k("x").v(ExtraFeats(e.feature_values_, nf));
    w.k("sp").a().v(int(e.i_)).v(int(e.j_)).v(int(e.prev_i_)).v(int(e.prev_j_)).e();
    w.k("e").a(); if (e.rule_) for (size_t j = 0; j < e.rule_->e_.size(); ++j) w.v(e.rule_->e_[j] > 0 ? WdNum(e.rule_->e_[j]) : e.rule_->e_[j]); w.e();
    if (rules) {
      w.k("s").a(); for (size_t j = 0; j < e.rule_->f_.size(); ++j) w.v(e.rule_->f_[j] > 0 ? WdNum(e.rule_->f_[j]) : -100 - CatNum(e.rule_->f_[j])); w.e();
      w.k("lhs").v(CatNum(e.rule_->lhs_)).k("ar").v(int(e.rule_->arity_));
      w.k("rf"); Feats(w, e.rule_->scores_, nf);
    }
    w.e();
  }
  w.e().e();
}
}
#endif
