// Runs the real decoder on JSON cases.  argv[1]: scratch directory.
// case: {"files":{name:text}, "cfg":[lines], "in":[inputs], "want":"F" | "FA" | "FAO"}
// reply: {"res":[{"ok":0/1, "F":forest, "al":0/1, "AF":forest, "out":text}]}
#include <set>
#include <fcntl.h>
#include <sys/stat.h>
#include <fstream>
#include "mini_json.h"
#include "decoder.h"
#include "hg.h"
#include "fdict.h"
#include "tdict.h"
#include "trule.h"
#include "ff_register.h"
#include "verbose.h"
#include "inside_outside.h"
#include "sentence_metadata.h"
#include "weights.h"
#include "lm/model.hh"
using namespace std;
static double EPSV = 1e-6;  // a case with "lax" rounds values instead of marking them inexact
static string Sym(WordID w) { return w == 0 ? string("?") : w > 0 ? TD::Convert(w) : TD::Convert(-w); }
static void Feats(mj::W& w, const SparseVector<double>& f) {
  w.a();
  for (SparseVector<double>::const_iterator it = f.begin(); it != f.end(); ++it)
    if (it->second != 0) w.a().v(FD::Convert(it->first)).v(mj::exact(it->second, 1000, EPSV)).e();
  w.e();
}
static void Rule(mj::W& w, const TRule& r) {
  w.k("lhs").v(Sym(r.lhs_)).k("f").a();
  for (size_t j = 0; j < r.f_.size(); ++j) w.a().v(r.f_[j] > 0 ? 0 : 1).v(Sym(r.f_[j])).e();
  w.e().k("e").a();
  for (size_t j = 0; j < r.e_.size(); ++j) w.v(r.e_[j] > 0 ? TD::Convert(r.e_[j]) : "[" + to_string(1 - r.e_[j]) + "]");
  w.e().k("a").a();
  for (size_t j = 0; j < r.a_.size(); ++j) w.a().v(int(r.a_[j].s_)).v(int(r.a_[j].t_)).e();
  w.e();
}
static void Dump(mj::W& w, const Hypergraph& g) {
  w.o().k("n").v(g.nodes_.size()).k("c").a();
  for (size_t i = 0; i < g.nodes_.size(); ++i) w.v(Sym(g.nodes_[i].cat_));
  w.e().k("nh").a();  // nodes with the same identity: number of the first of them
  map<size_t, int> nh;
  for (size_t i = 0; i < g.nodes_.size(); ++i) w.v(nh.insert(make_pair(g.nodes_[i].node_hash, int(i))).first->second);
  w.e().k("in").a();
  for (size_t i = 0; i < g.nodes_.size(); ++i) { w.a(); for (size_t j = 0; j < g.nodes_[i].in_edges_.size(); ++j) w.v(g.nodes_[i].in_edges_[j] + 1); w.e(); }
  w.e().k("E").a();
  for (size_t i = 0; i < g.edges_.size(); ++i) {
    const Hypergraph::Edge& e = g.edges_[i];
    w.o().k("h").v(e.head_node_).k("t").a();
    for (size_t j = 0; j < e.tail_nodes_.size(); ++j) w.v(static_cast<long>(e.tail_nodes_[j]));
    w.e().k("i").v(int(e.i_)).k("j").v(int(e.j_)).k("pi").v(int(e.prev_i_)).k("pj").v(int(e.prev_j_));
    Rule(w, *e.rule_);
    w.k("fs"); Feats(w, e.feature_values_);
    w.k("lp").v(mj::exact(log(e.edge_prob_), 64, EPSV));
    if (e.rule_->parent_rule_) { w.k("par").o(); Rule(w, *e.rule_->parent_rule_); w.e(); }
    w.e();
  }
  w.e().e();
}
struct Obs : DecoderObserver {
  mj::W* w; int ok, al; bool f, a; int starts, ends, n;
  void NotifyDecodingStart(const SentenceMetadata&) { ++starts; }
  void NotifySourceParseFailure(const SentenceMetadata&) { ok = 0; ++n; }
  void NotifyTranslationForest(const SentenceMetadata& m, Hypergraph* g) {
    ok = 1; ++n; w->k("len").v(m.GetSourceLength());
    if (f) { w->k("F"); Dump(*w, *g); }
  }
  void NotifyAlignmentFailure(const SentenceMetadata&) { al = 0; }
  void NotifyAlignmentForest(const SentenceMetadata&, Hypergraph* g) { al = 1; if (a) { w->k("AF"); Dump(*w, *g); } }
  void NotifyDecodingComplete(const SentenceMetadata&) { ++ends; }
};
int main(int argc, char** argv) {
  FILE* real = mj::out(); (void)real;
  string dir = string(argv[1]) + "/d" + to_string(getpid());
  mkdir(dir.c_str(), 0755);
  if (chdir(dir.c_str())) return 3;
  register_feature_functions();
  SetSilent(true);
  string line;
  while (getline(cin, line)) {
    mj::Val c = mj::parse(line);
    set<string> made;
    EPSV = c.has("lax") ? 1e9 : 1e-6;
    for (map<string, mj::Val>::const_iterator it = c["files"].obj.begin(); it != c["files"].obj.end(); ++it) {
      ofstream o(it->first.c_str()); o << it->second.s(); made.insert(it->first);
    }
    for (size_t i = 0; c.has("bin") && i < c["bin"].size(); ++i) {  // [text model, binary model, type]
      const string a = c["bin"][i][size_t(0)].s(), b = c["bin"][i][1].s(), ty = c["bin"][i][2].s();
      lm::ngram::Config lc; lc.write_mmap = b.c_str(); lc.messages = 0; lc.show_progress = false;
      if (ty == "trie") { lm::ngram::TrieModel m(a.c_str(), lc); }
      else if (ty == "array") { lm::ngram::ArrayTrieModel m(a.c_str(), lc); }
      else { lm::ngram::ProbingModel m(a.c_str(), lc); }
      made.insert(b);
    }
    string cfg = "quiet=1\n";
    for (size_t i = 0; i < c["cfg"].size(); ++i) cfg += c["cfg"][i].s() + "\n";
    istringstream in(cfg);
    mj::W w; w.o();
    bool cap = c["want"].s().find('O') != string::npos;
    int keep = dup(1);
    if (cap) { int fd = open("stdout.txt", O_CREAT | O_TRUNC | O_WRONLY, 0644); cout.flush(); dup2(fd, 1); close(fd); }
    {
      Decoder d(&in);
      w.k("res").a();
      for (size_t k = 0; k < c["in"].size(); ++k) {
        Obs o; o.w = &w; o.ok = -1; o.al = -1; o.starts = o.ends = o.n = 0;
        o.f = c["want"].s().find('F') != string::npos; o.a = c["want"].s().find('A') != string::npos;
        w.o();
        bool r = d.Decode(c["in"][k].s(), &o);
        w.k("ret").v(r ? 1 : 0).k("ok").v(o.ok).k("al").v(o.al).k("calls").a().v(o.starts).v(o.n).v(o.ends).e();
        if (cap) {
          cout.flush(); fflush(stdout);
          ifstream t("stdout.txt"); stringstream ss; ss << t.rdbuf();
          w.k("out").v(ss.str());
          if (ftruncate(1, 0)) {} lseek(1, 0, SEEK_SET);
        }
        w.e();
      }
      w.e();
    }
    if (cap) { dup2(keep, 1); }
    close(keep);
    w.e();
    w.put();
    for (set<string>::iterator it = made.begin(); it != made.end(); ++it) unlink(it->c_str());
  }
  unlink("stdout.txt");
  if (chdir("/") == 0) rmdir(dir.c_str());
  return 0;
}
