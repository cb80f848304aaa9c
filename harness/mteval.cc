// Evaluation metrics: sentence statistics, sums, scores and statistics encoding of the real code.
#include <cstring>
#include <sstream>
#include "mini_json.h"
#include "ns.h"
#include "ns_docscorer.h"
#include "scorer.h"
#include "tdict.h"
using namespace std;
using mj::W;
typedef vector<WordID> S;
static S sent(const mj::Val& v) { S s; for (size_t i = 0; i < v.size(); ++i) s.push_back(TD::Convert(v[i].s())); return s; }
static vector<S> sents(const mj::Val& v) { vector<S> s; for (size_t i = 0; i < v.size(); ++i) s.push_back(sent(v[i])); return s; }
static long r3(double x) { if (!(fabs(x) < 2e6)) return 1999999999L; return lround(x * 1000); }
static long r6(double x) { if (x != x) return 1999999998L; if (!(fabs(x) < 2000)) return 1999999999L; return lround(x * 1e6); }
static void fields(W& w, const SufficientStats& s) { w.a(); for (size_t i = 0; i < s.size(); ++i) w.v(r3(s[i])); w.e(); }

static void seg(const mj::Val& c, W& w) {
  EvaluationMetric* m = EvaluationMetric::Instance(c["m"].s());
  vector<boost::shared_ptr<SegmentEvaluator> > ev;
  vector<vector<SufficientStats> > st;
  const mj::Val& ss = c["sents"];
  for (size_t i = 0; i < ss.size(); ++i) ev.push_back(m->CreateSegmentEvaluator(sents(ss[i]["r"])));
  w.k("size").v((unsigned)m->SufficientStatisticsVectorSize()).k("err").v(m->IsErrorMetric() ? 1 : 0);
  // hypotheses are evaluated round by round, so that evaluators are reused in between
  size_t mx = 0;
  st.resize(ss.size());
  for (size_t i = 0; i < ss.size(); ++i) { mx = max(mx, ss[i]["h"].size()); st[i].resize(ss[i]["h"].size()); }
  for (int pass = 0; pass < 2; ++pass)
    for (size_t k = 0; k < mx; ++k)
      for (size_t i = 0; i < ss.size(); ++i) if (k < st[i].size()) {
        SufficientStats t;
        ev[i]->Evaluate(sent(ss[i]["h"][k]), &t);
        if (pass == 0) st[i][k] = t;
        else if (!(t == st[i][k])) st[i][k].fields.assign(1, -1);   // a second evaluation must agree
      }
  w.k("st").a();
  for (size_t i = 0; i < st.size(); ++i) { w.a(); for (size_t k = 0; k < st[i].size(); ++k) fields(w, st[i][k]); w.e(); }
  w.e().k("sums").a();
  const mj::Val& sums = c["sums"];
  for (size_t q = 0; q < sums.size(); ++q) {
    const mj::Val& p = sums[q];
    vector<SufficientStats> x;
    for (size_t i = 0; i < p.size(); ++i) x.push_back(st[p[i][0].i()][p[i][1].i()]);
    SufficientStats a, b, d;
    for (size_t i = 0; i < x.size(); ++i) a += x[i];
    for (size_t i = x.size(); i-- > 0;) b = x[i] + b;
    d = a; d -= x[0]; SufficientStats d2 = a - x.back();
    string enc; a.Encode(&enc);
    SufficientStats back(enc);
    SufficientStats dbl = a; dbl *= 2; dbl /= 2;
    w.o().k("f"); fields(w, a); w.k("g"); fields(w, b); w.k("u"); fields(w, d); w.k("u2"); fields(w, d2);
    w.k("dec").v(back == a && back.id_ == a.id_ ? 1 : 0).k("dbl").v(dbl == a ? 1 : 0)
     .k("sc").v(r6(m->ComputeScore(a))).k("scb").v(r6(m->ComputeScore(back)));
    w.k("zero").v(a.IsAdditiveIdentity() ? 1 : 0);
    w.e();
  }
  w.e();
}

static void enc_fields(const string& type, const string& e, W& w) {   // -> matches, totals, hyp, ref | as is
  istringstream is(e); vector<double> v; double d; while (is >> d) v.push_back(d);
  w.a();
  if (type.find("BLEU") != string::npos && v.size() >= 3) {
    int n = v[0];
    for (int i = 0; i < n; ++i) w.v(r3(v.at(3 + 2 * i)));
    for (int i = 0; i < n; ++i) w.v(r3(v.at(4 + 2 * i)));
    w.v(r3(v[2])).v(r3(v[1]));
  } else for (size_t i = 0; i < v.size(); ++i) w.v(r3(v[i]));
  w.e();
}
static void old(const mj::Val& c, W& w) {
  const string tn = c["m"].s();
  ScoreType type = ScoreTypeFromString(tn);
  const mj::Val& ss = c["sents"];
  vector<vector<ScoreP> > st(ss.size());
  const bool hasenc = tn != "ser";
  string U = tn; for (size_t i = 0; i < U.size(); ++i) U[i] = toupper(U[i]);
  w.k("st").a();
  for (size_t i = 0; i < ss.size(); ++i) {
    ScorerP ev = SentenceScorer::CreateSentenceScorer(type, sents(ss[i]["r"]));
    w.a();
    for (size_t k = 0; k < ss[i]["h"].size(); ++k) {
      S h = sent(ss[i]["h"][k]);
      ScoreP s = ev->ScoreCandidate(h);
      st[i].push_back(s);
      string e; if (hasenc) s->Encode(&e);
      enc_fields(U, e, w);
    }
    w.e();
  }
  w.e().k("sums").a();
  const mj::Val& sums = c["sums"];
  for (size_t q = 0; q < sums.size(); ++q) {
    const mj::Val& p = sums[q];
    ScoreP first = st[p[0][0].i()][p[0][1].i()];
    ScoreP a = first->GetZero();
    for (size_t i = 0; i < p.size(); ++i) a->PlusEquals(*st[p[i][0].i()][p[i][1].i()]);
    ScoreP u = first->GetZero();
    a->Subtract(*first, u.get());
    string e, eu; if (hasenc) { a->Encode(&e); u->Encode(&eu); }
    w.o().k("f"); enc_fields(U, e, w); w.k("u"); enc_fields(U, eu, w);
    w.k("sc").v(r6(a->ComputeScore()));
    w.k("scb").v(hasenc ? r6(SentenceScorer::CreateScoreFromString(type, e)->ComputeScore()) : r6(a->ComputeScore())).e();
  }
  w.e();
}
static void enc(const mj::Val& c, W& w) {
  vector<float> f; for (size_t i = 0; i < c["f"].size(); ++i) f.push_back(c["f"][i].num / c["d"].num);
  SufficientStats s(c["m"].s(), f);
  string e; s.Encode(&e);
  SufficientStats b(e);
  w.k("ok").v(b == s && b.id_ == s.id_ ? 1 : 0).k("n").v(b.size()).k("vals").a();
  for (size_t i = 0; i < b.size(); ++i) w.v(mj::exact(double(b[i]) * c["d"].num, 1, 1e-7));
  w.e();
}
static void olddoc(const mj::Val& c, W& w) {
  const string tn = c["m"].s();
  string U = tn; for (size_t i = 0; i < U.size(); ++i) U[i] = toupper(U[i]);
  vector<string> fs; for (size_t i = 0; i < c["files"].size(); ++i) fs.push_back(c["files"][i].s());
  DocScorer ds(ScoreTypeFromString(tn), fs);
  w.k("n").v((long)ds.size()).k("st").a();
  for (int i = 0; i < (int)ds.size() && i < (int)c["h"].size(); ++i) {
    string e; ds[i]->ScoreCandidate(sent(c["h"][i]))->Encode(&e);
    w.a(); enc_fields(U, e, w); w.e();
  }
  w.e();
}
static void doc(const mj::Val& c, W& w) {
  if (c.has("old")) { olddoc(c, w); return; }
  EvaluationMetric* m = EvaluationMetric::Instance(c["m"].s());
  DocumentScorer* ds;
  if (c.has("src")) ds = new DocumentScorer(m, c["src"].s());
  else { vector<string> fs; for (size_t i = 0; i < c["files"].size(); ++i) fs.push_back(c["files"][i].s()); ds = new DocumentScorer(m, fs, "", c["verbose"].i(0)); }
  w.k("n").v((long)ds->size()).k("st").a();
  for (int i = 0; i < (int)ds->size() && i < (int)c["h"].size(); ++i) {
    SufficientStats t; (*ds)[i]->Evaluate(sent(c["h"][i]), &t); w.a(); fields(w, t); w.e();
  }
  w.e();
  if (c.has("src")) { w.k("srcs").a(); for (int i = 0; i < (int)ds->size(); ++i) w.v((*ds)[i]->src); w.e(); }
  delete ds;
}
int main() {
  mj::out();
  string line;
  while (getline(cin, line)) {
    mj::Val c = mj::parse(line);
    W w; w.o();
    const string& op = c["op"].s();
    if (op == "seg") seg(c, w); else if (op == "old") old(c, w); else if (op == "enc") enc(c, w); else doc(c, w);
    w.e(); w.put();
  }
}
