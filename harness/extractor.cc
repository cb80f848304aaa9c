// The suffix-array rule extractor.  Words travel as positive numbers (word n is "wn"; names may be
// overridden), gaps as 0.
//  {"k":"index", c:[[..]..], span,gap,sym,nf,ns,fl,mf, ser, bi, q:[[..]..]}
//  {"k":"grammar", f:[[..]..], e:[[..]..], a:[[[i,j]..]..], span,gap,sym,nt,nf,ns,fl,mf,max,tight, ser, bi, s:[[..]..], lo:[..]}
#include "mini_json.h"
#include "extractor/alignment.h"
#include "extractor/data_array.h"
#include "extractor/fast_intersector.h"
#include "extractor/grammar.h"
#include "extractor/grammar_extractor.h"
#include "extractor/matchings_finder.h"
#include "extractor/phrase.h"
#include "extractor/phrase_builder.h"
#include "extractor/phrase_location.h"
#include "extractor/precomputation.h"
#include "extractor/rule.h"
#include "extractor/scorer.h"
#include "extractor/suffix_array.h"
#include "extractor/translation_table.h"
#include "extractor/vocabulary.h"
#include "extractor/features/count_source_target.h"
#include "extractor/features/is_source_singleton.h"
#include "extractor/features/is_source_target_singleton.h"
#include "extractor/features/max_lex_source_given_target.h"
#include "extractor/features/max_lex_target_given_source.h"
#include "extractor/features/sample_source_count.h"
#include "extractor/features/target_given_source_coherent.h"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <fstream>
#include <map>
#include <sstream>
#include <unistd.h>
using namespace std;
using namespace extractor;
using mj::W;
static string dir;
static string word(long w) { return "w" + to_string(w); }
static string line(const mj::Val& s) { string o; for (size_t i = 0; i < s.size(); ++i) { if (i) o += ' '; o += word(s[i].i()); } return o; }
static string put(const char* name, const vector<string>& ls) { string f = dir + "/" + name; ofstream o(f); for (size_t i = 0; i < ls.size(); ++i) o << ls[i] << "\n"; return f; }
static vector<string> lines(const mj::Val& c) { vector<string> r; for (size_t i = 0; i < c.size(); ++i) r.push_back(line(c[i])); return r; }
template <class T> shared_ptr<T> again(const shared_ptr<T>& x, bool ser) {
  if (!ser) return x;
  stringstream ss; { boost::archive::binary_oarchive o(ss); o << *x; }
  shared_ptr<T> y = make_shared<T>(); boost::archive::binary_iarchive in(ss); in >> *y;
  if (!(*x == *y)) abort();
  return y;
}
struct Find {
  shared_ptr<Vocabulary> voc; shared_ptr<PhraseBuilder> pb; shared_ptr<MatchingsFinder> mf; shared_ptr<FastIntersector> fi;
  map<vector<int>, PhraseLocation> memo;
  PhraseLocation& at(vector<int> p) {   // p: vocabulary symbols; may begin or end with a gap
    map<vector<int>, PhraseLocation>::iterator it = memo.find(p);
    if (it != memo.end()) return it->second;
    // as in the trie: a phrase with a gap at its end has its own copy of the placements
    if (p.back() < 0) { vector<int> s(p.begin(), p.end() - 1); PhraseLocation r = at(s); return memo[p] = r; }
    if (p[0] < 0) { vector<int> s(p.begin() + 1, p.end()); for (size_t i = 0, n = 0; i < s.size(); ++i) if (s[i] < 0) s[i] = -int(++n); PhraseLocation r = at(s); return memo[p] = r; }
    bool gap = false; for (size_t i = 0; i < p.size(); ++i) gap |= p[i] < 0;
    PhraseLocation r; vector<int> pre(p.begin(), p.end() - 1), suf(p.begin() + 1, p.end());
    if (p.size() == 1) { PhraseLocation all; r = mf->Find(all, voc->GetTerminalValue(p[0]), 0); }
    else {
      PhraseLocation& a = at(pre);
      if (a.IsEmpty()) r = PhraseLocation(0, 0);
      else if (!gap) r = mf->Find(a, voc->GetTerminalValue(p.back()), pre.size());
      else { PhraseLocation& b = at(suf); if (b.IsEmpty()) r = PhraseLocation(0, 0); else r = fi->Intersect(a, b, pb->Build(p)); }
    }
    return memo[p] = r;
  }
};
static void places(PhraseLocation l, const SuffixArray& sa, W& w) {
  w.a();
  if (l.num_subpatterns > 0) { const vector<int>& m = *l.matchings; for (size_t i = 0; i < m.size(); i += l.num_subpatterns) { w.a(); for (int k = 0; k < l.num_subpatterns; ++k) w.v(i + k < m.size() ? m[i + k] : -1); w.e(); } }
  else for (int i = l.sa_low; i < l.sa_high; ++i) w.a().v(sa.GetSuffix(i)).e();
  w.e();
}
static shared_ptr<DataArray> data(const mj::Val& c, const char* name, const vector<string>& mine, const vector<string>& other, bool source) {
  shared_ptr<DataArray> d;
  if (c["bi"].b()) {
    vector<string> b; for (size_t i = 0; i < mine.size(); ++i) b.push_back(source ? mine[i] + " ||| " + other[i] : other[i] + " ||| " + mine[i]);
    d = make_shared<DataArray>(put("bitext", b), source ? SOURCE : TARGET);
  } else d = make_shared<DataArray>(put(name, mine));
  return d;
}
static void index(const mj::Val& c, W& w) {
  vector<string> ls = lines(c["c"]), dummy(ls.size(), "x y |");
  shared_ptr<DataArray> d = data(c, "f", ls, dummy, true);
  const bool ser = c["ser"].b();
  shared_ptr<SuffixArray> sa = again(make_shared<SuffixArray>(d), ser);
  d = sa->GetData();
  w.o();
  w.k("ids").a(); for (int i = 0; i < d->GetSize(); ++i) w.v(d->AtIndex(i)); w.e();
  w.k("words").a(); for (int i = 0; i < d->GetSize(); ++i) { string x = d->GetWordAtIndex(i); w.v(x[0] == 'w' ? long(atoi(x.c_str() + 1)) : 0L); } w.e();
  w.k("sid").a(); for (int i = 0; i < d->GetSize(); ++i) w.v(d->GetSentenceId(i)); w.e();
  w.k("ss").a(); for (int i = 0; i <= d->GetNumSentences(); ++i) w.v(d->GetSentenceStart(i)); w.e();
  w.k("sl").a(); for (int i = 0; i < d->GetNumSentences(); ++i) w.v(d->GetSentenceLength(i)); w.e();
  w.k("sa").a(); for (int i = 0; i < sa->GetSize(); ++i) w.v(sa->GetSuffix(i)); w.e();
  vector<int> lcp = sa->BuildLCPArray();
  w.k("lcp").a(); for (size_t i = 0; i < lcp.size(); ++i) w.v(lcp[i]); w.e();
  w.k("r").a();
  for (int m = 0; m < 2; ++m) {
    shared_ptr<Vocabulary> voc = make_shared<Vocabulary>();
    if (c["mix"].b()) for (int i = 9; i > 0; --i) voc->GetTerminalIndex(word(i));
    const int span = c["span"].i(), gap = c["gap"].i();
    shared_ptr<Precomputation> pre = make_shared<Precomputation>(voc, sa, m ? 0 : c["nf"].i(), c["ns"].i(), span, c["sym"].i(), gap, c["fl"].i(), c["mf"].i());
    pre = again(pre, ser); voc = again(voc, ser);
    Find f; f.voc = voc; f.pb = make_shared<PhraseBuilder>(voc); f.mf = make_shared<MatchingsFinder>(sa);
    f.fi = make_shared<FastIntersector>(sa, pre, voc, span, gap);
    w.a();
    for (size_t q = 0; q < c["q"].size(); ++q) {
      vector<int> p; int n = 0; for (size_t i = 0; i < c["q"][q].size(); ++i) { long x = c["q"][q][i].i(); p.push_back(x ? voc->GetTerminalIndex(word(x)) : voc->GetNonterminalIndex(++n)); }
      w.o().k("in").v(long(n && pre->Contains(p))).k("at"); places(f.at(p), *sa, w); w.e();
    }
    w.e();
  }
  w.e(); w.e();
}
static void grammar(const mj::Val& c, W& w) {
  vector<string> fl = lines(c["f"]), el = lines(c["e"]), al;
  for (size_t i = 0; i < c["a"].size(); ++i) { string s; for (size_t k = 0; k < c["a"][i].size(); ++k) { if (k) s += ' '; s += to_string(c["a"][i][k][0].i()) + "-" + to_string(c["a"][i][k][1].i()); } al.push_back(s); }
  const bool ser = c["ser"].b();
  shared_ptr<DataArray> fd = data(c, "f", fl, el, true), ed = data(c, "e", el, fl, false);
  shared_ptr<SuffixArray> sa = make_shared<SuffixArray>(fd);
  shared_ptr<Alignment> a = make_shared<Alignment>(put("a", al));
  shared_ptr<Vocabulary> voc = make_shared<Vocabulary>();
  const int span = c["span"].i(), gap = c["gap"].i(), sym = c["sym"].i();
  shared_ptr<Precomputation> pre = make_shared<Precomputation>(voc, sa, c["nf"].i(), c["ns"].i(), span, sym, gap, c["fl"].i(), c["mf"].i());
  shared_ptr<TranslationTable> t = make_shared<TranslationTable>(fd, ed, a);
  sa = again(sa, ser); ed = again(ed, ser); a = again(a, ser); voc = again(voc, ser); pre = again(pre, ser); t = again(t, ser);
  vector<shared_ptr<features::Feature> > fs;
  fs.push_back(make_shared<features::TargetGivenSourceCoherent>()); fs.push_back(make_shared<features::SampleSourceCount>());
  fs.push_back(make_shared<features::CountSourceTarget>()); fs.push_back(make_shared<features::MaxLexSourceGivenTarget>(t));
  fs.push_back(make_shared<features::MaxLexTargetGivenSource>(t)); fs.push_back(make_shared<features::IsSourceSingleton>());
  fs.push_back(make_shared<features::IsSourceTargetSingleton>());
  GrammarExtractor x(sa, ed, a, pre, make_shared<Scorer>(fs), voc, gap, span, c["nt"].i(), sym, c["max"].i(), c["tight"].b());
  w.o().k("g").a();
  for (size_t q = 0; q < c["s"].size(); ++q) {
    unordered_set<int> black; for (size_t i = 0; i < c["lo"].size(); ++i) black.insert(c["lo"][i].i());
    ostringstream os; os << x.GetGrammar(line(c["s"][q]), black); w.v(os.str());
  }
  w.e(); w.e();
}
int main(int argc, char** argv) {
  FILE* out = mj::out(); string l; dir = string(argv[1]) + "/" + to_string(getpid());
  if (system(("mkdir -p " + dir).c_str())) abort();
  cerr.rdbuf(NULL);
  while (getline(cin, l)) {
    mj::Val c = mj::parse(l); W w;
    if (c["k"].s() == "index") index(c, w); else grammar(c, w);
    fprintf(out, "%s\n", w.s.c_str()); fflush(out);
  }
}
