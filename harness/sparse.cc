// Histories of operations on sparse vectors and small vectors.
// case {"k":"sparse","t":"d|f|i","ops":[...]}  or {"k":"small","t":"i2|u2|i1|i3|d2|u8","ops":[...]}
// values travel as integers: value * 64 (sparse), plain integers (small)
#include "mini_json.h"
#include "sparse_vector.h"
#include "small_vector.h"
#include "b64featvector.h"
#include "fdict.h"
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <algorithm>
#include <memory>
using namespace std;
using mj::W;
template <class T> struct Scale { static const int m = 64; };
template <> struct Scale<int> { static const int m = 1; };

template <class T> struct B64Ops {
  static bool go(const string&, const FastSparseVector<T>&, FastSparseVector<T>*) { return false; }
};
template <> struct B64Ops<double> {
  static bool go(const string& o, const FastSparseVector<double>& x, FastSparseVector<double>* y) {
    if (o == "b64") {
      ostringstream os; B64::Encode(2.5, x, &os);
      double obj = 0; string s = os.str();
      return B64::Decode(&obj, y, s.data(), s.size()) && obj == 2.5;
    }
    string s = EncodeFeatureVector(x); DecodeFeatureVector(s, y); return true;
  }
};
template <class T> struct RealOps {
  typedef FastSparseVector<T> V;
  static void over(V& x, const V& y, T s) { x = y / s; }
  static void scaleby(V& x, T s) { x /= s; }
  static long num(const string& o, const V& x, const V& y) {
    if (o == "l2") return mj::exact(x.l2norm(), 64, 1e30);
    if (o == "l1") return mj::exact(x.pnorm(1), 64);
    if (o == "l2p") return mj::exact(x.pnorm(2), 64, 1e30);
    return mj::exact(x.tanimoto_coef(y), 1000, 1e30);
  }
  static V erasez(const V& y, double eps) { return eps < 0 ? y.erase_zeros() : y.erase_zeros(eps); }
};
template <> struct RealOps<int> {
  typedef FastSparseVector<int> V;
  static void over(V&, const V&, int) {}
  static void scaleby(V&, int) {}
  static long num(const string&, const V&, const V&) { return 0; }
  static V erasez(const V& y, double eps) { return y.erase_zeros(eps < 0 ? 0 : static_cast<int>(eps)); }
};

template <class T> void sparse(const mj::Val& c, W& w) {
  typedef FastSparseVector<T> V;
  const int M = Scale<T>::m;
  unique_ptr<V> hold[3] = {unique_ptr<V>(new V), unique_ptr<V>(new V), unique_ptr<V>(new V)};
  const size_t from = c["from"].i(0);
  w.k("ops").a();
  for (size_t q = 0; q < c["ops"].size(); ++q) {
    const mj::Val& o = c["ops"][q]; const string op = o["o"].s();
    const int xi = o["x"].i(1) - 1, yi = o["y"].i(1) - 1, zi = o["z"].i(1) - 1;
    V& x = *hold[xi]; V& y = *hold[yi]; V& z = *hold[zi];
    const unsigned k = o["k"].i(0); const T v = static_cast<T>(o["v"].num / M);
    long r = 0;
    if (op == "set") x.set_value(k, v);
    else if (op == "add") r = mj::exact(x.add_value(k, v), M);
    else if (op == "touch") r = mj::exact(x[k], M);
    else if (op == "brk") x[k] = v;
    else if (op == "erase") x.erase(k);
    else if (op == "clear") x.clear();
    else if (op == "asg") x = y;
    else if (op == "copy") { V* n = new V(y); hold[xi].reset(n); }
    else if (op == "range") {
      vector<pair<unsigned, T> > p;
      for (size_t i = 0; i < o["p"].size(); ++i) p.push_back(make_pair(static_cast<unsigned>(o["p"][i][0].i()), static_cast<T>(o["p"][i][1].num / M)));
      pair<unsigned, T> dummy; pair<unsigned, T>* b = p.empty() ? &dummy : &p[0];
      hold[xi].reset(new V(b, b + p.size()));
    }
    else if (op == "pluseq") x += y;
    else if (op == "pluseqf") { FastSparseVector<float> f; const V& cy = y; for (typename V::const_iterator i = cy.begin(); i != cy.end(); ++i) f.set_value(i->first, i->second); x += f; }
    else if (op == "minuseq") x -= y;
    else if (op == "axpy") x.plus_eq_v_times_s(y, static_cast<T>(o["s"].i()));
    else if (op == "muleq") x *= static_cast<T>(o["s"].i());
    else if (op == "diveq") RealOps<T>::scaleby(x, static_cast<T>(o["s"].i()));
    else if (op == "plus") x = y + z;
    else if (op == "minus") x = y - z;
    else if (op == "times") x = y * static_cast<T>(o["s"].i());
    else if (op == "over") RealOps<T>::over(x, y, static_cast<T>(o["s"].i()));
    else if (op == "swap") x.swap(y);
    else if (op == "erasez") x = RealOps<T>::erasez(y, o.has("v") ? o["v"].num / M : -1);
    else if (op == "ser") { stringstream s; { boost::archive::text_oarchive a(s); const V& cy = y; a << cy; } { boost::archive::text_iarchive a(s); a >> x; } }
    else if (op == "serb") { stringstream s; { boost::archive::binary_oarchive a(s); const V& cy = y; a << cy; } { boost::archive::binary_iarchive a(s); a >> x; } }
    else if (op == "b64" || op == "b64f") { V t; if (&x != &y) r = B64Ops<T>::go(op, y, &x); else { r = B64Ops<T>::go(op, y, &t); x = t; } }
    else if (op == "itset") { typename V::iterator i = x.find(k); if (i != x.end()) { i->second = v; r = 1; } }
    else if (op == "itscale") { for (typename V::iterator i = x.begin(), e = x.end(); i != e; ++i) i->second = -i->second; }
    else if (op == "eq") r = (x == y);
    else if (op == "dot") r = mj::exact(x.dot(y), M * M);
    else if (op == "dotv") { vector<T> d; for (size_t i = 0; i < o["p"].size(); ++i) d.push_back(static_cast<T>(o["p"][i].num / M)); r = mj::exact(x.dot(d), M * M); }
    else if (op == "nsq") r = mj::exact(x.l2norm_sq(), M * M);
    else if (op == "nnz") r = x.num_nonzero();
    else if (op == "single") r = x.size() == 1 ? mj::exact(x.get_singleton(), M) : 0;
    else r = RealOps<T>::num(op, x, y);
    w.o().k("r").v(r);
    w.k("s").a();
    for (int i = 0; i < 3; ++i) {
      const V& a = *hold[i];
      vector<pair<unsigned, long> > items;
      for (typename V::const_iterator it = a.begin(), e = a.end(); it != e && items.size() < 300; ++it) items.push_back(make_pair(it->first, mj::exact(it->second, M)));
      sort(items.begin(), items.end());
      w.o().k("n").v(a.size()).k("e").v(a.empty() ? 1 : 0).k("m").a();
      for (size_t j = 0; j < items.size(); ++j) w.a().v(static_cast<long>(items[j].first)).v(items[j].second).e();
      w.e().e();
    }
    w.e();
    if (q < from) { w.e(); continue; }
    const V& a = *hold[xi];
    w.k("g").a();   // value, get, nonzero, found
    for (unsigned key = 0; key < 44; ++key) {
      typename V::const_iterator f = a.find(key);
      w.a().v(mj::exact(a.value(key), M)).v(mj::exact(a.get(key), M)).v(a.nonzero(key) ? 1 : 0).v(f != a.end() && f->first == key ? 1 : 0).e();
    }
    w.e();
    vector<T> dv; a.init_vector(&dv);
    w.k("d").a(); for (size_t i = 0; i < dv.size(); ++i) w.v(mj::exact(dv[i], M)); w.e();
    w.e();
  }
  w.e();
}

template <class V> void small(const mj::Val& c, W& w) {
  typedef typename V::value_type T;
  unique_ptr<V> hold[3] = {unique_ptr<V>(new V), unique_ptr<V>(new V), unique_ptr<V>(new V)};
  const size_t from = c["from"].i(0);
  w.k("ops").a();
  for (size_t q = 0; q < c["ops"].size(); ++q) {
    const mj::Val& o = c["ops"][q]; const string op = o["o"].s();
    const int xi = o["x"].i(1) - 1, yi = o["y"].i(1) - 1;
    V& x = *hold[xi]; V& y = *hold[yi];
    const size_t n = o["n"].i(0), i = o["i"].i(0), j = o["j"].i(0); const T v = static_cast<T>(o["v"].i(0));
    long r = 0;
    if (op == "new") hold[xi].reset(new V);
    else if (op == "newn") hold[xi].reset(new V(n));
    else if (op == "newv") hold[xi].reset(new V(n, v));
    else if (op == "newr") { vector<T> p; for (size_t a = 0; a < o["p"].size(); ++a) p.push_back(static_cast<T>(o["p"][a].i())); T d; const T* b = p.empty() ? &d : &p[0]; hold[xi].reset(new V(b, b + p.size())); }
    else if (op == "copy") { V* t = new V(y); hold[xi].reset(t); }
    else if (op == "asg") x = y;
    else if (op == "push") x.push_back(v);
    else if (op == "pushi") x.push_back(x[i]);
    else if (op == "pushb") x.push_back(x.back());
    else if (op == "pop") x.pop_back();
    else if (op == "erase") { T* p = x.erase(x.begin() + i); r = p - x.begin(); }
    else if (op == "erase2") { T* p = x.erase(x.begin() + i, x.begin() + j); r = p - x.begin(); }
    else if (op == "clear") x.clear();
    else if (op == "resize") x.resize(n);
    else if (op == "resizev") x.resize(n, static_cast<int>(v));
    else if (op == "compact") x.compact(n);
    else if (op == "compact0") x.compact();
    else if (op == "put") x[i] = v;
    else if (op == "putb") x.back() = v;
    else if (op == "putf") x.front() = v;
    else if (op == "swap") x.swap(y);
    else if (op == "swap2") swap(x, y);
    else if (op == "eq") r = (x == y) + 2 * (x != y);
    else if (op == "hash") r = hash_value(x) == hash_value(y);
    else if (op == "ser") { stringstream s; { boost::archive::text_oarchive a(s); const V& cy = y; a << cy; } { boost::archive::text_iarchive a(s); a >> x; } }
    else if (op == "serb") { stringstream s; { boost::archive::binary_oarchive a(s); const V& cy = y; a << cy; } { boost::archive::binary_iarchive a(s); a >> x; } }
    else if (op == "grow") { for (size_t a = 0; a < n; ++a) x.push_back(v); }
    else if (op == "mem") { vector<T> t(x.size() + 1); memcpy(&t[0], x); r = 1; for (size_t a = 0; a < x.size(); ++a) if (t[a] != x[a]) r = 0; }
    w.o().k("r").v(r).k("s").a();
    for (int a = 0; a < 3; ++a) {
      const V& u = *hold[a]; V& m = *hold[a];
      w.o().k("n").v(u.size()).k("e").v(u.empty() ? 1 : 0).k("m").a();
      for (typename V::const_iterator it = u.begin(); it != u.end(); ++it) w.v(mj::exact(*it));
      w.e().k("q").a();
      for (size_t b = 0; b < u.size(); ++b) w.v(mj::exact(b % 2 ? u[b] : m[b]));
      w.e().k("fb").a(); if (u.size()) w.v(mj::exact(u.front())).v(mj::exact(m.back())); w.e().e();
    }
    w.e().e();
  }
  w.e();
}

int main() {
  mj::out();
  for (int i = 1; i <= 43; ++i) {
    string n = "f" + to_string(i);
    static const int len[] = {127, 128, 200, 255};
    if (i >= 40) n += string(len[i - 40] - n.size(), 'z');
    if (FD::Convert(n) != i) { cerr << "feature ids\n"; return 3; }
  }
  string line;
  while (getline(cin, line)) {
    mj::Val c = mj::parse(line);
    W w; w.o();
    const string t = c["t"].s();
    if (c["k"].s() == "sparse") {
      if (t == "d") sparse<double>(c, w); else if (t == "f") sparse<float>(c, w); else sparse<int>(c, w);
    } else {
      if (t == "i2") small<SmallVector<int, 2> >(c, w);
      else if (t == "i1") small<SmallVector<int, 1> >(c, w);
      else if (t == "i3") small<SmallVector<int, 3> >(c, w);
      else if (t == "u2") small<SmallVector<unsigned, 2> >(c, w);
      else small<SmallVector<int, 8> >(c, w);
    }
    w.e(); w.put();
  }
}
