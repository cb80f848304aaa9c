// Histories on name tables and weight files; every process of a case is a fork of the
// pristine harness.  case {"procs":[[op,..],..]}; strings travel as hex.
#include "mini_json.h"
#include "dict.h"
#include "verbose.h"
#include "fdict.h"
#include "tdict.h"
#include "weights.h"
#include "filelib.h"
#include "sparse_vector.h"
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <cstring>
using namespace std;
using mj::W;
static string unhex(const string& h) { string o; for (size_t i = 0; i + 1 < h.size(); i += 2) o += char(strtoul(h.substr(i, 2).c_str(), 0, 16)); return o; }
static string hex(const string& s) { string o; char b[4]; for (size_t i = 0; i < s.size(); ++i) { snprintf(b, 4, "%02x", (unsigned char)s[i]); o += b; } return o; }
static string num(double d) { char b[64]; if (d == 0) return signbit(d) ? "-0x0p+0" : "0x0p+0"; snprintf(b, 64, "%a", d); return b; }
static string dir;
static void dump(const vector<weight_t>& v, W& w) { w.k("w").a(); for (size_t i = 1; i < v.size(); ++i) w.v(num(v[i])); w.e(); }
static void ids(const char* k, const vector<int>& v, W& w) { w.k(k).a(); for (size_t i = 0; i < v.size(); ++i) w.v(long(v[i])); w.e(); }
static void run(const mj::Val& ops, W& w) {
  Dict d; vector<weight_t> ws[3];
  w.a();
  for (size_t q = 0; q < ops.size(); ++q) {
    const mj::Val& o = ops[q]; const string op = o["o"].s(), t = o["d"].s(); w.o();
    const string n = unhex(o["n"].s());
    vector<weight_t>& x = ws[o["w"].i(0)]; const string file = dir + "/" + o["f"].s();
    if (op == "conv") w.k("r").v(long(t == "d" ? d.Convert(n, o["fz"].b()) : t == "t" ? (o["fz"].b() ? TD::Convert(n.c_str()) : TD::Convert(n)) : FD::Convert(n)));
    else if (op == "name") { const int i = min<int>(o["i"].i(), t == "d" ? d.max() : t == "t" ? TD::NumWords() : FD::NumFeats() - 1); w.k("i").v(i).k("r").v(hex(t == "d" ? d.Convert(i) : t == "t" ? TD::Convert(i) : FD::Convert(i))); }
    else if (op == "max") w.k("r").v(long(t == "d" ? d.max() : t == "t" ? TD::NumWords() : FD::NumFeats() - 1));
    else if (op == "line") {
      vector<int> r;
      if (t == "d") d.ConvertWhitespaceDelimitedLine(n, &r); else TD::ConvertSentence(n, &r, o["at"].i(0));
      ids("r", r, w);
      if (t == "t") w.k("s").v(hex(TD::GetString(r)));
    } else if (op == "words") {
      vector<string> v; for (size_t i = 0; i < o["ns"].size(); ++i) v.push_back(unhex(o["ns"][i].s()));
      vector<int> r; TD::GetWordIDs(v, &r); ids("r", r, w);
      w.k("s").v(hex(r.empty() ? TD::GetString(r) : TD::GetString(&r[0], &r[0] + r.size())));
    } else if (op == "vec") {
      vector<string> v; for (size_t i = 0; i < o["ns"].size(); ++i) v.push_back(unhex(o["ns"][i].s()));
      w.k("r").v(long(d.Convert(v, o["fz"].b())));
    } else if (op == "asvec") { vector<string> v; d.AsVector(o["i"].i(), &v); w.k("r").a(); for (size_t i = 0; i < v.size(); ++i) w.v(hex(v[i])); w.e(); }
    else if (op == "clear") d.clear();
    else if (op == "freeze") FD::Freeze();
    else if (op == "esc") w.k("r").v(hex(FD::Escape(n)));
    else if (op == "file") { WriteFile f(file); *f << n; }
    else if (op == "init") {
      vector<string> fl; string name = file;
      if (o["std"].b()) { if (!freopen(file.c_str(), "r", stdin)) abort(); cin.clear(); name = "-"; }
      Weights::InitFromFile(name, &x, o["fl"].b() ? &fl : NULL);
      if (o["fl"].b()) { w.k("fl").a(); for (size_t i = 0; i < fl.size(); ++i) w.v(hex(fl[i])); w.e(); }
    } else if (op == "write") {
      const string extra = "extra = 7 #";
      { ofstream keep; Weights::WriteToFile(file, x, o["hide"].b(), o["extra"].b() ? &extra : NULL); }
      ReadFile r(file); string s, l; while (getline(*r, l)) { s += l; s += '\n'; } w.k("r").v(hex(s));
    } else if (op == "sparse") {
      SparseVector<weight_t> sv; sv.set_value(3, 1.5); Weights::InitSparseVector(x, &sv);
      w.k("r").a(); for (SparseVector<weight_t>::const_iterator i = static_cast<const SparseVector<weight_t>&>(sv).begin(); i != static_cast<const SparseVector<weight_t>&>(sv).end(); ++i) { w.a().v(long(i->first)).v(num(i->second)).e(); } w.e();
    } else if (op == "getstr") w.k("r").v(hex(Weights::GetString(x, o["hide"].b())));
    else if (op == "update") { string s = n; Weights::UpdateFromString(s, x); }
    else if (op == "set") { const size_t i = o["i"].i(); if (x.size() <= i) x.resize(i + 1); x[i] = strtod(o["v"].s().c_str(), 0); }
    else if (op == "copy") x = ws[o["from"].i()];
    else abort();
    dump(x, w); w.e();
  }
  w.e();
}
int main(int argc, char** argv) {
  FILE* out = mj::out(); string line; SetSilent(true);
  const string root = argv[1]; int k = 0;
  while (getline(cin, line)) {
    mj::Val c = mj::parse(line);
    dir = root + "/" + to_string(getpid()) + "-" + to_string(k++); MkDirP(dir);
    string res = "{\"procs\":[";
    for (size_t p = 0; p < c["procs"].size(); ++p) {
      int fd[2]; if (pipe(fd)) abort();
      pid_t pid = fork();
      if (!pid) { W w; run(c["procs"][p], w); size_t a = 0; while (a < w.s.size()) { ssize_t n = write(fd[1], w.s.data() + a, w.s.size() - a); if (n <= 0) break; a += n; } _exit(0); }
      close(fd[1]); string s; char b[4096]; ssize_t n; while ((n = read(fd[0], b, 4096)) > 0) s.append(b, n); close(fd[0]);
      int st; waitpid(pid, &st, 0);
      if (st) { s = "\"died\""; }
      if (p) res += ","; res += s;
    }
    res += "]}";
    fprintf(out, "%s\n", res.c_str()); fflush(out);
    for (char f = 'a'; f <= 'd'; ++f) { unlink((dir + "/" + f).c_str()); unlink((dir + "/" + f + ".gz").c_str()); }
    rmdir(dir.c_str());
  }
}
