// Minimal JSON reader/writer for the harnesses (ints, doubles, strings, arrays, objects).
#ifndef VERIF_MINI_JSON_H_
#define VERIF_MINI_JSON_H_
#include <cstdio>
#include <unistd.h>
#include <cstdlib>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <iostream>
#include <sstream>
namespace mj {
// real stdout for replies; whatever the code under test prints goes to stderr
inline FILE* out() { static FILE* f = 0; if (!f) { f = fdopen(dup(1), "w"); dup2(2, 1); } return f; }
struct Val {
  enum T { NUL, NUM, STR, ARR, OBJ, BOOL } t;
  double num; std::string str; std::vector<Val> arr; std::map<std::string, Val> obj;
  Val() : t(NUL), num(0) {}
  bool has(const std::string& k) const { return t == OBJ && obj.count(k); }
  const Val& operator[](const std::string& k) const { static const Val n; std::map<std::string,Val>::const_iterator i = obj.find(k); return i == obj.end() ? n : i->second; }
  const Val& operator[](size_t i) const { return arr[i]; }
  size_t size() const { return t == OBJ ? obj.size() : arr.size(); }
  long i() const { return static_cast<long>(std::llround(num)); }
  long i(long d) const { return t == NUL ? d : i(); }
  bool b() const { return num != 0; }
  const std::string& s() const { return str; }
};
struct Parser {
  const char* p; const char* e;
  void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) ++p; }
  void fail(const char* m) { std::fprintf(stderr, "json: %s\n", m); std::exit(3); }
  std::string str() {
    std::string o; ++p;
    while (p < e && *p != '"') {
      if (*p == '\\') { ++p;
        switch (*p) { case 'n': o += '\n'; break; case 't': o += '\t'; break; case 'r': o += '\r'; break;
          case 'b': o += '\b'; break; case 'f': o += '\f'; break;
          case 'u': { unsigned c = std::strtoul(std::string(p + 1, p + 5).c_str(), 0, 16); p += 4;
            if (c < 0x80) o += char(c); else if (c < 0x800) { o += char(0xC0 | (c >> 6)); o += char(0x80 | (c & 63)); }
            else { o += char(0xE0 | (c >> 12)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); } break; }
          default: o += *p; } ++p; }
      else o += *p++;
    }
    ++p; return o;
  }
  Val val() {
    ws(); Val v; if (p >= e) fail("eof");
    if (*p == '"') { v.t = Val::STR; v.str = str(); }
    else if (*p == '[') { v.t = Val::ARR; ++p; ws(); if (*p == ']') { ++p; return v; }
      while (true) { v.arr.push_back(val()); ws(); if (*p == ',') { ++p; continue; } if (*p == ']') { ++p; break; } fail("array"); } }
    else if (*p == '{') { v.t = Val::OBJ; ++p; ws(); if (*p == '}') { ++p; return v; }
      while (true) { ws(); std::string k = str(); ws(); if (*p != ':') fail("colon"); ++p; v.obj[k] = val(); ws();
        if (*p == ',') { ++p; continue; } if (*p == '}') { ++p; break; } fail("object"); } }
    else if (*p == 't') { v.t = Val::BOOL; v.num = 1; p += 4; }
    else if (*p == 'f') { v.t = Val::BOOL; v.num = 0; p += 5; }
    else if (*p == 'n') { p += 4; }
    else { v.t = Val::NUM; char* q; v.num = std::strtod(p, &q); if (q == p) fail("number"); p = q; }
    return v;
  }
};
inline Val parse(const std::string& s) { Parser p; p.p = s.data(); p.e = s.data() + s.size(); return p.val(); }
inline std::string quote(const std::string& s) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i];
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c; }
  return o + "\"";
}
// writer: W w; w.o().k("a").v(1).k("b").a().v(2).e().e();
struct W {
  std::string s; std::vector<char> st; bool need;
  W() : need(false) {}
  void sep() { if (need) s += ','; need = false; }
  W& o() { sep(); s += '{'; st.push_back('}'); need = false; return *this; }
  W& a() { sep(); s += '['; st.push_back(']'); need = false; return *this; }
  W& e() { s += st.back(); st.pop_back(); need = true; return *this; }
  W& k(const std::string& x) { sep(); s += quote(x); s += ':'; need = false; return *this; }
  W& v(long x) { sep(); s += std::to_string(x); need = true; return *this; }
  W& v(int x) { return v(static_cast<long>(x)); }
  W& v(unsigned x) { return v(static_cast<long>(x)); }
  W& v(size_t x) { return v(static_cast<long>(x)); }
  W& v(bool x) { sep(); s += x ? "true" : "false"; need = true; return *this; }
  W& v(const std::string& x) { sep(); s += quote(x); need = true; return *this; }
  W& v(const char* x) { return v(std::string(x)); }
  void put() { FILE* f = out(); std::fputs(s.c_str(), f); std::fputc('\n', f); std::fflush(f); }
};
// value scaled by `mul` rounded to an integer; "inexact" marker if it is not one (returns 1999999999)
inline long exact(double x, double mul = 1.0, double eps = 1e-6) {
  double y = x * mul;
  if (!(std::fabs(y) < 1.9e9)) return 1999999999L;
  double r = std::round(y);
  if (std::fabs(r - y) > eps * (1.0 + std::fabs(y))) return 1999999998L;
  return static_cast<long>(r);
}
}
#endif
