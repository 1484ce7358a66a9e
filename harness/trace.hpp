// shared by the harnesses: an ndjson trace writer and scenario input
#ifndef VF_TRACE_HPP_
#define VF_TRACE_HPP_
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <stdexcept>

namespace vf
{
// internal error of the harness (not of the code under test)
[[noreturn]] inline void internal(const std::string& what)
{
  fprintf(stderr, "harness error: %s\n", what.c_str());
  fflush(stderr);
  _exit(77);
}

inline std::string quote(const std::string& s)
{
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"') r += "\\\"";
    else if (c == '\\') r += "\\\\";
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) {char b [8]; snprintf(b, 8, "\\u%04x", c); r += b;}
    else r += c;
  }
  return r + "\"";
}

// value scaled to an integer that fits in TLC's 32-bit integers
inline long fix(double x, double scale)
{
  double v = std::round(x*scale);
  if (!(std::abs(v) < 2e9)) return v != v ? 2000000003 : v > 0 ? 2000000001 : -2000000001;
  return long(v);
}

class Json
{
  std::string s;
  bool first = true;
  void key(const std::string& k) {if (!first) s += ","; first = false; s += "\"" + k + "\":";}
  public:
  Json& raw(const std::string& k, const std::string& v) {key(k); s += v; return *this;}
  Json& i(const std::string& k, long v) {return raw(k, std::to_string(v));}
  Json& b(const std::string& k, bool v) {return raw(k, v ? "true" : "false");}
  Json& str(const std::string& k, const std::string& v) {return raw(k, quote(v));}
  template <typename V> Json& list(const std::string& k, const V& v)
  {
    std::string r = "[";
    bool f = true;
    for (const auto& x : v) {if (!f) r += ","; f = false; r += std::to_string(x);}
    return raw(k, r + "]");
  }
  std::string done() const {return "{" + s + "}";}
};

template <typename V> std::string list(const V& v)
{
  std::string r = "[";
  bool f = true;
  for (const auto& x : v) {if (!f) r += ","; f = false; r += std::to_string(x);}
  return r + "]";
}

inline std::string join(const std::vector<std::string>& v)
{
  std::string r = "[";
  for (unsigned i = 0; i < v.size(); ++i) {if (i) r += ","; r += v[i];}
  return r + "]";
}

class Trace
{
  FILE* f;
  public:
  Trace(const char* path, bool append = false) : f{fopen(path, append ? "a" : "w")} {if (!f) internal("cannot write trace");}
  ~Trace() {fclose(f);}
  void put(const Json& j)
  {
    std::string s = j.done() + "\n";
    fwrite(s.data(), 1, s.size(), f);
    fflush(f);
  }
  static Json ev(const std::string& name) {Json j; j.str("ev", name); return j;}
};
}
#endif
