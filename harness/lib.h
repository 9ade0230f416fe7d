// Driver support: one command per input line, one JSON observation per output line.
#pragma once
#include <cstdint>
struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };
struct In {
  std::vector<std::string> t; size_t p = 0;
  explicit In(const std::string& line) { std::istringstream s(line); std::string x; while (s >> x) t.push_back(x); }
  const std::string& w() { if (p >= t.size()) throw Bad("short command"); return t[p++]; }
  long i() { return std::stol(w()); }
  double d() { return std::strtod(w().c_str(), nullptr); }
  bool more() const { return p < t.size(); }
  std::vector<double> ds() { long n = i(); std::vector<double> r; for (long k = 0; k < n; ++k) r.push_back(d()); return r; }
  std::vector<long> is() { long n = i(); std::vector<long> r; for (long k = 0; k < n; ++k) r.push_back(i()); return r; }
};
// a double as [flag, floor, nano]: flag 0 = finite and |v| < 2e9, flag 1 = NaN/infinite/too large
inline std::string jd(double v) {
  if (!(std::fabs(v) < 2.0e9)) return "[1,0,0]";
  double f = std::floor(v); long n = std::lround((v - f) * 1e9);
  long i = (long)f; if (n >= 1000000000L) { n -= 1000000000L; ++i; }
  return "[0," + std::to_string(i) + "," + std::to_string(n) + "]";
}
template <class It> inline std::string jds(It b, It e) { std::string s = "["; bool f = true; for (; b != e; ++b) { if (!f) s += ","; f = false; s += jd(*b); } return s + "]"; }
inline std::string jds(const std::vector<double>& v) { return jds(v.begin(), v.end()); }
template <class V> inline std::string jis(const V& v) { std::string s = "["; bool f = true; for (auto x : v) { if (!f) s += ","; f = false; s += std::to_string((long)x); } return s + "]"; }
inline std::string js(const std::string& x) { std::string s = "\""; for (char c : x) { if (c == '"' || c == '\\') { s += '\\'; s += c; } else if ((unsigned char)c < 32) s += ' '; else s += c; } return s + "\""; }
// clamp to TLC's 32-bit integers
inline std::string ji(long long v) { if (v > 2000000000LL) v = 2000000000LL; if (v < -2000000000LL) v = -2000000000LL; return std::to_string(v); }
inline std::string jlist(const std::vector<std::string>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += v[i]; } return s + "]"; }
struct Obs { std::string s = "{\"ok\":1"; Obs& f(const char* k, const std::string& v) { s += ",\""; s += k; s += "\":"; s += v; return *this; } std::string str() const { return s + "}"; } };
template <class Reset, class Handle> int drive(Reset reset, Handle handle) {
  std::streambuf* out = std::cout.rdbuf();
  std::ofstream nul("/dev/null");
  FILE* real = fdopen(dup(1), "w");
  freopen("/dev/null", "w", stdout);           // library chatter never mixes with observations
  std::cout.rdbuf(nul.rdbuf()); std::cerr.rdbuf(nul.rdbuf());
  std::string line;
  while (std::getline(std::cin, line)) {
    std::string o;
    if (line == "reset") { reset(); fputs("reset\n", real); continue; }
    try { In in(line); o = handle(in); }
    catch (const Bad& e) { o = std::string("{\"ok\":0,\"ex\":\"BAD\",\"PROTO\":") + js(e.what()) + "}"; }
    catch (const std::invalid_argument& e) { o = "{\"ok\":0,\"ex\":\"invalid_argument\"}"; }
    catch (const std::out_of_range& e) { o = "{\"ok\":0,\"ex\":\"out_of_range\"}"; }
    catch (const std::runtime_error& e) { o = "{\"ok\":0,\"ex\":\"runtime_error\"}"; }
    catch (const std::exception& e) { o = "{\"ok\":0,\"ex\":\"exception\"}"; }
    catch (...) { o = "{\"ok\":0,\"ex\":\"other\"}"; }
    fputs(o.c_str(), real); fputc('\n', real); fflush(real);
  }
  fflush(real);
  _exit(0);
}
// v * scale when that is an integer, otherwise a value no specification state contains
inline std::string jx(double v, double scale) { double s = v * scale; if (!(std::fabs(s) < 1.9e9) || s != std::floor(s)) return "1999999999"; return std::to_string((long)s); }
