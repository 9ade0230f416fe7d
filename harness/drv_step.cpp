// STEP export (E01): curves and surfaces written into one stream; the text is tokenised, not judged
#include "cmmcore/vec.h"
#include "cmmcore/nurbs.h"
#include <fstream>
#include <iomanip>
#include <unistd.h>
#include "lib.h"
using namespace cmmcore;
static NURBSCurve C[4]; static NURBSSurface S[3]; static int ctr = 1; static std::ostringstream* out = nullptr;
static std::vector<vec4> pts(In& in, int n) { std::vector<vec4> r(n); for (auto& p : r) { double x = in.d(), y = in.d(), z = in.d(), w = in.d(); p.set(x, y, z, w); } return r; }
struct Mal { std::string why; };
// the tokens of ISO 10303-21 clear text
struct Lex {
  const std::string& s; size_t p = 0;
  void ws() {
    for (;;) {
      while (p < s.size() && isspace((unsigned char)s[p])) ++p;
      if (s.compare(p, 2, "/*") != 0) return;
      size_t e = s.find("*/", p + 2); if (e == std::string::npos) throw Mal{"comment"}; p = e + 2;
    }
  }
  bool end() { ws(); return p >= s.size(); }
  char peek() { ws(); return p < s.size() ? s[p] : '\0'; }
  void eat(char c) { if (peek() != c) throw Mal{std::string("expected ") + c}; ++p; }
  std::string word() { ws(); size_t b = p; while (p < s.size() && (isupper((unsigned char)s[p]) || isdigit((unsigned char)s[p]) || s[p] == '_' || s[p] == '-')) ++p; if (p == b) throw Mal{"keyword"}; return s.substr(b, p - b); }
  long id() { eat('#'); size_t b = p; while (p < s.size() && isdigit((unsigned char)s[p])) ++p; if (p == b || p - b > 9) throw Mal{"identifier"}; return std::stol(s.substr(b, p - b)); }
  void str() { eat('\''); for (;;) { if (p >= s.size() || s[p] == '\n') throw Mal{"string"}; if (s[p++] == '\'') { if (p < s.size() && s[p] == '\'') ++p; else return; } } }
  std::string num() {
    size_t b = p; if (s[p] == '-' || s[p] == '+') ++p;
    size_t d = p; while (p < s.size() && isdigit((unsigned char)s[p])) ++p; if (p == d) throw Mal{"number"};
    bool real = false;
    if (p < s.size() && s[p] == '.') { real = true; ++p; while (p < s.size() && isdigit((unsigned char)s[p])) ++p; }
    if (p < s.size() && s[p] == 'E') { if (!real) throw Mal{"exponent without a decimal point"}; ++p; if (s[p] == '-' || s[p] == '+') ++p; size_t x = p; while (p < s.size() && isdigit((unsigned char)s[p])) ++p; if (p == x) throw Mal{"exponent"}; }
    if (p < s.size() && isalnum((unsigned char)s[p])) throw Mal{"number"};
    return "{\"t\":\"n\",\"v\":" + jd(std::strtod(s.substr(b, p - b).c_str(), nullptr)) + ",\"r\":" + (real ? "true" : "false") + "}";
  }
  std::string tok() {
    char c = peek();
    if (c == '(') return "{\"t\":\"l\",\"v\":" + args() + "}";
    if (c == '#') return "{\"t\":\"r\",\"v\":" + std::to_string(id()) + "}";
    if (c == '\'') { str(); return "{\"t\":\"s\"}"; }
    if (c == '*' || c == '$') { ++p; return "{\"t\":\"u\"}"; }
    if (c == '.') { ++p; size_t b = p; while (p < s.size() && (isupper((unsigned char)s[p]) || s[p] == '_')) ++p; std::string v = s.substr(b, p - b); if (v.empty() || p >= s.size() || s[p] != '.') throw Mal{"enumeration"}; ++p; return "{\"t\":\"e\",\"v\":" + js(v) + "}"; }
    return num();
  }
  std::string args() { eat('('); std::vector<std::string> r; if (peek() == ')') { ++p; return "[]"; } for (;;) { r.push_back(tok()); if (peek() == ')') { ++p; return jlist(r); } eat(','); } }
  std::string entity() { long n = id(); eat('='); std::string w = word(); std::string a = args(); eat(';'); return "{\"id\":" + std::to_string(n) + ",\"nm\":" + js(w) + ",\"a\":" + a + "}"; }
};
static Obs parsed(const std::string& t, bool file) {
  Lex x{t}; std::vector<std::string> es, hd; std::string bad;
  try {
    bool data = !file;
    while (!x.end()) {
      if (x.peek() == '#') { if (!data) throw Mal{"entity outside the data section"}; if (file && (hd.empty() || hd.back() != js("#"))) hd.push_back(js("#")); es.push_back(x.entity()); continue; }
      if (!file) throw Mal{"text between entities"};
      std::string w = x.word(); hd.push_back(js(w)); data = w == "DATA"; if (x.peek() == '(') x.args(); x.eat(';');
    }
  } catch (const Mal& m) { bad = m.why; }
  Obs o; o.f("bad", js(bad)).f("ents", jlist(es)).f("hd", jlist(hd)); return o;
}
static std::string handle(In& in) {
  std::string op = in.w(); Obs o;
  if (op == "cnew") { long k = in.i(); int d = in.i(); auto kn = in.ds(); int n = in.i(); C[k] = NURBSCurve(pts(in, n), d, kn, false); return o.str(); }
  if (op == "snew") {
    long k = in.i(); int du = in.i(), dv = in.i(); auto ku = in.ds(), kv = in.ds(); int n = in.i(), m = in.i();
    std::vector<std::vector<vec4>> cp; for (int a = 0; a < n; ++a) cp.push_back(pts(in, m));
    S[k] = NURBSSurface(cp, {du, dv}, ku, kv); return o.str();
  }
  if (op == "open") { ctr = in.i(); long prec = in.i(); delete out; out = new std::ostringstream; if (prec) *out << std::fixed << std::setprecision(prec); return o.str(); }
  if (op == "cex" || op == "sex") {
    long k = in.i(); size_t at = out->str().size(); int id0 = ctr;
    int ret = op == "cex" ? C[k].toSTEP(*out, ctr) : S[k].toSTEP(*out, ctr);
    return parsed(out->str().substr(at), false).f("id0", ji(id0)).f("id1", ji(ctr)).f("ret", ji(ret)).str();
  }
  if (op == "file") {
    long k = in.i(); std::string how = in.w();
    const char* t = getenv("TMPDIR"); std::string d = std::string(t ? t : "/tmp") + "/stepXXXXXX"; std::vector<char> b(d.begin(), d.end()); b.push_back(0);
    if (!mkdtemp(b.data())) throw Bad("scratch directory"); d = b.data();
    std::string f = how == "missing" ? d + "/none/x.stp" : how == "dir" ? d : d + "/x.stp", e;
    if (how == "old") { std::ofstream q(f); for (int j = 0; j < 4000; ++j) q << "left over\n"; }
    struct Clean { std::string d; ~Clean() { unlink((d + "/x.stp").c_str()); rmdir(d.c_str()); } } c{d};
    S[k].writeSTEPFile(f);
    std::ifstream q(f); std::stringstream ss; ss << q.rdbuf();
    return parsed(ss.str(), true).str();
  }
  throw Bad("unknown command " + op);
}
int main() { return drive([] { for (auto& c : C) c = NURBSCurve(); for (auto& s : S) s = NURBSSurface(); delete out; out = new std::ostringstream; ctr = 1; }, handle); }
