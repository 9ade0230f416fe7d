// Vectors, matrices, linear systems, Newton, scalar minimisation, quadrature, arc length, serialisation, segment assembly
// (Q01 N04 N03 N02 N01 R01 L01).
#include "cmmcore/vec.h"
#include "cmmcore/utils.h"
#include "cmmcore/matrix.h"
#include "cmmcore/binom.h"
#include "cmmcore/newthon2.h"
#include "cmmcore/minimize_scalar.h"
#include "cmmcore/integrate.h"
#include "cmmcore/nurbs.h"
#include "cmmcore/serialization.h"
#include "cmmcore/polyline.h"
#include "lib.h"
#include <cstdio>
#include <unistd.h>
using namespace cmmcore;
static std::string d2(const vec2& v) { return "[" + jd(v.x) + "," + jd(v.y) + "]"; }
static std::string d3(const vec3& v) { return "[" + jd(v.x) + "," + jd(v.y) + "," + jd(v.z) + "]"; }
static std::string d4(const vec4& v) { return "[" + jd(v.x) + "," + jd(v.y) + "," + jd(v.z) + "," + jd(v.w) + "]"; }
static std::string jb(bool b) { return b ? "1" : "0"; }
template <class F> static std::string ex(F f) { auto e = [](const char* k) { return std::string("[\"") + k + "\",0]"; }; try { return "[\"\"," + f() + "]"; } catch (const std::invalid_argument&) { return e("invalid_argument"); } catch (const std::out_of_range&) { return e("out_of_range"); } catch (const std::runtime_error&) { return e("runtime_error"); } catch (const std::exception&) { return e("exception"); } }
static MatrixD mat(In& in) { long r = in.i(), c = in.i(); MatrixD m(r, c); for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) m(i, j) = in.d(); return m; }
static std::string jm(const MatrixD& m) { std::vector<std::string> r; for (size_t i = 0; i < m.rows; ++i) { std::vector<double> v; for (size_t j = 0; j < m.cols; ++j) v.push_back(m(i, j)); r.push_back(jds(v)); } return jlist(r); }
static std::string jm2(const Matrix2x2& m) { return "[" + jds(m[0].begin(), m[0].end()) + "," + jds(m[1].begin(), m[1].end()) + "]"; }
template <size_t N> static std::string newton_op(In& in, const std::string& op) {
  if (op == "chol") {
    MatrixSq<N> H; Vector<N> b; for (auto& r : H) for (auto& x : r) x = in.d(); for (auto& x : b) x = in.d();
    MatrixSq<N> L{}; bool r = choleskyDecomposition<N>(H, L); Vector<N> x{}; bool s = solveLinearSystem<N>(H, b, x);
    std::vector<std::string> rows; for (auto& q : L) rows.push_back(jds(q.begin(), q.end()));
    return Obs().f("r", jb(r)).f("s", jb(s)).f("L", jlist(rows)).f("x", jds(x.begin(), x.end())).str();
  }
  // f(x) = 1/2 (x-m)'A(x-m) + b (x-m) + sum q_i (x_i-m_i)^4 + k
  MatrixSq<N> A; Vector<N> m, b, q, p; for (auto& r : A) for (auto& x : r) x = in.d();
  for (auto& x : b) x = in.d(); for (auto& x : q) x = in.d(); for (auto& x : m) x = in.d(); for (auto& x : p) x = in.d(); double k = in.d();
  std::function<double(const Vector<N>&)> f = [&](const Vector<N>& x) { double r = 0; for (size_t i = 0; i < N; ++i) { double u = x[i] - m[i]; r += b[i] * u + q[i] * u * u * u * u; for (size_t j = 0; j < N; ++j) r += .5 * A[i][j] * u * (x[j] - m[j]); } return r + k; };
  if (op == "newton") { Vector<N> x = newtonsMethod<N>(f, p); return Obs().f("x", jds(x.begin(), x.end())).str(); }
  Vector<N> g = computeGradient<N>(f, p); MatrixSq<N> H = computeHessian<N>(f, p);
  std::vector<std::string> rows; for (auto& r : H) rows.push_back(jds(r.begin(), r.end()));
  return Obs().f("g", jds(g.begin(), g.end())).f("H", jlist(rows)).str();
}
static std::string tokens(In& in, bool& bad);
struct Tok { std::string k; std::vector<double> v; };
static NURBSCurve mkcurve(In& in) {
  long deg = in.i(), per = in.i(); auto kn = in.ds(); long n = in.i(); std::vector<vec4> c; for (long i = 0; i < n; ++i) { double x = in.d(), y = in.d(), z = in.d(), w = in.d(); c.emplace_back(x, y, z, w); }
  return NURBSCurve(c, (int)deg, kn, per != 0);
}
static std::string jcurve(NURBSCurve& c) {
  std::vector<std::string> r; for (auto& p : c.control_points) r.push_back(d4(p));
  return "[\"curve\"," + std::to_string(c.get_degree()) + "," + jb(c.is_periodic()) + "," + jds(c.knots) + "," + jlist(r) + "]";
}
static bool bits(const std::vector<double>& a, const std::vector<double>& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
static bool same(NURBSCurve& a, NURBSCurve& b) {
  bool r = a.get_degree() == b.get_degree() && a.is_periodic() == b.is_periodic() && bits(a.knots, b.knots) && a.control_points.size() == b.control_points.size();
  if (r) for (size_t i = 0; i < a.control_points.size(); ++i) r = r && !memcmp(&a.control_points[i], &b.control_points[i], sizeof(vec4));
  r = r && a.interval() == b.interval() && a.bbox().min == b.bbox().min && a.bbox().max == b.bbox().max;
  if (r && a._periodic == a.is_periodic()) {        // and it goes on behaving like the original
    auto x = a, y = b; auto c = a.control_points; c.push_back(c[0]); c.push_back(c[1]); x.set_control_points(c); y.set_control_points(c); r = bits(x.knots, y.knots) && x.interval() == y.interval();
  }
  return r;
}
static std::string serial(In& in) {          // a program of writes; then the same kinds are read back
  std::vector<uint8_t> buf; std::vector<std::string> kinds; std::vector<size_t> ends; long n = in.i();
  for (long k = 0; k < n; ++k) {
    const std::string w = in.w(); kinds.push_back(w);
    if (w == "int") serializeInt(buf, (int)in.i());
    else if (w == "dbl") serializeDouble(buf, in.d());
    else if (w == "bool") serializeBool(buf, in.i() != 0);
    else if (w == "vd") serializeVectorDouble(buf, in.ds());
    else if (w == "v4") { double a = in.d(), b = in.d(), c = in.d(), d = in.d(); serializeVec4(buf, vec4(a, b, c, d)); }
    else if (w == "vv4") { long m = in.i(); std::vector<vec4> v; for (long i = 0; i < m; ++i) { double a = in.d(), b = in.d(), c = in.d(), d = in.d(); v.emplace_back(a, b, c, d); } serializeVectorVec4(buf, v); }
    else if (w == "curve") { auto c = mkcurve(in); auto b = serializeNURBSCurve(c); buf.insert(buf.end(), b.begin(), b.end()); }
    else throw Bad("kind");
    ends.push_back(buf.size());
  }
  std::vector<uint8_t> exact(buf.begin(), buf.end()); exact.shrink_to_fit();
  const uint8_t* p = exact.data(); std::vector<std::string> out; bool cons = true; std::vector<uint8_t> again;
  for (size_t k = 0; k < kinds.size(); ++k) {
    const auto& w = kinds[k];
    if (w == "int") { int v = deserializeInt(p); serializeInt(again, v); out.push_back("[\"int\"," + ji(v) + "]"); }
    else if (w == "dbl") { double v = deserializeDouble(p); serializeDouble(again, v); out.push_back("[\"dbl\"," + jd(v) + "]"); }
    else if (w == "bool") { bool v = deserializeBool(p); serializeBool(again, v); out.push_back("[\"bool\"," + jb(v) + "]"); }
    else if (w == "vd") { auto v = deserializeVectorDouble(p); serializeVectorDouble(again, v); out.push_back("[\"vd\"," + jds(v) + "]"); }
    else if (w == "v4") { vec4 v = deserializeVec4(p); serializeVec4(again, v); out.push_back("[\"v4\"," + d4(v) + "]"); }
    else if (w == "vv4") { std::vector<std::string> r; auto l = deserializeVectorVec4(p); serializeVectorVec4(again, l); for (auto& v : l) r.push_back(d4(v)); out.push_back("[\"vv4\"," + jlist(r) + "]"); }
    else { auto c = deserializeNURBSCurve(p); auto b = serializeNURBSCurve(c); again.insert(again.end(), b.begin(), b.end()); out.push_back(jcurve(c)); }
    cons = cons && (size_t)(p - exact.data()) == ends[k];
  }
  return Obs().f("v", jlist(out)).f("used", jb(cons)).f("same", jb(again == buf)).str();
}
static double fval(const std::string& k, const std::vector<double>& c, double x) {
  if (k == "poly") { double r = 0; for (size_t i = c.size(); i-- > 0;) r = r * x + c[i]; return r; }
  double u = x - c[0], r = 0;                                    // unimodal families around c[0]
  if (k == "sq") r = u * u; else if (k == "abs") r = std::fabs(u); else if (k == "quart") r = u * u * u * u + u * u;
  else if (k == "skew") r = u < 0 ? -c[1] * u : c[2] * u * u + u; else if (k == "step") r = u < 0 ? std::floor(-u * c[1]) - u : u;
  else if (k == "wave") r = std::cos(c[1] * u) + c[2] * u * u; else if (k == "const") r = c[1];
  else if (k == "nan") return x > c[0] ? std::nan("") : -x;
  else throw Bad("function"); return r;
}
static std::string handle(In& in) {
  const std::string op = in.w();
  if (op == "v3") {
    double s; vec3 a, b; s = 1 / in.d(); for (int k = 0; k < 3; ++k) a[k] = in.d() * s; for (int k = 0; k < 3; ++k) b[k] = in.d() * s; double m = in.d();
    vec3 t, u; Obs o;
    std::vector<std::string> add, sub, mul, crs, neg, prj, sca; 
    t = a; t += b; add.push_back(d3(t)); add.push_back(d3(a + b)); a.add(b, u); add.push_back(d3(u)); u = a; u.add(b, u); add.push_back(d3(u)); u = b; a.add(u, u); add.push_back(d3(u));
    t = a; t -= b; sub.push_back(d3(t)); sub.push_back(d3(a - b)); a.sub(b, u); sub.push_back(d3(u)); u = b; a.sub(u, u); sub.push_back(d3(u));
    sca.push_back(d3(a * m)); sca.push_back(d3(m * a)); t = a; t *= m; sca.push_back(d3(t));
    a.cross(b, u); crs.push_back(d3(u)); crs.push_back(d3(a.cross(b)));
    neg.push_back(d3(-a)); mul.push_back(d3(a * b));
    o.f("add", jlist(add)).f("sub", jlist(sub)).f("sca", jlist(sca)).f("crs", jlist(crs)).f("neg", jlist(neg)).f("mul", jlist(mul));
    o.f("dot", jds(std::vector<double>{a.dot(b), a.dot(b.x, b.y, b.z), dot(a, b), b.dot(a)}));
    o.f("sq", jds(std::vector<double>{a.sqLength(), mag2(a)})).f("len", jd(a.length()));
    o.f("ds", jds(std::vector<double>{a.distanceSq(b), dist2(a, b), b.distanceSq(a)})).f("dd", jds(std::vector<double>{a.distance(b), dist(a, b), b.distance(a)}));
    vec4 c4; cross(a, b, c4); o.f("c4", d4(c4)).f("eq", "[" + jb(a == b) + "," + jb(a == a) + "," + jb(b == a) + "]");
    { std::string e; for (size_t k = 0; k < 3; ++k) { vec3 q = a; q[k] += std::ldexp(1., -30); e += (k ? "," : "") + jb(a == q) + "," + jb(q == a); } o.f("eqn", "[" + e + "]"); }
    if (b.sqLength() > 0) { vectorProjection(a, b, u); prj.push_back(d3(u)); prj.push_back(d3(vectorProjection(a, b))); prj.push_back(d3(a.project(b))); }
    o.f("prj", jlist(prj));
    t = a; t.unitize(); u = a; u.normalize(); o.f("unit", jlist({d3(a.unit()), d3(t), d3(u)})); t = a.unit(); o.f("usq", d3(t * t));
    if (m != 0) { t = a; t /= m; o.f("div", jlist({d3(a / m), d3(t)})); } else o.f("div", "[]");
    double p, q, r; assign(a, p, q, r); vec3 w(a); w.set(b); vec3 z(0.0); z.set(a.x, a.y, a.z);
    o.f("cmp", jlist({jds(std::vector<double>{a[0], a[1], a[2]}), jds(std::vector<double>{p, q, r}), d3(z)})).f("set", d3(w));
    o.f("idx", ex([&] { return jd(a[3]); }));
    { const vec3 ca(a); std::array<double, 3> ar{a.x, a.y, a.z}; vec3 e1(ar), e2, e3, e4(7.); e2.set(ar); for (size_t k = 0; k < 3; ++k) e3[k] = ca[k]; e4.set(a.x, a.y, a.z);
      o.f("mk", jlist({d3(e1), d3(e2), d3(e3), d3(e4), d3(ca)})).f("all", jlist({d3(vec3(m)), d3(vec3())})).f("size", ji((long)ca.size()));
      o.f("cidx", ex([&] { return jd(ca[3]); })).f("col", jb(a.collinear(b))).f("eq2", "[" + jb(a == vec2(b.x, b.y)) + "," + jb(a == vec2(a.x, a.y)) + "]");
      if (b.x != 0 && b.y != 0 && b.z != 0) o.f("cq", jlist({d3(a / b)})); else o.f("cq", "[]"); }
    return o.str();
  }
  if (op == "v2") {
    double s = 1 / in.d(); vec2 a, b, t; a.x = in.d() * s; a.y = in.d() * s; b.x = in.d() * s; b.y = in.d() * s; double m = in.d();
    Obs o; t = a; t += b; o.f("add", jlist({d2(t)})); t = a; t -= b; o.f("sub", jlist({d2(t), d2(a - b), d2(vec2(b, a))}));
    o.f("sca", jlist({d2(a * m)})).f("neg", jlist({d2(-a)})).f("mul", jlist({d2(a * b)}));
    o.f("crs", jd(cross(a, b))).f("dot", jds(std::vector<double>{a.dot(b), dot(a, b), b.dot(a)})).f("sq", jds(std::vector<double>{a.sqLength()})).f("len", jd(a.length()));
    o.f("ds", jds(std::vector<double>{a.distanceSq(b), b.distanceSq(a)})).f("dd", jds(std::vector<double>{a.distance(b), b.distance(a)}));
    o.f("eq", "[" + jb(a == b) + "," + jb(a == a) + "," + jb(b == a) + "]");
    { std::string e; for (size_t k = 0; k < 2; ++k) { vec2 q = a; q[k] += std::ldexp(1., -30); e += (k ? "," : "") + jb(a == q) + "," + jb(q == a); } o.f("eqn", "[" + e + "]"); }
    if (b.sqLength() > 0) o.f("prj", jlist({d2(a.project(b))})).f("prn", jd(a.projection(b))); else o.f("prj", "[]").f("prn", "[0,0,0]");
    o.f("unit", ex([&] { vec2 u = a; u.unitize(); return jlist({d2(a.unit()), d2(u)}); })).f("usq", ex([&] { vec2 u = a.unit(); return d2(u * u); }));
    o.f("div", ex([&] { vec2 u = a; u /= m; return jlist({d2(u)}); }));
    o.f("cmp", jds(std::vector<double>{a[0], a[1]})).f("idx", ex([&] { return jd(a[2]); }));
    { const vec2 ca(a); std::array<double, 2> ar{a.x, a.y}; vec2 e1(ar), e2, e3(3.), e4, e5(vec2(0.), a); e2.set(ar); for (size_t k = 0; k < 2; ++k) e3[k] = ca[k]; e4.set(a.x, a.y); vec2 e6(a.x, a.y); e6.set(ca); vec2 g(1., 2.); g.set(m);
      o.f("mk", jlist({d2(e1), d2(e2), d2(e3), d2(e4), d2(e5), d2(e6), d2(ca)})).f("all", jlist({d2(vec2(m)), d2(g)})).f("size", ji((long)ca.size()));
      o.f("cidx", ex([&] { return jd(ca[2]); })).f("col", ex([&] { return jb(a.collinear(b)); })); }
    return o.str();
  }
  if (op == "v4") {
    double s = 1 / in.d(); vec4 a, b, t, u; for (int k = 0; k < 4; ++k) a[k] = in.d() * s; for (int k = 0; k < 4; ++k) b[k] = in.d() * s; double m = in.d();
    Obs o; t = a; t += b; a.add(b, u); vec4 v = b; a.add(v, v); o.f("add", jlist({d4(t), d4(a + b), d4(u), d4(v)}));
    t = a; t -= b; a.sub(b, u); o.f("sub", jlist({d4(t), d4(a - b), d4(u)})).f("sca", jlist({d4(a * m)})).f("neg", jlist({d4(-a)})).f("mul", jlist({d4(a * b)}));
    o.f("dot", jds(std::vector<double>{a.dot(b), b.dot(a)})).f("sq", jds(std::vector<double>{a.sqLength()})).f("len", jd(a.length()));
    o.f("ds", jds(std::vector<double>{a.distanceSq(b), b.distanceSq(a)})).f("dd", jds(std::vector<double>{a.distance(b), b.distance(a)}));
    o.f("eq", "[" + jb(a == b) + "," + jb(a == a) + "," + jb(b == a) + "]");
    { std::string e; for (size_t k = 0; k < 4; ++k) { vec4 q = a; q[k] += std::ldexp(1., -30); e += (k ? "," : "") + jb(a == q) + "," + jb(q == a); } o.f("eqn", "[" + e + "]"); }
    if (b.sqLength() > 0) o.f("prj", jlist({d4(a.project(b))})); else o.f("prj", "[]");
    if (m != 0) o.f("div", jlist({d4(a / m)})); else o.f("div", "[]");
    vec3 h; if (a.w != 0) { a.to_vec3(h); o.f("hom", jlist({d3(a.to_vec3()), d3(h)})); vec3 g(b.x, b.y, b.z), c; a.cross(g, c); o.f("ch", jlist({d3(a.cross(g)), d3(c)})); vec4 e; e.set(h); vec3 bk = e.to_vec3(); o.f("rt", jlist({d4(e), d3(bk)})); }
    else o.f("hom", "[]").f("ch", "[]").f("rt", "[]");
    vec4 a1(a.x, a.y, a.z, 1), b1(b.x, b.y, b.z, 1), c1; a1.cross(b1, c1); o.f("c1", jlist({d4(a1.cross(b1)), d4(c1)}));
    o.f("cmp", jds(std::vector<double>{a[0], a[1], a[2], a[3]})).f("idx", ex([&] { return jd(a[4]); }));
    { const vec4 ca(a); std::array<double, 4> ar{a.x, a.y, a.z, a.w}; vec4 e1(ar), e2, e3, e4(7.), e5; e2.set(ar); for (size_t k = 0; k < 4; ++k) e3[k] = ca[k]; e4.set(a.x, a.y, a.z, a.w); e5.set(ca);
      o.f("mk", jlist({d4(e1), d4(e2), d4(e3), d4(e4), d4(e5), d4(ca)})).f("all", jlist({d4(vec4(m)), d4(vec4())})).f("size", ji((long)ca.size()));
      o.f("cidx", ex([&] { return jd(ca[4]); }));
      if (b.x != 0 && b.y != 0 && b.z != 0 && b.w != 0) o.f("cq", jlist({d4(a / b)})); else o.f("cq", "[]"); }
    return o.str();
  }
  if (op == "dots") {
    vec3 v; for (int k = 0; k < 3; ++k) v[k] = in.d(); auto x = in.ds(), y = in.ds(), z = in.ds(); std::vector<double> r(x.size()); Vectors3 q{x.size(), x.data(), y.data(), z.data()};
    dot_product(v, q, r.data()); return Obs().f("r", jds(r)).str();
  }
  if (op == "sph") {
    double s = 1 / in.d(); vec3 a; for (int k = 0; k < 3; ++k) a[k] = in.d() * s; vec3 r, b, c; vec2 t; std::vector<vec2> tl;
    cartesian_to_spherical(a, r); spherical_to_cartesian(r, b); cartesian_to_spherical(a, t); spherical_to_cartesian(t, c); vec3 a2(a.y, -a.z, a.x + 1); vec2 t2; cartesian_to_spherical(a2, t2); cartesian_to_spherical(std::vector<vec3>{a, a2, -a, a}, tl);
    return Obs().f("rtp", d3(r)).f("back", d3(b)).f("tp", d2(t)).f("dir", d3(c)).f("dsq", d3(c * c)).f("rsq", jd(r.x * r.x)).f("n", std::to_string(tl.size())).f("tl", tl.size() == 4 ? jlist({d2(tl[0]), d2(tl[3]), d2(tl[1])}) : "[]").f("t2", d2(t2)).str();
  }
  if (op == "m2") {
    double a = in.d(), b = in.d(), c = in.d(), d = in.d(), e = in.d(), f = in.d(), g = in.d(), h = in.d(); std::array<double, 2> v{in.d(), 0}; v[1] = in.d();
    Matrix2x2 A(a, b, c, d), B(e, f, g, h); std::array<double, 2> r1{a, b}, r2{c, d}; Matrix2x2 A1(r1, r2), A2{{a, b}, {c, d}}, A3(A); A3[0][1] = A[0][1];
    std::array<double, 2> x{0, 0}; bool s = solve2x2(A, v, x); auto mv = A * v;
    return Obs().f("det", jd(A.det())).f("tr", jm2(A.transpose())).f("mul", jm2(A * B)).f("mv", jds(mv.begin(), mv.end())).f("s", jb(s)).f("x", jds(x.begin(), x.end()))
      .f("ctor", jlist({jm2(A), jm2(A1), jm2(A2), jm2(A3)})).f("inv", ex([&] { return jm2(A.inverse()); })).f("eye", jm2(Matrix2x2::eye())).f("diag", jm2(Matrix2x2::fromDiag(v))).str();
  }
  if (op == "mm") { auto a = mat(in), b = mat(in); return Obs().f("p", ex([&] { return jm(a * b); })).f("t", jm(a.transpose())).f("r", "[" + std::to_string(a.getRows()) + "," + std::to_string(a.getCols()) + "]").str(); }
  if (op == "minv") { auto a = mat(in); auto c = a; auto r = ex([&] { return jm(a.inverse()); }); return Obs().f("i", r).f("a", jm(a)).str(); }
  if (op == "binom") { long n = in.i(), k = in.i(); return Obs().f("b", ji(binomial_coefficient((int)n, (int)k))).str(); }
  if (op == "col") { auto a = mat(in); long c = in.i(); std::vector<std::vector<double>> m; for (size_t i = 0; i < a.rows; ++i) { m.emplace_back(); for (size_t j = 0; j < a.cols; ++j) m[i].push_back(a(i, j)); } std::vector<double> r; return Obs().f("c", ex([&] { vectorColumn(m, (size_t)c, r); return jds(r); })).str(); }
  if (op == "chol" || op == "newton" || op == "grad") {
    switch (in.i()) { case 1: return newton_op<1>(in, op); case 2: return newton_op<2>(in, op); case 3: return newton_op<3>(in, op); case 4: return newton_op<4>(in, op); case 5: return newton_op<5>(in, op); default: throw Bad("size"); }
  }
  if (op == "min") {
    const std::string k = in.w(); auto c = in.ds(); double lo = in.d(), hi = in.d(), xatol = in.d(); long mx = in.i(); std::vector<double> xs, fs; OptimizeResult<double> r{};
    r.fun = r.x = 77; r.status = -7; r.success = false; r.nfev = -1;
    auto e = ex([&] { minimize_scalar_bounded<double>([&](double x) { double v = fval(k, c, x); if (xs.size() < 5000) { xs.push_back(x); fs.push_back(v); } return v; }, {lo, hi}, r, xatol, (int)mx); return std::string("0"); });
    int at = -1; bool fs_ok = false, best = true; for (size_t i = 0; i < xs.size(); ++i) { if (xs[i] == r.x) { at = (int)i; fs_ok = fs_ok || fs[i] == r.fun; } if (fs[i] < r.fun) best = false; }
    bool in_b = true; for (double x : xs) in_b = in_b && x >= lo && x <= hi;
    double l = lo, h = hi; for (double x : xs) { if (x < r.x && x > l) l = x; if (x > r.x && x < h) h = x; }     // nearest evaluated neighbours of the result
    bool nn = std::isnan(r.x) || std::isnan(r.fun) ; nn = nn || (!fs.empty() && std::isnan(fs.back()));
    return Obs().f("ex", e).f("n", ji((long)xs.size())).f("inb", jb(in_b)).f("at", jb(at >= 0)).f("fok", jb(fs_ok)).f("best", jb(best)).f("x", jd(r.x)).f("f", jd(r.fun)).f("xin", jb(r.x >= lo && r.x <= hi))
      .f("succ", jb(r.success)).f("st", ji(r.status)).f("nfev", ji(r.nfev)).f("gl", jd(r.x - l)).f("gh", jd(h - r.x)).f("nan", jb(nn)).str();
  }
  if (op == "quad") {
    auto c = in.ds(); double a = in.d(), b = in.d(), tol = in.d(); long n = 0; bool inb = true; double r = 5, e = 5, r2 = 5, e2 = 5;
    std::function<double(double)> f = [&](double x) { ++n; inb = inb && x >= std::min(a, b) && x <= std::max(a, b); return fval("poly", c, x); };
    integrate(f, a, b, r, e, tol); integrate(f, b, a, r2, e2, tol); double rd = 5, ed = 5; integrate(f, a, b, rd, ed);
    return Obs().f("r", jd(r)).f("e", jd(e)).f("r2", jd(r2)).f("rd", jd(rd)).f("inb", jb(inb)).str();
  }
  if (op == "kink") {            // c0 + c1 |x - m|
    double c0 = in.d(), c1 = in.d(), m = in.d(), a = in.d(), b = in.d(), tol = in.d(); bool inb = true; double r = 5, e = 5, r2 = 5, e2 = 5;
    std::function<double(double)> f = [&](double x) { inb = inb && x >= std::min(a, b) && x <= std::max(a, b); return c0 + c1 * std::fabs(x - m); };
    integrate(f, a, b, r, e, tol); integrate(f, b, a, r2, e2, tol);
    return Obs().f("r", jd(r)).f("e", jd(e)).f("r2", jd(r2)).f("inb", jb(inb)).str();
  }
  if (op == "root") { auto c = in.ds(); double t0 = in.d(), I = in.d(), g = in.d(), tol = in.d(); std::function<double(double)> f = [&](double x) { return fval("poly", c, x); }; return Obs().f("t", jd(find_t1_newton(t0, I, f, g, tol))).str(); };
  if (op == "len") {            // curve, parameters
    auto cv = mkcurve(in); auto ts = in.ds(); double tol = in.d(); std::vector<std::string> r;
    auto iv = cv.interval();
    for (size_t i = 0; i + 1 < ts.size(); ++i) r.push_back(jds(std::vector<double>{cv.length(ts[i], ts[i + 1], tol), cv.length(ts[i + 1], ts[i], tol), cv.length(ts[i])}));
    return Obs().f("r", jlist(r)).f("all", jds(std::vector<double>{cv.length(), cv.length(iv[1]), cv.length(iv[0], iv[1], tol)})).str();
  }
  if (op == "lat") { auto cv = mkcurve(in); double l = in.d(), t0 = in.d(), g = in.d(), tol = in.d(); double t = cv.lengthAt(l, t0, g, tol); return Obs().f("t", jd(t)).f("l", jd(std::isfinite(t) ? cv.length(t0, t, tol) : t)).str(); }
  if (op == "lat0") { auto cv = mkcurve(in); double l = in.d(), tol = in.d(); double t = cv.lengthAt(l, tol); return Obs().f("t", jd(t)).f("l", jd(std::isfinite(t) ? cv.length(cv.interval()[0], t, tol) : t)).str(); }
  if (op == "ser") return serial(in);
  if (op == "list" || op == "file") {
    long n = in.i(); std::vector<NURBSCurve> cs; for (long k = 0; k < n; ++k) cs.push_back(mkcurve(in));
    std::vector<NURBSCurve> back;
    if (op == "list") { auto b = serializeNURBSCurves(cs); std::vector<uint8_t> x(b); x.shrink_to_fit(); back = deserializeNURBSCurves(x); }
    else {
      char name[] = "./serXXXXXX"; int fd = mkstemp(name); if (fd < 0) throw Bad("tmp"); close(fd);
      if (n % 2) { std::vector<NURBSCurve> old(cs); old.push_back(cs[0]); if (!writeNURBSCurvesToFile(name, old)) { unlink(name); return "{\"ok\":0,\"ex\":\"write\"}"; } }   // the file exists already
      if (!writeNURBSCurvesToFile(name, cs)) { unlink(name); return "{\"ok\":0,\"ex\":\"write\"}"; }
      try { back = readNURBSCurvesFromFile(name); } catch (...) { unlink(name); throw; }
      unlink(name);
    }
    bool s = back.size() == cs.size(); for (size_t i = 0; s && i < cs.size(); ++i) s = same(cs[i], back[i]);
    std::vector<std::string> r; for (auto& c : back) r.push_back(jcurve(c));
    return Obs().f("v", jlist(r)).f("same", jb(s)).str();
  }
  if (op == "nofile") { return Obs().f("r", ex([&] { readNURBSCurvesFromFile("./no/such/file"); return std::string("\"read\""); })).f("w", ex([&] { std::vector<NURBSCurve> c; return jb(writeNURBSCurvesToFile("./no/such/file", c)); })).str(); }
  if (op == "chain" || op == "chainj") {         // chainj: every point with an offset of a few 2^-54 that the result does not show
    const bool jt = op == "chainj"; double s = 1 / in.d(); long n = in.i(); std::vector<Segment> g;
    auto c1 = [&] { double x = in.d() * s; return jt ? x + in.d() * std::ldexp(1., -54) : x; }; auto p = [&] { double x = c1(), y = c1(), z = c1(); return vec3(x, y, z); };
    for (long k = 0; k < n; ++k) { vec3 a = p(), b = p(); g.push_back({a, b}); }
    std::vector<std::list<vec3>> br; assemble_polylines(g, br); std::vector<std::string> r;
    for (auto& l : br) { std::vector<std::string> q; for (auto v : l) { if (jt) { v.x = std::round(v.x / s) * s; v.y = std::round(v.y / s) * s; v.z = std::round(v.z / s) * s; } q.push_back("[" + jx(v.x, 1 / s) + "," + jx(v.y, 1 / s) + "," + jx(v.z, 1 / s) + "]"); } r.push_back(jlist(q)); }
    return Obs().f("b", jlist(r)).str();
  }
  throw Bad("unknown op " + op);
}
int main() { return drive([] {}, handle); }
