// Monomial form, Bezier conversion, Gauss maps (N05 N06)
#include "cmmcore/vec.h"
#include "cmmcore/nurbs.h"
#include "cmmcore/monomial.h"
#include "cmmcore/gauss_map.h"
#include "lib.h"
using namespace cmmcore;
using Net = Tensor2D<vec3>;
static Monomial2D M[5]; static NURBSSurface S[5]; static GaussMap G[11];
template <class V, class F> static std::string lst(const V& v, F f) { std::vector<std::string> r; for (auto& x : v) r.push_back(f(x)); return jlist(r); }
static std::string j3(const vec3& v) { return "[" + jd(v.x) + "," + jd(v.y) + "," + jd(v.z) + "]"; }
static std::string jnet(const Net& n) { return lst(n, [](const std::vector<vec3>& r) { return lst(r, j3); }); }
static std::string mdump(const Monomial2D& m) { return "{\"n\":" + std::to_string(m.n) + ",\"m\":" + std::to_string(m.m) + ",\"co\":" + jnet(m.coefficients) + "}"; }
static std::string sdump(const NURBSSurface& s) {
  auto iv = s.interval(); const AABB& b = s.aabb();
  return "{\"deg\":[" + std::to_string(s._degree[0]) + "," + std::to_string(s._degree[1]) + "],\"size\":[" + std::to_string(s.shape()[0]) + "," + std::to_string(s.shape()[1]) +
         "],\"ku\":" + jds(s.knots_u()) + ",\"kv\":" + jds(s.knots_v()) + ",\"cp\":" + lst(s.control_points(), [](const std::vector<vec4>& r) { return lst(r, [](const vec4& p) { return jds(std::vector<double>{p.x, p.y, p.z, p.w}); }); }) +
         ",\"iv\":[[" + jd(iv[0][0]) + "," + jd(iv[0][1]) + "],[" + jd(iv[1][0]) + "," + jd(iv[1][1]) + "]],\"lo\":" + j3(b.min) + ",\"hi\":" + j3(b.max) + "}";
}
static Net net(In& in) { long n = in.i(), m = in.i(); Net r(n, std::vector<vec3>(m)); for (auto& x : r) for (auto& p : x) { double a = in.d(), b = in.d(), c = in.d(); p.set(a, b, c); } return r; }
static std::string mat(MatrixD& m) { std::vector<std::string> r; for (int a = 0; a < (int)m.rows; ++a) { std::vector<double> x; for (int b = 0; b < (int)m.cols; ++b) x.push_back(m(a, b)); r.push_back(jds(x)); } return jlist(r); }
static std::string handle(In& in) {
  std::string op = in.w(); Obs o;
  if (op == "new") {
    long k = in.i(); double a = in.d(), b = in.d(), c = in.d(), d = in.d(); Net n = net(in); size_t p = n.size(), q = n[0].size();
    std::vector<double> ku(2 * p, a), kv(2 * q, c); for (size_t j = p; j < 2 * p; ++j) ku[j] = b; for (size_t j = q; j < 2 * q; ++j) kv[j] = d;
    S[k] = NURBSSurface(n, std::array<int, 2>{(int)p - 1, (int)q - 1}, ku, kv); return o.str();
  }
  if (op == "mono") { NURBSSurface& s = S[in.i()]; long k = in.i(); if (in.i()) M[k] = Monomial2D(s); else { Monomial2D x(s); M[k] = x; } return o.f("d", mdump(M[k])).f("s", sdump(s)).str(); }
  if (op == "mco") {
    std::string how = in.w(); long k = in.i(); Net n = net(in);
    if (how == "co") M[k] = Monomial2D(n); else if (how == "dim") M[k] = Monomial2D((int)n.size(), (int)n[0].size(), n);
    else if (how == "zero") M[k] = Monomial2D((int)n.size(), (int)n[0].size()); else { Net c = n; M[k].set(c); }
    return o.f("d", mdump(M[k])).str();
  }
  if (op == "mcp") {
    std::string how = in.w(); long a = in.i(), k = in.i();
    if (how == "assign") M[k] = M[a]; else if (how == "self") { Monomial2D& r = M[k]; M[k] = r; } else { Monomial2D x(M[a]); M[k] = x; }
    return o.f("d", mdump(M[k])).f("f", mdump(M[a])).str();
  }
  if (op == "mpd") { long a = in.i(), k = in.i(); auto d = in.i() ? SurfaceParameter::V : SurfaceParameter::U; M[a].computePartialDerivative(d, M[k]); return o.f("d", mdump(M[k])).f("f", mdump(M[a])).str(); }
  if (op == "mnrm") { long a = in.i(), k = in.i(); M[a].computeNormal(M[k]); return o.f("d", mdump(M[k])).f("f", mdump(M[a])).str(); }
  if (op == "mtob") { long a = in.i(), k = in.i(); M[a].to_bezier(S[k]); return o.f("d", sdump(S[k])).f("f", mdump(M[a])).str(); }
  if (op == "ev") { long k = in.i(); double u = in.d(), v = in.d(); vec3 p; S[k].evaluate(u, v, p); return o.f("p", j3(p)).str(); }
  if (op == "gmap") { long a = in.i(), k = in.i(); S[k] = gaussMap(S[a]); return o.f("d", sdump(S[k])).str(); }
  if (op == "gb") { long a = in.i(), k = in.i(); if (in.i()) G[k] = GaussMap(S[a]); else G[k].build(S[a]); return o.f("d", sdump(G[k].surf)).f("pts", lst(G[k].pts, j3)).f("inv", lst(G[k].pts_inv, j3)).f("s", sdump(S[a])).str(); }
  if (op == "gs") {
    long a = in.i(), b = in.i(); G[a].subdivide(G[b], G[b + 1], G[b + 2], G[b + 3]); std::vector<std::string> d, p, q;
    for (long k = b; k < b + 4; ++k) { d.push_back(sdump(G[k].surf)); p.push_back(lst(G[k].pts, j3)); q.push_back(lst(G[k].pts_inv, j3)); }
    return o.f("ds", jlist(d)).f("pts", jlist(p)).f("inv", jlist(q)).f("d", sdump(G[a].surf)).str();
  }
  if (op == "gev") { long k = in.i(); double u = in.d(), v = in.d(); vec3 p; G[k].surf.evaluate(u, v, p); return o.f("p", j3(p)).str(); }
  if (op == "inv") { Net n = net(in); std::vector<vec3> r(in.i(), vec3(7, 7, 7)); inverseControlPoints(n[0], r); return o.f("r", lst(r, j3)).str(); }
  if (op == "bp") { int n = (int)in.i(); auto b = bpmat(n); auto i = b.inverse(); return o.f("b", mat(b)).f("iv", mat(i)).str(); }
  if (op == "tens") {
    Net p = net(in), q = net(in), r = net(in), u = r, v = r, c = r;
    compute_partial_derivative(p, SurfaceParameter::U, u); compute_partial_derivative(p, SurfaceParameter::V, v); cross(p, q, c);
    return o.f("u", jnet(u)).f("v", jnet(v)).f("c", jnet(c)).str();
  }
  throw Bad("unknown command " + op);
}
int main() { return drive([] { for (auto& x : M) x = Monomial2D(); for (auto& x : S) x = NURBSSurface(); for (auto& x : G) x = GaussMap(); }, handle); }
