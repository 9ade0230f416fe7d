#include <cmmcore/nurbs.h>
#include <cmmcore/boundary_intersection.h>
#include "lib.h"
using namespace cmmcore;
static NURBSSurface S[6];
static std::string j4(const vec4& v) { return "[" + jd(v.x) + "," + jd(v.y) + "," + jd(v.z) + "," + jd(v.w) + "]"; }
static std::string j3(const vec3& v) { return "[" + jd(v.x) + "," + jd(v.y) + "," + jd(v.z) + "]"; }
static std::string jcp(const std::vector<vec4>& c) { std::vector<std::string> r; for (auto& p : c) r.push_back(j4(p)); return jlist(r); }
static std::string j3s(const std::vector<vec3>& c) { std::vector<std::string> r; for (auto& p : c) r.push_back(j3(p)); return jlist(r); }
static std::string cdump(const NURBSCurve& c) {
  return "{\"deg\":" + std::to_string(c.get_degree()) + ",\"kn\":" + jds(c.get_knots()) + ",\"cp\":" + jcp(c.get_control_points()) +
         ",\"iv\":[" + jd(c.interval()[0]) + "," + jd(c.interval()[1]) + "],\"per\":" + (c._periodic ? "true" : "false") + "}";
}
static std::string dump(const NURBSSurface& s) {
  std::vector<std::string> rows; for (auto& r : s.control_points()) rows.push_back(jcp(r));
  auto iv = s.interval();
  return "{\"deg\":[" + std::to_string(s._degree[0]) + "," + std::to_string(s._degree[1]) + "],\"size\":[" + std::to_string(s.shape()[0]) + "," + std::to_string(s.shape()[1]) +
         "],\"ku\":" + jds(s.knots_u()) + ",\"kv\":" + jds(s.knots_v()) + ",\"cp\":" + jlist(rows) + ",\"iv\":[[" + jd(iv[0][0]) + "," + jd(iv[0][1]) + "],[" + jd(iv[1][0]) + "," + jd(iv[1][1]) + "]]}";
}
static std::string boxed(const NURBSCurve& c) { const AABB& b = c.aabb(); return "{\"c\":" + cdump(c) + ",\"lo\":" + j3(b.min) + ",\"hi\":" + j3(b.max) + "}"; }
static std::string handle(In& in) {
  std::string op = in.w(); Obs o;
  if (op == "new") {
    int k = in.i() - 1; std::string how = in.w(); int du = in.i(), dv = in.i(); auto ku = in.ds(), kv = in.ds(); int n = in.i(), m = in.i();
    std::vector<std::vector<vec4>> cp(n, std::vector<vec4>(m)); for (auto& r : cp) for (auto& p : r) { double x = in.d(), y = in.d(), z = in.d(), w = in.d(); p.set(x, y, z, w); }
    if (how == "vec3") {
      std::vector<std::vector<vec3>> c3(n, std::vector<vec3>(m)); for (int a = 0; a < n; ++a) for (int b = 0; b < m; ++b) c3[a][b].set(cp[a][b].x, cp[a][b].y, cp[a][b].z);
      S[k] = NURBSSurface(c3, {du, dv}, ku, kv);
    } else S[k] = NURBSSurface(cp, {du, dv}, ku, kv);
    return o.f("d", dump(S[k])).str();
  }
  if (op == "rsder") {
    int d = in.i(); std::vector<std::vector<vec4>> a(d + 1, std::vector<vec4>(d + 1)), r{{vec4(1, 2, 3, 4)}};
    for (auto& x : a) for (auto& p : x) { double q[4]; for (double& y : q) y = in.d(); p.set(q[0], q[1], q[2], q[3]); }
    rat_surface_derivs(a, d, r);
    std::vector<std::string> rows; for (int k = 0; k <= d; ++k) { std::vector<std::string> row; for (int l = 0; k + l <= d; ++l) { const vec4& p = r.at(k).at(l); row.push_back("[" + jd(p.x) + "," + jd(p.y) + "," + jd(p.z) + "]"); } rows.push_back(jlist(row)); }
    return o.f("r", jlist(rows)).str();
  }
  NURBSSurface& s = S[in.i() - 1];
  if (op == "dcpts") {
    int dir = in.i(), line = in.i(), d = in.i(), r1 = in.i(), r2 = in.i(); std::vector<vec4> c; std::vector<std::vector<vec4>> pk{{vec4(1, 2, 3, 4)}};
    if (dir == 0) for (auto& r : s.control_points()) c.push_back(r[line]); else c = s.control_points()[line];
    curve_deriv_cpts(s._degree[dir], dir == 0 ? s.knots_u() : s.knots_v(), c, d, r1, r2, pk);
    std::vector<std::string> rows; for (int k = 0; k <= d; ++k) { std::vector<vec4> x; for (int i = 0; i <= r2 - r1 - k; ++i) x.push_back(pk.at(k).at(i)); rows.push_back(jcp(x)); }
    return o.f("pk", jlist(rows)).str();
  }
  if (op == "sdcpts") {
    int r1 = in.i(), r2 = in.i(), s1 = in.i(), s2 = in.i(), d = in.i(), n = s.shape()[0], m = s.shape()[1];
    std::vector<std::vector<vec4>> c(m, std::vector<vec4>(n)); for (int a = 0; a < n; ++a) for (int b = 0; b < m; ++b) c[b][a] = s.control_points()[a][b];
    std::vector<std::vector<std::vector<std::vector<vec4>>>> P;
    surface_deriv_cpts(4, {s._degree[0], s._degree[1]}, s.knots_u(), s.knots_v(), c, {n, m}, {r1, r2}, {s1, s2}, d, P);
    std::vector<std::string> es; int du = std::min(d, s._degree[0]), dv = std::min(d, s._degree[1]);
    for (int k = 0; k <= du; ++k) for (int l = 0; l <= dv && k + l <= d; ++l) for (int i = 0; i <= r2 - r1 - k; ++i) for (int j = 0; j <= s2 - s1 - l; ++j)
      es.push_back("{\"k\":" + std::to_string(k) + ",\"l\":" + std::to_string(l) + ",\"i\":" + std::to_string(i) + ",\"j\":" + std::to_string(j) + ",\"p\":" + j4(P.at(k).at(l).at(i).at(j)) + "}");
    return o.f("es", jlist(es)).f("d", dump(s)).str();
  }
  if (op == "state") return o.f("d", dump(s)).str();
  if (op == "eval") { double u = in.d(), v = in.d(); vec3 p(4, 4, 4); s.evaluate(u, v, p); return o.f("p", j3(p)).str(); }
  if (op == "corners") { std::vector<vec3> ps; for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { vec3 p; s.evaluate(s.interval()[0][a], s.interval()[1][b], p); ps.push_back(p); } return o.f("ps", j3s(ps)).str(); }
  if (op == "flat") {
    std::vector<vec3> a{vec3(1, 1, 1)}; s.control_points_flat3d(a); auto b = s.control_points_flat3d(); std::vector<vec3> c; for (auto& r : s.control_points3d()) for (auto& p : r) c.push_back(p);
    return o.f("f4", jcp(s.control_points_flat())).f("f3", jlist({j3s(a), j3s(b), j3s(c)})).str();
  }
  if (op == "insert") {
    int dir = in.i(); double t = in.d(); int n = in.i(); bool gen = in.i();
    if (gen) s.insert_knot(t, dir, n); else if (dir == 0) s.insert_knot_u(t, n); else s.insert_knot_v(t, n);
    return o.f("d", dump(s)).str();
  }
  if (op == "split") {
    int dir = in.i(); double t = in.d(); int l = in.i() - 1, r = in.i() - 1; const NURBSSurface& c = s;
    auto pr = dir == 0 ? c.split_surface_u(t) : c.split_surface_v(t); o.f("d", dump(s)); S[l] = pr.first; S[r] = pr.second;
    return o.f("d1", dump(S[l])).f("d2", dump(S[r])).str();
  }
  if (op == "sub") {
    std::string how = in.w(); double u = in.d(), v = in.d(); const NURBSSurface& c = s; std::array<NURBSSurface, 4> q;
    if (how == "mid") q = c.subdivide(); else if (how == "midout") c.subdivide(q[0], q[1], q[2], q[3]);
    else if (how == "at") q = c.subdivide(u, v); else if (how == "atout") c.subdivide(q[0], q[1], q[2], q[3], u, v); else throw Bad("sub");
    o.f("d", dump(s)); for (int a = 0; a < 4; ++a) S[2 + a] = q[a];
    return o.f("ds", jlist({dump(q[0]), dump(q[1]), dump(q[2]), dump(q[3])})).str();
  }
  if (op == "decompose") {
    int dir = in.i(); std::vector<NURBSSurface> r; if (dir == 0) s.decompose(SurfaceParameter::U, r); else if (dir == 1) s.decompose(SurfaceParameter::V, r); else s.decompose(r);
    std::vector<std::string> ds; for (auto& x : r) ds.push_back(dump(x)); return o.f("ds", jlist(ds)).f("d", dump(s)).str();
  }
  if (op == "iso") {
    bool fr = in.i(); int dir = in.i(); double t = in.d(); auto d = dir == 0 ? SurfaceParameter::U : SurfaceParameter::V;
    NURBSCurve c = fr ? extract_isocurve(s, t, d) : s.extract_isocurve(t, d); const AABB& b = c.aabb();
    return o.f("c", cdump(c)).f("lo", j3(b.min)).f("hi", j3(b.max)).str();
  }
  if (op == "bounds") { bool fr = in.i(); std::array<NURBSCurve, 4> cs; if (fr) extract_surface_boundaries(s, cs); else s.extract_surface_boundaries(cs); return o.f("cs", jlist({boxed(cs[0]), boxed(cs[1]), boxed(cs[2]), boxed(cs[3])})).str(); }
  if (op == "gder") { int dir = in.i(), l = in.i() - 1; bool out = in.i(); NURBSSurface r; if (out) { s.get_derivative(dir, r); } else r = s.get_derivative(dir); S[l] = r; return o.f("d", dump(S[l])).str(); }
  if (op == "dnum") { double u = in.d(), v = in.d(); vec3 a, b; s.derivative_u(u, v, a); s.derivative_v(u, v, b); return o.f("pu", j3(a)).f("pv", j3(b)).str(); }
  if (op == "normal") { double u = in.d(), v = in.d(); vec3 n(1, 2, 3); s.normal(u, v, n); return o.f("n", j3(n)).str(); }
  if (op == "bbox") { AABB& b = s.bbox(); return o.f("lo", j3(b.min)).f("hi", j3(b.max)).str(); }
  if (op == "aabb") { const AABB& b = s.aabb(); return o.f("lo", j3(b.min)).f("hi", j3(b.max)).str(); }
  if (op == "copy") { int l = in.i() - 1; if (in.i()) S[l] = s; else { NURBSSurface* p = new NURBSSurface(s); S[l] = *p; delete p; } return o.f("d", dump(s)).f("d1", dump(S[l])).str(); }
  throw Bad("unknown command " + op);
}
int main() { return drive([] { for (auto& s : S) s = NURBSSurface(); }, handle); }
