// Intersections (I01 I02 I03)
#include "cmmcore/vec.h"
#include "cmmcore/nurbs.h"
#include "cmmcore/ccx.h"
#include "cmmcore/csx.h"
#include "cmmcore/boundary_intersection.h"
#include "cmmcore/ssx.h"
#include "lib.h"
using namespace cmmcore;
static NURBSCurve C[5]; static NURBSSurface S[3];
static std::string j3(const vec3& v) { return "[" + jd(v.x) + "," + jd(v.y) + "," + jd(v.z) + "]"; }
static std::vector<vec4> pts(In& in, int n) { std::vector<vec4> r(n); for (auto& p : r) { double x = in.d(), y = in.d(), z = in.d(), w = in.d(); p.set(x, y, z, w); } return r; }
static std::string jb(bool b) { return b ? "true" : "false"; }
static std::string j2(const std::array<double, 2>& v) { return "[" + jd(v[0]) + "," + jd(v[1]) + "]"; }
// an intersection point of S[a] and S[b] with the points of both surfaces at its parameters
static std::string jx(const IntersectionPoint& p, const NURBSSurface& a, const NURBSSurface& b, bool& ok) {
  auto in = [](const std::array<double, 2>& x, const NURBSSurface& s) { auto d = s.interval(); return x[0] >= d[0][0] && x[0] <= d[0][1] && x[1] >= d[1][0] && x[1] <= d[1][1]; };
  auto [s1, s2] = p.get_start_params(); ok = ok && in(s1, a) && in(s2, b) && in(p.surface1_params, a) && in(p.surface2_params, b);
  vec3 x, y; a.evaluate(s1[0], s1[1], x); b.evaluate(s2[0], s2[1], y);
  return "{\"at\":" + j3(p.point) + ",\"p\":" + j3(x) + ",\"q\":" + j3(y) + ",\"t\":" + jd(p.curve_param) + ",\"sp\":" + j2(p.surface_params) + ",\"u1\":" + j2(p.surface1_params) + ",\"u2\":" + j2(p.surface2_params)
    + ",\"s1\":" + j2(s1) + ",\"s2\":" + j2(s2) + ",\"i\":" + std::to_string(p.boundary_index) + ",\"f\":" + jb(p.is_from_first_surface) + "}";
}
static std::string handle(In& in) {
  std::string op = in.w(); Obs o;
  if (op == "cnew") { long k = in.i(); int d = in.i(); auto kn = in.ds(); int n = in.i(); C[k] = NURBSCurve(pts(in, n), d, kn, false); return o.str(); }
  if (op == "snew") {
    long k = in.i(); int du = in.i(), dv = in.i(); auto ku = in.ds(), kv = in.ds(); int n = in.i(), m = in.i();
    std::vector<std::vector<vec4>> cp; for (int a = 0; a < n; ++a) cp.push_back(pts(in, m));
    S[k] = NURBSSurface(cp, {du, dv}, ku, kv); return o.str();
  }
  if (op == "ccx") {
    long a = in.i(), b = in.i(); double tol = in.d(); std::vector<std::pair<double, double>> r; ccx(C[a], C[b], tol, r);
    auto i1 = C[a].interval(), i2 = C[b].interval(); bool ok = true; std::vector<std::string> out;
    for (auto& [s, t] : r) {
      ok = ok && s >= i1[0] && s <= i1[1] && t >= i2[0] && t <= i2[1]; vec3 p, q; C[a].evaluate(s, p); C[b].evaluate(t, q);
      out.push_back("{\"s\":" + jd(s) + ",\"t\":" + jd(t) + ",\"p\":" + j3(p) + ",\"q\":" + j3(q) + "}");
    }
    return o.f("r", jlist(out)).f("in", jb(ok)).str();
  }
  if (op == "csx") {
    long a = in.i(), b = in.i(); int form = in.i(); double tol = in.d(); CSXIntersections r;
    if (form == 0) csx(C[a], S[b], r, tol); else if (form == 1) r = csx(C[a], S[b], tol); else r = csx(C[a], S[b]);
    auto i1 = C[a].interval(); auto i2 = S[b].interval(); bool ok = true; std::vector<std::string> out;
    for (auto& [type, pt, x] : r) {
      ok = ok && x[0] >= i1[0] && x[0] <= i1[1] && x[1] >= i2[0][0] && x[1] <= i2[0][1] && x[2] >= i2[1][0] && x[2] <= i2[1][1];
      vec3 p, q; C[a].evaluate(x[0], p); S[b].evaluate(x[1], x[2], q);
      out.push_back("{\"x\":[" + jd(x[0]) + "," + jd(x[1]) + "," + jd(x[2]) + "],\"deg\":" + jb(type == CSXType::DEGENERATE) + ",\"at\":" + j3(pt) + ",\"p\":" + j3(p) + ",\"q\":" + j3(q) + "}");
    }
    return o.f("r", jlist(out)).f("in", jb(ok)).str();
  }
  if (op == "bnd") {
    long a = in.i(), b = in.i(); int form = in.i(); double tol = in.d(); std::vector<IntersectionPoint> r;
    if (form == 0) find_boundary_intersections(S[a], S[b], r, tol); else find_boundary_intersections(S[a], S[b], r);
    bool ok = true; std::vector<std::string> out; for (auto& p : r) out.push_back(jx(p, S[a], S[b], ok));
    return o.f("r", jlist(out)).f("in", jb(ok)).str();
  }
  if (op == "bsort") {
    int n = in.i(); std::vector<IntersectionPoint> v; for (int k = 0; k < n; ++k) { double x = in.d(), y = in.d(), z = in.d(); v.emplace_back(vec3(x, y, z), double(k), std::array<double, 2>{0, 0}, 0, true, std::array<std::array<double, 2>, 2>{}); }
    std::vector<std::vector<IntersectionPoint>> r; sort_boundary_intersections(v, r); std::vector<std::string> out;
    for (auto& s : r) { std::vector<std::string> w; for (auto& p : s) w.push_back("{\"k\":" + std::to_string(int(p.curve_param) + 1) + ",\"at\":" + j3(p.point) + "}"); out.push_back(jlist(w)); }
    return o.f("r", jlist(out)).str();
  }
  if (op == "ssx") {
    long a = in.i(), b = in.i(); double tol = in.d(); Intersection r; findStartIntersectionPoints(S[a], S[b], tol, r);
    bool ok = true; std::vector<std::string> pa, pt;
    for (auto& x : r.patches) pa.push_back("[" + jx(x.start, S[a], S[b], ok) + "," + jx(x.end, S[a], S[b], ok) + "]");
    for (auto& x : r.points) { vec3 p, q; S[a].evaluate(x.uv1.x, x.uv1.y, p); S[b].evaluate(x.uv2.x, x.uv2.y, q); pt.push_back("{\"at\":" + j3(x.xyz) + ",\"p\":" + j3(p) + ",\"q\":" + j3(q) + "}"); }
    return o.f("patches", jlist(pa)).f("points", jlist(pt)).f("in", jb(ok)).str();
  }
  throw Bad("unknown command " + op);
}
int main() { return drive([] { for (auto& c : C) c = NURBSCurve(); for (auto& s : S) s = NURBSSurface(); }, handle); }
