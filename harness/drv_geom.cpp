// Hulls, polygons, planes, closest points, separation tests (H01 H02 P01 G01 G02 X01 X02 X03).
#include "cmmcore/vec.h"
#include "cmmcore/plane.h"
#include "cmmcore/polygon.h"
#include "cmmcore/convexhull.h"
#include "cmmcore/closest_point.h"
#include "cmmcore/gjk.h"
#include "cmmcore/separability.h"
#include "cmmcore/numeric_utils.h"
#include "cmmcore/nurbs.h"
#include "cmmcore/gauss_map.h"
#include "lib.h"
using namespace cmmcore;
static double S = 1;
static vec3 p3(In& in) { double x = in.d() / S, y = in.d() / S, z = in.d() / S; return vec3(x, y, z); }
static vec2 p2(In& in) { double x = in.d() / S, y = in.d() / S; return vec2(x, y); }
static std::vector<vec3> l3(In& in) { long n = in.i(); std::vector<vec3> r; for (long k = 0; k < n; ++k) r.push_back(p3(in)); return r; }
static std::vector<vec2> l2(In& in) { long n = in.i(); std::vector<vec2> r; for (long k = 0; k < n; ++k) r.push_back(p2(in)); return r; }
static std::string o3(const vec3& v) { return "[" + jx(v.x, S) + "," + jx(v.y, S) + "," + jx(v.z, S) + "]"; }
static std::string o2(const vec2& v) { return "[" + jx(v.x, S) + "," + jx(v.y, S) + "]"; }
static std::string d3(const vec3& v) { return "[" + jd(v.x) + "," + jd(v.y) + "," + jd(v.z) + "]"; }
template <class V, class F> static std::string lst(const V& v, F f) { std::vector<std::string> r; for (auto& x : v) r.push_back(f(x)); return jlist(r); }
static std::string jb(bool b) { return b ? "1" : "0"; }
static std::string micro(const vec3& v) { auto m = [](double x) { x *= 1e5; return std::fabs(x) < 1e9 ? std::to_string(std::lround(x)) : std::string("1999999999"); }; return "[" + m(v.x) + "," + m(v.y) + "," + m(v.z) + "]"; }
static std::string cls(ConvexHullResult r) {
  switch (r) { case ConvexHullResult::VOLUME: return "\"volume\""; case ConvexHullResult::FLAT: return "\"flat\""; case ConvexHullResult::LINE: return "\"line\""; case ConvexHullResult::POINT: return "\"point\""; default: return "\"empty\""; }
}
static plane mk(In& in) {       // eq a b c d | pn origin normal | n normal | pts p q r
  const std::string w = in.w();
  if (w == "eq") { double a = in.d(), b = in.d(), c = in.d(), d = in.d() / S; return plane(a, b, c, d); }
  if (w == "pn") { vec3 o = p3(in), n = p3(in); return plane(o, n); }
  if (w == "n") { vec3 n = p3(in); return plane(n); }
  if (w == "z") return plane();
  vec3 a = p3(in), b = p3(in), c = p3(in);
  return plane(std::make_tuple(a, b, c));
}
static NURBSSurface net(In& in) {
  long m = in.i(), n = in.i(); std::vector<std::vector<vec3>> c(m, std::vector<vec3>(n));
  for (auto& r : c) for (auto& p : r) p = p3(in);
  return NURBSSurface(c, std::array<int, 2>{(int)m - 1, (int)n - 1});
}
static std::string handle(In& in) {
  const std::string op = in.w();
  if (op == "den") { S = in.d(); return Obs().str(); }
  if (op == "h2") {
    auto p = l2(in), a = p; auto h = convex_hull2d(a); std::vector<vec2> h2; auto c = convex_hull(p, h2);
    return Obs().f("h", lst(h, o2)).f("g", lst(h2, o2)).f("c", cls(c)).str();
  }
  if (op == "h3") {
    auto p = l3(in); std::vector<vec3> h; auto c = convex_hull(p, h);
    return Obs().f("h", lst(h, o3)).f("c", cls(c)).str();
  }
  if (op == "pip") { auto g = l2(in); auto ps = l2(in); return Obs().f("r", lst(ps, [&](const vec2& p) { return jb(pointInPolygon2D(g, p)); })).str(); }
  if (op == "rel") {
    auto a = l2(in), b = l2(in);
    auto nm = [](PolygonRelationship2D r) { return r == PolygonRelationship2D::INTERSECT ? std::string("\"intersect\"") : r == PolygonRelationship2D::TOUCH ? "\"touch\"" : "\"distance\""; };
    return Obs().f("r", nm(polygonRelationship2D(a, b))).f("s", nm(polygonRelationship2D(b, a))).str();
  }
  if (op == "pn") {
    auto g = l2(in); std::vector<vec2> n, u; polygonNormals(g, n); polygonNormals(g, u, true);
    return Obs().f("n", lst(n, o2)).f("u", lst(u, [](const vec2& v) { return "[" + jd(v.x) + "," + jd(v.y) + "," + jd(v.x * v.x) + "," + jd(v.y * v.y) + "]"; })).str();
  }
  if (op == "sat2") { auto a = l2(in), b = l2(in); return Obs().f("r", jb(SAT2D(a, b))).f("s", jb(SAT2D(b, a))).str(); }
  if (op == "aabb") { auto a = l3(in), b = l3(in); return Obs().f("r", jb(AABBTest(a, b))).f("s", jb(AABBTest(b, a))).str(); }
  if (op == "gjk") {
    auto a = l3(in), b = l3(in); std::vector<vec3> s, t; vec3 c(0, 0, 0), d(0, 0, 0);
    bool r = GJK(a, b, s, c), q = GJK(b, a, t, d);
    return Obs().f("r", jb(r)).f("s", jb(q)).str();
  }
  if (op == "sat3") { auto a = l3(in), b = l3(in); return Obs().f("r", jb(SAT3D(a, b))).f("s", jb(SAT3D(b, a))).str(); }
  if (op == "sph") { auto a = l3(in), b = l3(in); return Obs().f("r", jb(SphericalSeparabilityTest(a, b))).f("s", jb(SphericalSeparabilityTest(b, a))).str(); }
  if (op == "gms") {
    auto a = net(in), b = net(in); GaussMap g, h;
    for (auto& x : a.control_points_flat3d()) g.pts.push_back(x); g.solveInvPts();
    for (auto& x : b.control_points_flat3d()) h.pts.push_back(x); h.solveInvPts();
    return Obs().f("r", jb(gaussMapSeparability(a, b))).f("s", jb(gaussMapSeparability(b, a))).f("g", jb(g.separabilityTest(h))).f("h", jb(h.separabilityTest(g))).str();
  }
  if (op == "dist") {
    plane p = mk(in); auto q = l3(in); std::vector<double> ds; p.signedDistance(q, ds); std::vector<std::string> v;
    for (size_t k = 0; k < q.size(); ++k) { double d = p.signedDistance(q[k]); v.push_back("[" + jd(d) + "," + jd(d * d) + "," + jd(ds[k]) + "," + jd(planeSignedDistance(q[k], p.equation)) + "]"); }
    return Obs().f("d", jlist(v)).f("n", d3(p.normal)).f("nn", d3(p.normal * p.normal)).f("od", jd(p.signedDistance(p.origin))).str();
  }
  if (op == "ray" || op == "seg") {
    plane p = mk(in); vec3 a = p3(in), b = p3(in), r(0, 0, 0);
    bool h = op == "ray" ? p.planeRayIntersection(a, b, r) : p.planeLineIntersection(a, b, r);
    return Obs().f("r", jb(h)).f("p", d3(r)).str();
  }
  if (op == "pp") { plane p = mk(in), q = mk(in); vec3 a(0, 0, 0), b(0, 0, 0); bool h = p.planePlaneIntersection(q, a, b); double l = (b - a).length(); return Obs().f("r", jb(h)).f("a", micro(a)).f("b", micro(b)).f("l", jd(l)).str(); }
  if (op == "ppp") { plane p = mk(in), q = mk(in), r = mk(in); vec3 a(0, 0, 0); bool h = p.planePlanePlaneIntersection(q, r, a); return Obs().f("r", jb(h)).f("p", d3(a)).str(); }
  if (op == "copl") { auto p = l3(in); return Obs().f("r", jb(isPtsCoplanar(p))).str(); }
  if (op == "frame") {           // origin, x axis, y axis, points (u,v): evaluate and back
    vec3 o = p3(in), x = p3(in) * S, y = p3(in) * S; cplane c(o, x, y); auto uv = l2(in); auto ps = l3(in);
    std::vector<std::string> e, v; std::vector<vec3> inv; c.evaluateInv(ps, inv);
    for (auto& w : uv) { vec3 r; c.evaluate(w.x, w.y, r); e.push_back(d3(r)); }
    for (size_t k = 0; k < ps.size(); ++k) { vec3 r; c.evaluateInv(ps[k], r); v.push_back("[" + d3(r) + "," + d3(inv[k]) + "," + jd(c.signedDistance(ps[k])) + "]"); }
    return Obs().f("e", jlist(e)).f("v", jlist(v)).str();
  }
  if (op == "cpl") {             // plane through three points: coordinates of points of the plane and back
    vec3 a = p3(in), b = p3(in), c = p3(in); cplane f(std::make_tuple(a, b, c)); auto ps = l3(in); std::vector<std::string> v;
    for (auto& q : ps) { vec3 w, r; f.evaluateInv(q, w); f.evaluate(w.x, w.y, r); v.push_back("[" + d3(r) + "," + jd(w.z) + "," + jd(f.signedDistance(q)) + "]"); }
    return Obs().f("v", jlist(v)).f("xx", jd(f.xaxis.dot(f.xaxis))).f("xy", jd(f.xaxis.dot(f.yaxis))).f("yy", jd(f.yaxis.dot(f.yaxis))).str();
  }
  if (op == "segd") {            // distance of two segments, both overloads; results held something else before
    vec3 a = p3(in), b = p3(in), c = p3(in), d = p3(in), x(7, 7, 7), y(7, 7, 7); double t = 7, u = 7;
    double r = segmentsDistance(a, b, c, d, t, u, x, y), q = segmentsDistance(a, b, c, d);
    auto m = [](double v, double f) { v *= f; return std::fabs(v) < 1e9 ? std::to_string(std::lround(v)) : std::string("1999999999"); };
    auto m3 = [&](const vec3& v, double f) { return "[" + m(v.x * S, f) + "," + m(v.y * S, f) + "," + m(v.z * S, f) + "]"; };
    return Obs().f("d", jd(r)).f("rr", jd(r * r)).f("qq", jd(q * q)).f("tu", "[" + jd(t) + "," + jd(u) + "]").f("c", "[" + d3(x) + "," + d3(y) + "]")
      .f("tm", "[" + m(t, 1e5) + "," + m(u, 1e5) + "]").f("cm", "[" + m3(x, 1e5) + "," + m3(y, 1e5) + "]").f("rm", m(r * S, 1e3)).str();
  }
  if (op == "cproj") { vec3 o = p3(in), q = p3(in); vec2 r(7, 7); centerProjectionToXY(o, q, r); return Obs().f("p", "[" + jd(r.x) + "," + jd(r.y) + "]").str(); }
  if (op == "near") {            // closest points: query, then vertices
    vec3 q = p3(in); auto v = l3(in); std::vector<std::string> r; std::vector<vec3> w; for (auto& x : v) w.push_back(x - q);
    if (v.size() == 2) {
      vec3 t; closestPointOnSegm(q, v[0], v[1], t); r.push_back(d3(t)); r.push_back(d3(closestPointOnSegm(q, v[0], v[1])));
      r.push_back(d3(closestPointOnSegm((const vec3&)w[0], (const vec3&)w[1]) + q));
    } else if (v.size() == 3) {
      vec3 t; closestPointOnTriangle(q, v[0], v[1], v[2], t); r.push_back(d3(t)); r.push_back(d3(closestPointOnTriangle(q, v[0], v[1], v[2])));
      r.push_back(d3(closestPointOnTriangle(w[0], w[1], w[2]) + q));
    }
    r.push_back(d3(closestPointOnSimplex(w) + q)); r.push_back(d3(closestPoint(w) + q));
    return Obs().f("p", jlist(r)).str();
  }
  if (op == "line") {
    vec3 q = p3(in), a = p3(in), b = p3(in), t, u; closestPointOnLine(q, a, b, t); closestPointOnRay(q, a, b - a, u);
    return Obs().f("p", jlist({d3(t), d3(closestPointOnLine(q, a, b)), d3(u), d3(closestPointOnRay(q, a, b - a))})).str();
  }
  throw Bad("unknown op " + op);
}
int main() { return drive([] { S = 1; }, handle); }
