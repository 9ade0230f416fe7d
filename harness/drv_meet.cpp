// Point inversion and intersections (G03)
#include "cmmcore/vec.h"
#include "cmmcore/nurbs.h"
#include "cmmcore/point_inversion.h"
#include "lib.h"
using namespace cmmcore;
static NURBSCurve C[3]; static NURBSSurface S[3];
static std::string j3(const vec3& v) { return "[" + jd(v.x) + "," + jd(v.y) + "," + jd(v.z) + "]"; }
static std::vector<vec4> pts(In& in, int n) { std::vector<vec4> r(n); for (auto& p : r) { double x = in.d(), y = in.d(), z = in.d(), w = in.d(); p.set(x, y, z, w); } return r; }
static std::string jb(bool b) { return b ? "true" : "false"; }
static vec3 v3(In& in) { double x = in.d(), y = in.d(), z = in.d(); return vec3(x, y, z); }
static std::string handle(In& in) {
  std::string op = in.w(); Obs o; long k = in.i();
  if (op == "cnew") { int d = in.i(); auto kn = in.ds(); int n = in.i(); C[k] = NURBSCurve(pts(in, n), d, kn, false); return o.str(); }
  if (op == "snew") {
    int du = in.i(), dv = in.i(); auto ku = in.ds(), kv = in.ds(); int n = in.i(), m = in.i();
    std::vector<std::vector<vec4>> cp; for (int a = 0; a < n; ++a) cp.push_back(pts(in, m));
    S[k] = NURBSSurface(cp, {du, dv}, ku, kv); return o.str();
  }
  if (op == "ci") {
    vec3 P = v3(in); double u0 = in.d(), tol1 = in.d(), tol2 = in.d(); int it = in.i();
    double u = point_inversion_curve(C[k], P, u0, tol1, tol2, it);
    auto iv = C[k].interval(); vec3 p; C[k].evaluate(u, p);
    return o.f("u", jd(u)).f("p", j3(p)).f("in", jb(u >= iv[0] && u <= iv[1])).str();
  }
  if (op == "si") {
    vec3 P = v3(in); double u0 = in.d(), v0 = in.d(), tol1 = in.d(), tol2 = in.d(); int it = in.i();
    auto r = point_inversion_surface(S[k], P, u0, v0, tol1, tol2, it);
    auto iv = S[k].interval(); vec3 p; S[k].evaluate(r[0], r[1], p);
    return o.f("u", jd(r[0])).f("v", jd(r[1])).f("p", j3(p)).f("in", jb(r[0] >= iv[0][0] && r[0] <= iv[0][1] && r[1] >= iv[1][0] && r[1] <= iv[1][1])).str();
  }
  throw Bad("unknown command " + op);
}
int main() { return drive([] { for (auto& c : C) c = NURBSCurve(); for (auto& s : S) s = NURBSSurface(); }, handle); }
