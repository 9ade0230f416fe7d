#include <cmmcore/nurbs.h>
#include "lib.h"
using namespace cmmcore;
static NURBSCurve S[5];
static std::vector<vec4> cps4(In& in) { long n = in.i(); std::vector<vec4> r; for (long k = 0; k < n; ++k) { double x = in.d(), y = in.d(), z = in.d(), w = in.d(); r.emplace_back(x, y, z, w); } return r; }
static std::string j4(const vec4& v) { return "[" + jd(v.x) + "," + jd(v.y) + "," + jd(v.z) + "," + jd(v.w) + "]"; }
static std::string j3(const vec3& v) { return "[" + jd(v.x) + "," + jd(v.y) + "," + jd(v.z) + "]"; }
static std::string jcp(const std::vector<vec4>& c) { std::vector<std::string> r; for (auto& p : c) r.push_back(j4(p)); return jlist(r); }
static std::string j3s(const std::vector<vec3>& c) { std::vector<std::string> r; for (auto& p : c) r.push_back(j3(p)); return jlist(r); }
static std::string jiv(const NURBSCurve& c) { return "[" + jd(c.interval()[0]) + "," + jd(c.interval()[1]) + "]"; }
static std::string dump(const NURBSCurve& c) {
  return "{\"deg\":" + std::to_string(c.get_degree()) + ",\"kn\":" + jds(c.get_knots()) + ",\"cp\":" + jcp(c.get_control_points()) +
         ",\"iv\":" + jiv(c) + ",\"per\":" + (c._periodic ? "true" : "false") + "}";
}
static std::string handle(In& in) {
  std::string op = in.w(); Obs o;
  if (op == "new") {
    int k = in.i() - 1; std::string how = in.w(); int deg = in.i(); auto kn = in.ds(); auto cp = cps4(in);
    if (how == "full") S[k] = NURBSCurve(cp, deg, kn, false);
    else if (how == "def") S[k] = NURBSCurve(cp, deg);
    else if (how == "auto") S[k] = NURBSCurve(cp);
    else if (how == "per") S[k] = NURBSCurve(cp, deg, true);
    else if (how == "vec3" || how == "pervec3") { std::vector<vec3> c; for (auto& p : cp) c.emplace_back(p.x, p.y, p.z); S[k] = how == "vec3" ? NURBSCurve(c, deg) : NURBSCurve(c, deg, true); }
    else throw Bad("how");
    return o.f("d", dump(S[k])).str();
  }
  if (op == "state") return o.f("d", dump(S[in.i() - 1])).str();
  if (op == "eval") {
    NURBSCurve& c = S[in.i() - 1]; double t = in.d(); vec3 a(7, 7, 7), b(9, 9, 9); c.evaluate(t, a); vec3 d = c(t); c(t, b);
    return o.f("p", j3s({a, d, b})).str();
  }
  if (op == "insert") { NURBSCurve& c = S[in.i() - 1]; double t = in.d(); int n = in.i(); c.insert_knot(t, n); return o.f("d", dump(c)).str(); }
  if (op == "split") {
    int k = in.i() - 1; double t = in.d(); bool nrm = in.i(); int l = in.i() - 1, r = in.i() - 1;
    const NURBSCurve& c = S[k]; NURBSCurve orig = c;
    auto pr = nrm ? c.split(t, true) : c.split(t);
    o.f("d", dump(c)); S[l] = pr.first; S[r] = pr.second;
    return o.f("d1", dump(S[l])).f("d2", dump(S[r])).str();
  }
  if (op == "decompose") {
    NURBSCurve& c = S[in.i() - 1]; std::vector<NURBSCurve> b; c.decompose(b); std::vector<std::string> r; for (auto& x : b) r.push_back(dump(x));
    return o.f("ds", jlist(r)).f("d", dump(c)).str();
  }
  if (op == "deriv") { NURBSCurve& c = S[in.i() - 1]; double t = in.d(); vec3 p(5, 5, 5); c.derivative(t, p); return o.f("p", j3(p)).str(); }
  if (op == "derivl") {
    NURBSCurve& c = S[in.i() - 1]; double t = in.d(); int n = in.i(); bool pre = in.i(); std::vector<vec3> r;
    if (pre) { r.assign(n, vec3(3, 3, 3)); c.derivative(t, r); } else c.derivative(t, r, n);
    return o.f("ps", j3s(r)).str();
  }
  if (op == "fdm") {
    NURBSCurve& c = S[in.i() - 1]; double t = in.d(); vec3 d0, d1, d2, f1, f2; c.derivatives(t, d0, d1, d2); c.derivative_fdm(t, f1); c.second_derivative_fdm(t, f2);
    return o.f("d0", j3(d0)).f("d1", j3(d1)).f("d2", j3(d2)).f("f1", j3(f1)).f("f2", j3(f2)).str();
  }
  if (op == "dcurve") {
    NURBSCurve& c = S[in.i() - 1]; double t = in.d(); bool how = in.i(); NURBSCurve d; if (how) c.get_derivative(d); else d = c.get_derivative();
    vec3 p; d.evaluate(t, p);
    return o.f("deg", std::to_string(d.get_degree())).f("kn", jds(d.get_knots())).f("ncp", std::to_string(d.get_control_points().size())).f("iv", jiv(d)).f("p", j3(p)).str();
  }
  if (op == "copy") {
    int k = in.i() - 1, l = in.i() - 1; std::string how = in.w();
    if (how == "assign") S[l] = S[k];
    else if (how == "ctor") { NURBSCurve* p = new NURBSCurve(S[k]); S[l] = *p; delete p; }
    else if (how == "move") { NURBSCurve* p = new NURBSCurve(std::move(S[k])); S[l] = *p; delete p; }
    else throw Bad("copy");
    return o.f("d", dump(S[k])).f("d1", dump(S[l])).str();
  }
  if (op == "setcp") { NURBSCurve& c = S[in.i() - 1]; auto cp = cps4(in); c.set_control_points(cp); return o.f("d", dump(c)).str(); }
  if (op == "setkn") { NURBSCurve& c = S[in.i() - 1]; auto kn = in.ds(); c.set_knots(kn); return o.f("d", dump(c)).str(); }
  if (op == "norm") { NURBSCurve& c = S[in.i() - 1]; c.normalize_knots(); return o.f("d", dump(c)).str(); }
  if (op == "genkn") { NURBSCurve& c = S[in.i() - 1]; c.generate_knots(); return o.f("d", dump(c)).str(); }
  if (op == "mkper") { NURBSCurve& c = S[in.i() - 1]; c.make_periodic(); return o.f("d", dump(c)).str(); }
  if (op == "isper") { NURBSCurve& c = S[in.i() - 1]; return o.f("v", std::to_string((int)c.is_periodic())).str(); }
  if (op == "bbox") { NURBSCurve& c = S[in.i() - 1]; AABB& b = c.bbox(); return o.f("lo", j3(b.min)).f("hi", j3(b.max)).str(); }
  if (op == "aabb") { NURBSCurve& c = S[in.i() - 1]; const AABB& b = c.aabb(); return o.f("lo", j3(b.min)).f("hi", j3(b.max)).str(); }
  if (op == "cps3d") { NURBSCurve& c = S[in.i() - 1]; std::vector<vec3> a{vec3(1, 1, 1)}; c.get_control_points3d(a); auto b = c.get_control_points3d(); return o.f("ps", jlist({j3s(a), j3s(b)})).str(); }
  if (op == "join") {
    NURBSCurve &a = S[in.i() - 1], &b = S[in.i() - 1]; auto ts = in.ds(); NURBSCurve r; bool v = a.join(b, r);
    std::vector<vec3> ps; if (v) for (double t : ts) ps.push_back(r(t));
    o.f("v", v ? "1" : "0").f("d", dump(a)).f("d1", dump(b)).f("ps", j3s(ps));
    if (v) o.f("iv", jiv(r)).f("deg", std::to_string(r.get_degree())); else o.f("deg", "0");
    return o.str();
  }
  if (op == "span") { int deg = in.i(); double t = in.d(); auto kn = in.ds(); return o.f("v", std::to_string(find_span((int)kn.size() - deg - 2, deg, t, kn, false))).str(); }
  if (op == "basis") {
    int deg = in.i(); double t = in.d(); int nd = in.i(); auto kn = in.ds(); int s = find_span((int)kn.size() - deg - 2, deg, t, kn, false);
    std::array<double, CMMCORE_DEG_STACK_SIZE> N{}; basis_funs(s, t, deg, kn, N);
    std::vector<std::array<double, CMMCORE_DEG_STACK_SIZE>> D; ders_basis_funs(s, t, deg, nd, kn, D);
    std::vector<std::string> r; for (auto& a : D) r.push_back(jds(a.begin(), a.begin() + deg + 1));
    return o.f("n", jds(N.begin(), N.begin() + deg + 1)).f("ds", jlist(r)).str();
  }
  if (op == "mult") { double t = in.d(); auto kn = in.ds(); return o.f("v", std::to_string(find_multiplicity(t, kn))).str(); }
  if (op == "uniq") { auto kn = in.ds(); std::vector<double> u{5.5}, u2; std::vector<int> m{3}; getKnotMultiplicities(kn, u, m); uniqueKnots(kn, u2); return o.f("u", jds(u)).f("m", jis(m)).f("u2", jds(u2)).str(); }
  if (op == "refine") {
    NURBSCurve& c = S[in.i() - 1]; auto l = in.ds(); auto a = in.ds(); int den = in.i();
    auto r = knot_refinement(c._degree, c.knots, c.control_points, l, a, den);
    return o.f("kn", jds(r.second)).f("cp", jcp(r.first)).str();
  }
  if (op == "remove" || op == "removeany") { NURBSCurve& c = S[in.i() - 1]; double t = in.d(); int n = in.i(); auto r = knot_removal(c._degree, c.knots, c.control_points, t, 1e-7, n); return o.f("cp", jcp(r)).str(); }
  throw Bad("unknown command " + op);
}
int main() { return drive([] { for (auto& s : S) s = NURBSCurve(); }, handle); }
