#include <cmmcore/kdtree.h>
#include <cmmcore/bvh.hpp>
#include "lib.h"
using namespace cmmcore;
static double DEN = 8;
static std::string j3(const vec3& v) { return "[" + jx(v.x, DEN) + "," + jx(v.y, DEN) + "," + jx(v.z, DEN) + "]"; }
static vec3 rv(In& in) { double x = in.i() / DEN, y = in.i() / DEN, z = in.i() / DEN; return vec3(x, y, z); }
static std::unique_ptr<KDTree3D> K[2];
struct Tree { std::vector<std::unique_ptr<Object3D>> own; std::vector<Object3D*> objs; std::unique_ptr<BVHNode> root; };
static Tree T[4];
static AABB B[6];
static long idOf(const Tree& t, const Object3D* o) { for (size_t k = 0; k < t.objs.size(); ++k) if (t.objs[k] == o) return (long)k + 1; return 0; }
static std::vector<long> walk(const Tree& t, const BVHNode* n, std::vector<std::string>& nodes) {
  std::vector<long> u; if (!n) return u;
  if (n->object) u.push_back(idOf(t, n->object));
  for (auto* c : {n->left.get(), n->right.get()}) { auto v = walk(t, c, nodes); u.insert(u.end(), v.begin(), v.end()); }
  nodes.push_back("{\"lo\":" + j3(n->bounding_box.min) + ",\"hi\":" + j3(n->bounding_box.max) + ",\"under\":" + jis(u) + "}");
  return u;
}
static std::string dump(Obs& o, const Tree& t) { std::vector<std::string> nodes; auto u = walk(t, t.root.get(), nodes); return o.f("ids", jis(u)).f("nodes", jlist(nodes)).str(); }
static std::string boxes(Obs& o) { std::vector<std::string> r; for (auto& b : B) { bool e = b.infinity(); r.push_back(std::string("{\"inf\":") + (e ? "1" : "0") + ",\"lo\":" + (e ? "[]" : j3(b.min)) + ",\"hi\":" + (e ? "[]" : j3(b.max)) + "}"); } return o.f("b", jlist(r)).str(); }
static std::string pairs(const Tree& a, const Tree& b, const std::vector<std::pair<const BVHNode*, const BVHNode*>>& v) {
  std::vector<std::string> r; for (auto& p : v) r.push_back("[" + std::to_string(idOf(a, p.first->object)) + "," + std::to_string(idOf(b, p.second->object)) + "]"); return jlist(r);
}
static std::string handle(In& in) {
  std::string fam = in.w(), op = in.w(); Obs o;
  if (fam == "den") { DEN = std::stod(op); return o.str(); }
  if (fam == "kd") {
    auto& k = K[in.i() - 1]; if (!k) k = std::make_unique<KDTree3D>();
    auto sz = [&] { return o.f("n", ji((long long)k->size())).f("empty", k->empty() ? "1" : "0").str(); };
    if (op == "build") { int n = in.i(); std::vector<vec3> p; for (int q = 0; q < n; ++q) p.push_back(rv(in)); k->build(p); return sz(); }
    if (op == "insert") { k->insert(rv(in)); return sz(); }
    if (op == "range") { vec3 a = rv(in), b = rv(in); std::vector<std::string> r; for (auto& p : k->rangeSearch(a, b)) r.push_back(j3(p)); return o.f("r", jlist(r)).str(); }
    if (op == "near") { vec3 a = rv(in); return o.f("p", j3(k->nearestNeighbor(a))).str(); }
  }
  if (fam == "bvh") {
    Tree& t = T[in.i() - 1];
    if (op == "build") {
      int up = in.i(), n = in.i(); t = Tree();
      for (int q = 0; q < n; ++q) { vec3 a = rv(in), b = rv(in); t.own.push_back(std::make_unique<Object3D>(AABB(a, b), q + 1)); t.objs.push_back(t.own.back().get()); }
      std::vector<Object3D*> l = t.objs;
      t.root = up == 2 ? build_bvh(l, true) : up == 3 ? build_bvh(l, false) : up ? build_bvh_bottom_up(l) : build_bvh_top_down(l);
      return dump(o, t);
    }
    if (op == "state") return dump(o, t);
    if (op == "copy") {
      Tree& l = T[in.i() - 1]; int assign = in.i(); Tree r; r.objs = t.objs;
      if (t.root) { if (assign) { r.root = l.root && &l != &t ? std::move(l.root) : std::make_unique<BVHNode>(); *r.root = *t.root; } else r.root = std::make_unique<BVHNode>(*t.root); }
      l.objs = r.objs; l.root = std::move(r.root); return dump(o, l);
    }
    if (op == "graft") {
      Tree& l = T[in.i() - 1]; Tree& m = T[in.i() - 1]; Tree r; r.objs = t.objs; r.objs.insert(r.objs.end(), l.objs.begin(), l.objs.end());
      auto a = t.root ? std::make_unique<BVHNode>(*t.root) : nullptr; auto b = l.root ? std::make_unique<BVHNode>(*l.root) : nullptr;
      AABB bb; if (a) bb = bb.merge(a->bounding_box); if (b) bb = bb.merge(b->bounding_box);
      r.root = std::make_unique<BVHNode>(bb); r.root->setLeft(a); r.root->setRight(b);
      m.objs = r.objs; m.root = std::move(r.root); return dump(o, m);
    }
    auto ids = [&](const std::vector<const Object3D*>& v) { std::vector<long> r; for (auto* x : v) r.push_back(idOf(t, x)); return o.f("r", jis(r)).str(); };
    if (op == "query") { vec3 a = rv(in), b = rv(in); std::vector<const Object3D*> r; traverse_bvh(t.root.get(), AABB(a, b), r); return ids(r); }
    if (op == "point") { vec3 a = rv(in); std::vector<const Object3D*> r; contains_point(t.root.get(), a, r); return ids(r); }
    if (op == "isect") {
      Tree& u = T[in.i() - 1]; std::vector<std::pair<const BVHNode*, const BVHNode*>> a, b;
      intersect_bvh(t.root.get(), u.root.get(), a); intersect_bvh_iterative(t.root.get(), u.root.get(), b);
      return o.f("rec", pairs(t, u, a)).f("it", pairs(t, u, b)).str();
    }
  }
  if (fam == "box") {
    AABB& b = B[in.i() - 1];
    if (op == "set") { vec3 lo = rv(in), hi = rv(in); b = AABB(lo, hi); return boxes(o); }
    if (op == "empty") { b = AABB(); return boxes(o); }
    if (op == "points") { int n = in.i(); std::vector<vec3> p; for (int q = 0; q < n; ++q) p.push_back(rv(in)); b = AABB(p); return boxes(o); }
    if (op == "expand") { b.expand(rv(in)); return boxes(o); }
    if (op == "volume") return o.f("v", jx(b.volume(), DEN * DEN * DEN)).str();
    AABB& c = B[in.i() - 1];
    if (op == "meet") return o.f("r", b.intersects(c) ? "1" : "0").f("r2", c.intersects(b) ? "1" : "0").str();
    AABB& m = B[in.i() - 1];
    if (op == "merge") { m = b.merge(c); return boxes(o); }
    if (op == "common") { AABB r; bool x = b.intersection(c, r); if (x) m = r; o.f("r", x ? "1" : "0"); return boxes(o); }
  }
  throw Bad("op " + fam + " " + op);
}
int main() { return drive([] { DEN = 8; for (auto& k : K) k.reset(); for (auto& t : T) t.root.reset(); for (auto& b : B) b = AABB(); }, handle); }
