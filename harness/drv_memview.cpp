#include <cmmcore/memoryview.h>
#include "lib.h"
using namespace cmmcore;
using MV = MemoryView<int>;
static std::vector<std::unique_ptr<std::vector<int>>> pool;
static std::shared_ptr<MV> V[6];
static std::vector<std::shared_ptr<MV>> owners;   // a copy outlives the views taken of it
static std::vector<long> shp(const MV& m) { std::vector<long> r; for (auto x : m.shape()) r.push_back((long)x); return r; }
static std::vector<int> elems(const MV& m) {
  std::vector<size_t> s = m.shape(), ix(s.size(), 0); std::vector<int> r;
  for (auto x : s) if (x == 0) return r;
  while (true) { r.push_back(m(ix)); size_t d = s.size(); for (; d > 0; --d) { if (++ix[d - 1] < s[d - 1]) break; ix[d - 1] = 0; } if (d == 0) return r; }
}
static void all(Obs& o) {
  std::vector<std::string> l, s, e;
  for (auto& v : V) { l.push_back(v ? "1" : "0"); s.push_back(v ? jis(shp(*v)) : "[]"); e.push_back(v ? jis(elems(*v)) : "[]"); }
  o.f("live", jlist(l)).f("shape", jlist(s)).f("el", jlist(e));
}
static std::vector<size_t> us(const std::vector<long>& v) { return std::vector<size_t>(v.begin(), v.end()); }
struct Tri { double a; char b; int c; Tri(long x = 0) : a(double(x) / 2), b((char)x), c((int)x) {} explicit operator long() const { return long(a * 2) == c && b == (char)c ? c : -999999; } };
// the same elements as another type: the full view, its mirror image, its copy, and both after a round trip
template <class T> static std::string typed(const MV& v, int file) {
  auto e = elems(v); std::vector<T> buf; for (int x : e) buf.push_back(T((long)x));
  MemoryView<T> f(buf.data(), v.shape()); std::vector<Slice> sl;
  for (size_t k = 0; k < v.shape().size(); ++k) { Slice s; s.step = -1; sl.push_back(s); }
  MemoryView<T> r = f.slice(sl);
  auto list = [](const MemoryView<T>& m) { std::vector<long> o; std::vector<size_t> s = m.shape(), ix(s.size(), 0); for (auto x : s) if (!x) return o;
    while (true) { o.push_back((long)m(ix)); size_t d = s.size(); for (; d > 0; --d) { if (++ix[d - 1] < s[d - 1]) break; ix[d - 1] = 0; } if (d == 0) return o; } };
  auto trip = [&](const MemoryView<T>& m) {
    std::vector<long> o; std::vector<size_t> sh;
    if (file) { FILE* g = fopen("mt.dat", "w+b"); m.write_to_file(g); fflush(g); MemoryView<T> q = MemoryView<T>::read_from_file(g); fclose(g); o = list(q); sh = q.shape(); }
    else { auto b = m.serialize(); MemoryView<T> q = MemoryView<T>::deserialize(b); o = list(q); sh = q.shape(); }
    if (sh != m.shape()) o.push_back(-888888); return o; };
  std::shared_ptr<MemoryView<T>> c(r.copy()); Obs o;
  return o.f("f", jis(list(f))).f("r", jis(list(r))).f("c", jis(list(*c))).f("tf", jis(trip(f))).f("tr", jis(trip(r))).f("n", ji((long long)c->size())).str();
}
static std::string handle(In& in) {
  std::string op = in.w(); Obs o;
  if (op == "new") {
    int l = in.i() - 1; auto sh = us(in.is()); auto d = in.is();
    pool.push_back(std::make_unique<std::vector<int>>(d.begin(), d.end()));
    V[l] = std::make_shared<MV>(pool.back()->data(), sh); all(o); return o.str();
  }
  MV& v = *V[in.i() - 1];
  if (op == "slice") {
    int l = in.i() - 1; int n = in.i(); std::vector<Slice> sl;
    for (int k = 0; k < n; ++k) {
      std::string w = in.w();
      if (w == "i") sl.push_back(Slice((int)in.i()));
      else if (w == "f") sl.push_back(Slice());
      else if (w == "r") { int a = in.i(), b = in.i(), st = in.i(); sl.push_back(Slice(a, b, st)); }
      else { Slice s; s.has_start = in.i(); s.start = in.i(); s.has_stop = in.i(); s.stop = in.i(); s.step = in.i(); sl.push_back(s); }
    }
    auto r = v.slice(sl); V[l] = std::make_shared<MV>(r); all(o); return o.str();
  }
  if (op == "index") { int l = in.i() - 1; long x = in.i(); auto r = v[(size_t)x]; V[l] = std::make_shared<MV>(r); all(o); return o.str(); }
  if (op == "get") { auto ix = us(in.is()); return o.f("val", std::to_string(v(ix))).str(); }
  if (op == "set") { auto ix = us(in.is()); int x = in.i(); int& ref = v(ix); o.f("val", std::to_string(ref)); ref = x; all(o); return o.str(); }
  if (op == "range") { std::vector<int> r; bool z = false; for (auto x : v.shape()) z |= x == 0; long c = v.end() - v.begin(); if (c < 0 || c > 100000) return o.f("r", "[-1]").str();
    std::vector<size_t> s = v.shape(); bool contig = true; long ex = 1; auto st = v.strides(); for (size_t k = s.size(); k > 0; --k) { if (s[k - 1] != 1 && (long)st[k - 1] != ex) contig = false; ex *= s[k - 1]; }
    if (contig || z) for (auto p = v.begin(); p != v.end(); ++p) r.push_back(*p); return o.f("r", jis(r)).str(); }
  if (op == "size") return o.f("n", ji((long long)v.size())).str();
  if (op == "copy") { int l = in.i() - 1; std::shared_ptr<MV> c(v.copy()); owners.push_back(c); V[l] = c; all(o); return o.str(); }
  if (op == "reshape") { v.reshape(us(in.is())); all(o); return o.str(); }
  if (op == "round") {
    int l = in.i() - 1; int file = in.i();
    std::shared_ptr<MV> r;
    if (file) {
      FILE* f = fopen("mv.dat", "w+b"); v.write_to_file(f); fflush(f);
      MV m = MV::read_from_file(f); fclose(f); r = std::make_shared<MV>(m);
    } else { auto b = v.serialize(); r = std::make_shared<MV>(MV::deserialize(b)); }
    V[l] = std::move(r); all(o); return o.str();
  }
  if (op == "trunc") {
    auto b = v.serialize(); std::vector<long> acc;
    for (size_t n = 0; n < b.size(); ++n) {
      std::vector<char> t(b.begin(), b.begin() + n); t.shrink_to_fit();
      try { MV m = MV::deserialize(t); acc.push_back((long)n); delete[] m.data(); } catch (const std::exception&) {}
    }
    return o.f("acc", jis(acc)).str();
  }
  if (op == "wrongtype") {
    std::string w = in.w(); auto b = v.serialize();
    if (w == "double") MemoryView<double>::deserialize(b); else if (w == "float") MemoryView<float>::deserialize(b); else if (w == "char") MemoryView<char>::deserialize(b); else MemoryView<unsigned>::deserialize(b);
    return o.str();
  }
  if (op == "typed") {
    std::string w = in.w(); int f = in.i();
    if (w == "double") return typed<double>(v, f); if (w == "float") return typed<float>(v, f); if (w == "short") return typed<short>(v, f);
    if (w == "long") return typed<long>(v, f); return typed<Tri>(v, f);
  }
  if (op == "print") {
    std::string s = v.to_string(); auto a = s.rfind('['); std::vector<int> r; std::istringstream is(s.substr(a + 1)); std::string t;
    while (std::getline(is, t, ',')) { size_t p = t.find_first_of("-0123456789"); if (p != std::string::npos) r.push_back(std::stoi(t.substr(p))); }
    return o.f("r", jis(r)).str();
  }
  throw Bad("op " + op);
}
int main() { return drive([] { for (auto& v : V) v.reset(); pool.clear(); owners.clear(); }, handle); }
