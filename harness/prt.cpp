// The printing functions: what they print is what is stored, all of it and in order.
#include "gen3.hpp"
#include "gen2.hpp"
#include "gen4.hpp"
#include <sys/mman.h>
#include <unistd.h>
using pbt::Ctx; using pbt::fmt;
namespace {
template <class F> std::string captured(F f) {
  fflush(stdout); int keep = dup(1), m = memfd_create("out", 0); if (keep < 0 || m < 0) throw pbt::Discard(); dup2(m, 1); f(); fflush(stdout); dup2(keep, 1); close(keep);
  std::string s; char buf[65536]; lseek(m, 0, SEEK_SET); for (ssize_t n; (n = read(m, buf, sizeof buf)) > 0;) s.append(buf, n); close(m); return s;
}
struct Num { double x; std::string t; };
// the numbers in a text, apart from digits inside words
std::vector<Num> numbers(const std::string& s) {
  std::vector<Num> r; const char *p = s.c_str(), *e = p + s.size();
  while (p < e) {
    if (isalpha((unsigned char)*p) || *p == '_') { while (p < e && (isalnum((unsigned char)*p) || *p == '_')) ++p; continue; }
    bool start = isdigit((unsigned char)*p) || ((*p == '-' || *p == '+' || *p == '.') && p + 1 < e && (isdigit((unsigned char)p[1]) || p[1] == '.'));
    if (!start) { ++p; continue; }
    char* q; double x = strtod(p, &q); if (q == p) { ++p; continue; } r.push_back({x, std::string(p, (size_t)(q - p))}); p = q;
  }
  return r;
}
struct Want { double x; bool exact; const char* what; };
void compare(Ctx& c, const char* fn, const std::string& text, const std::vector<Want>& w, double rel) {
  auto g = numbers(text);
  for (size_t i = 0; i < std::min(g.size(), w.size()); ++i) {
    double e = w[i].x, x = g[i].x; bool ok = w[i].exact ? x == e : e == 0 ? x == 0 && std::signbit(e) == std::signbit(x) : fabs(x - e) <= rel * fabs(e) + 5e-324;
    CHECK(c, ok, "%s: number %zu (%s) is printed as %s, stored is %.17g", fn, i, w[i].what, g[i].t.c_str(), e);
  }
  CHECK(c, g.size() == w.size(), "%s printed %zu numbers, %zu are stored", fn, g.size(), w.size());
}
// any finite value: ordinary ones, tiny, huge, zeros of both signs
double value(Ctx& c) {
  switch (c.weighted({6, 2, 2, 1, 1})) {
    case 0: return c.uni(-10, 10);
    case 1: return c.uni(-1, 1) * pow(10, c.uni(-30, 30));
    case 2: return c.sym(1000);
    case 3: return c.chance(1, 2) ? 0.0 : -0.0;
    default: return sizeof(r3d_real) == 8 ? c.uni(-1, 1) * pow(10, c.uni(-300, 300)) : c.uni(-1, 1) * 1e-35;
  }
}
}
PROPERTY(c32_3, "C32/r3d_print", 3000, "at least one vertex") {
  g3::Opts o; o.cap = c.chance(1, 5) ? std::min(R3D_MAX_VERTS, 300) : 60; g3::Spec s = g3::gen(c, o); g3::Poly p = g3::make(c, s); int how = c.weighted({2, 2, 2, 1});
  if (how == 1) for (int v = 0; v < p->nverts; ++v) for (int k = 0; k < 3; ++k) { p->verts[v].pos.xyz[k] = (r3d_real)value(c); if (c.chance(1, 4)) p->verts[v].pnbrs[k] = (r3d_int)c.sym(300); }
  if (how == 2) { double R, r; g3::extent(s, R, r); std::string kind; r3d_plane h = g3::genplane(c, s.v, R, r, {}, &kind); if (!r3d_clip(p.get(), &h, 1)) throw pbt::Discard(); }
  if (how == 3) p->nverts = (r3d_int)c.raw(3) ? 1 : 0;
  c.label(how == 0 ? "body" : how == 1 ? "arbitrary fields" : how == 2 ? "clipped" : "few vertices"); if (c.wantdesc) g3::describe(c, s); if (p->nverts) c.nontrivial();
  std::vector<Want> w; for (int v = 0; v < p->nverts; ++v) { w.push_back({(double)v, true, "vertex index"}); for (int k = 0; k < 3; ++k) w.push_back({(double)p->verts[v].pos.xyz[k], false, "coordinate"}); for (int k = 0; k < 3; ++k) w.push_back({(double)p->verts[v].pnbrs[k], true, "neighbour"}); }
  g3::Poly keep = g3::dup(p); std::string a = captured([&] { r3d_print(p.get()); }); CHECK(c, g3::same(p.get(), keep.get()), "r3d_print changed the polyhedron"); compare(c, "r3d_print", a, w, 5.1e-11);
  CHECK(c, captured([&] { r3d_print(p.get()); }) == a, "r3d_print printed something else the second time");
}
PROPERTY(c32_b, "C32/r3d_print_brep", 3000, "at least one component") {
  g3::Opts o; o.cap = c.chance(1, 5) ? std::min(R3D_MAX_VERTS, 200) : 60; g3::Spec s = g3::gen(c, o); g3::Poly p = g3::make(c, s); bool clip = c.chance(1, 2);
  if (clip) { double R, r; g3::extent(s, R, r); std::string kind; r3d_plane h = g3::genplane(c, s.v, R, r, {}, &kind); if (!r3d_clip(p.get(), &h, 1)) throw pbt::Discard(); }
  if (c.wantdesc) g3::describe(c, s); r3d_brep* b = nullptr; r3d_int n = 0; r3d_init_brep(p.get(), &b, &n); if (n > 0) c.nontrivial(); c.label(fmt("components:%d", std::min((int)n, 5)));
  if (c.chance(1, 3)) for (int i = 0; i < n; ++i) for (int v = 0; v < b[i].numvertices; ++v) for (int k = 0; k < 3; ++k) b[i].vertices[v].xyz[k] = (r3d_real)value(c);
  std::vector<Want> w{{(double)n, true, "number of components"}};
  for (int i = 0; i < n; ++i) {
    w.push_back({(double)i, true, "component index"}); w.push_back({(double)i, true, "component index"}); w.push_back({(double)b[i].numvertices, true, "number of vertices"});
    for (int v = 0; v < b[i].numvertices; ++v) { w.push_back({(double)v, true, "vertex index"}); for (int k = 0; k < 3; ++k) w.push_back({(double)b[i].vertices[v].xyz[k], false, "coordinate"}); }
    w.push_back({(double)i, true, "component index"}); w.push_back({(double)b[i].numfaces, true, "number of faces"});
    for (int f = 0; f < b[i].numfaces; ++f) { w.push_back({(double)f, true, "face index"}); w.push_back({(double)b[i].numvertsperface[f], true, "vertices of the face"}); for (int k = 0; k < b[i].numvertsperface[f]; ++k) w.push_back({(double)b[i].faceinds[f][k], true, "index in the face"}); }
  }
  r3d_brep* was = b; std::string a = captured([&] { r3d_print_brep(&b, n); }); CHECK(c, b == was, "r3d_print_brep changed the pointer"); std::string a2 = captured([&] { r3d_print_brep(&b, n); }); r3d_free_brep(&b, n);
  compare(c, "r3d_print_brep", a, w, 5.1e-11); CHECK(c, a == a2, "r3d_print_brep printed something else the second time");
}
PROPERTY(c32_2, "C32/r2d_print", 3000, "at least one vertex") {
  g2::Opts o; o.cap = c.chance(1, 4) ? 200 : 40; g2::Spec s = g2::gen(c, o); g2::Poly p = g2::make(c, s, c.chance(1, 2)); int how = c.weighted({2, 2, 1});
  if (how == 1) for (int v = 0; v < p->nverts; ++v) for (int k = 0; k < 2; ++k) { p->verts[v].pos.xy[k] = (r2d_real)value(c); if (c.chance(1, 4)) p->verts[v].pnbrs[k] = (r2d_int)c.sym(300); }
  if (how == 2) p->nverts = (r2d_int)c.raw(3) ? 1 : 0;
  c.label(how == 0 ? "polygon" : how == 1 ? "arbitrary fields" : "few vertices"); if (c.wantdesc) g2::describe(c, s); if (p->nverts) c.nontrivial();
  std::vector<Want> w; for (int v = 0; v < p->nverts; ++v) { w.push_back({(double)v, true, "vertex index"}); for (int k = 0; k < 2; ++k) w.push_back({(double)p->verts[v].pos.xy[k], false, "coordinate"}); for (int k = 0; k < 2; ++k) w.push_back({(double)p->verts[v].pnbrs[k], true, "neighbour"}); }
  g2::Poly keep = g2::dup(p); std::string a = captured([&] { r2d_print(p.get()); }); CHECK(c, g2::same(p.get(), keep.get()), "r2d_print changed the polygon"); compare(c, "r2d_print", a, w, 5.1e-11);
  CHECK(c, captured([&] { r2d_print(p.get()); }) == a, "r2d_print printed something else the second time");
}
PROPERTY(c32_n, "C32/rNd_print", 3000, "at least one vertex") {
  g4::Body b = g4::gen(c); g4::Poly p = g4::make(c, b); int how = c.weighted({2, 2, 2, 1});
  if (how == 1) for (int v = 0; v < p->nverts; ++v) for (int k = 0; k < 4; ++k) { p->verts[v].pos.xyz[k] = (rNd_real)value(c); if (c.chance(1, 4)) p->verts[v].pnbrs[k] = (rNd_int)c.sym(300); }
  if (how == 2) { std::string kind; rNd_plane h = g4::genplane(c, b.pts, b.R, b.r, {}, &kind); rNd_clip(p.get(), &h, 1); }
  if (how == 3) p->nverts = (rNd_int)c.raw(3) ? 1 : 0;
  c.label(how == 0 ? "polytope" : how == 1 ? "arbitrary fields" : how == 2 ? "clipped" : "few vertices"); if (c.wantdesc) g4::describe(c, b); if (p->nverts) c.nontrivial();
  std::vector<Want> w; for (int v = 0; v < p->nverts; ++v) { w.push_back({(double)v, true, "vertex index"}); for (int k = 0; k < 4; ++k) w.push_back({(double)p->verts[v].pos.xyz[k], false, "coordinate"}); for (int k = 0; k < 4; ++k) w.push_back({(double)p->verts[v].pnbrs[k], true, "neighbour"}); }
  g4::Poly keep = g4::dup(p); std::string a = captured([&] { rNd_print(p.get()); }); CHECK(c, g4::same(p.get(), keep.get()), "rNd_print changed the polytope"); compare(c, "rNd_print", a, w, 5.1e-6);
  CHECK(c, captured([&] { rNd_print(p.get()); }) == a, "rNd_print printed something else the second time");
}
