// Legacy 2D library (deprecated/r2d.c): quadrilateral rasterization, clipping, integration (C29).
#include "pbt.hpp"
#include "ref.hpp"
#include "cells.hpp"
#include <memory>
extern "C" {
#include "deprecated/r2d.h"
}
using pbt::Ctx; using pbt::fmt; using ref::L;
typedef ref::Vec<2> V; typedef ref::Simplex<2> Sx; typedef ref::Plane<2> Pl;
static const double EPS = sizeof(r2d_real) == 4 ? 1.1920929e-7 : 2.220446049250313e-16;
static const int ORD[6] = {0, 1, 2, 3, 5, 4};   // legacy 1,x,y,xx,yy,xy -> row-major 1,x,y,xx,xy,yy
static V tov(const r2d_rvec2& a) { return V{{(L)a.x, (L)a.y}}; }
static Pl tov(const r2d_plane& h) { return Pl{tov(h.n), (L)h.d}; }
static std::vector<Sx> boxsx(const double* lo, const double* hi) {
  V a{{(L)lo[0], (L)lo[1]}}, b{{(L)hi[0], (L)lo[1]}}, c{{(L)hi[0], (L)hi[1]}}, d{{(L)lo[0], (L)hi[1]}}; V t[3] = {a, b, c}, u[3] = {a, c, d};
  return {ref::make<2>(t), ref::make<2>(u)};
}
static L area(const V& a, const V& b, const V& c) { V t[3] = {a, b, c}; return ref::sdet<2>(t) / 2; }
// a convex counterclockwise quadrilateral near the box [lo,hi] (two vertices may coincide in a triangle-like way never exactly)
static void genquad(Ctx& c, const double* lo, const double* hi, const double* d, r2d_rvec2* v) {
  double w[2]; for (int k = 0; k < 2; ++k) w[k] = hi[k] - lo[k];
  int kind = c.weighted({6, 3, 3, 3, 2, 2, 2}); static const char* N[] = {"generic", "small", "huge", "grid points", "outside", "sliver", "axis faces"}; c.label(N[kind]);
  double ctr[2], r[2]; for (int k = 0; k < 2; ++k) { ctr[k] = lo[k] + w[k] * c.uni(-0.2, 1.2); r[k] = w[k] * c.uni(0.1, 1); }
  if (kind == 1) for (int k = 0; k < 2; ++k) r[k] = d[k] * c.uni(0.05, 0.9);
  if (kind == 2) for (int k = 0; k < 2; ++k) r[k] = w[k] * c.uni(2, 12);
  if (kind == 4) ctr[0] += (c.chance(1, 2) ? 1 : -1) * (w[0] * 1.5 + 1.2 * r[0]);
  if (kind == 5) r[1] *= 1e-3;
  if (kind == 6 || kind == 3) {
    double a[2], b[2]; for (int k = 0; k < 2; ++k) { int n = (int)lround(w[k] / d[k]); int i = c.range(-2, n), j = i + c.range(1, n + 2); a[k] = lo[k] + d[k] * i; b[k] = lo[k] + d[k] * j; }
    int sh = kind == 3 ? c.sym(3) : 0; double q[4][2] = {{a[0] + sh * d[0], a[1]}, {b[0] + sh * d[0], a[1]}, {b[0], b[1]}, {a[0], b[1]}}; for (int i = 0; i < 4; ++i) { v[i].x = (r2d_real)q[i][0]; v[i].y = (r2d_real)q[i][1]; }
  } else {
    double t[4]; double off = c.uni(0, 6.283185307179586); for (int i = 0; i < 4; ++i) t[i] = off + 1.5707963267948966 * i + c.uni(0.05, 1.5); double tilt = kind == 5 ? c.uni(-1.5, 1.5) : 0;
    for (int i = 0; i < 4; ++i) { double x = r[0] * cos(t[i]), y = r[1] * sin(t[i]); v[i].x = (r2d_real)(ctr[0] + x * cos(tilt) - y * sin(tilt)); v[i].y = (r2d_real)(ctr[1] + x * sin(tilt) + y * cos(tilt)); }
  }
  L s = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) s = std::max(s, ref::norm(tov(v[i]) - tov(v[j])));
  for (int i = 0; i < 4; ++i) if (!(area(tov(v[i]), tov(v[(i + 1) % 4]), tov(v[(i + 2) % 4])) > 1e-7L * s * s)) throw pbt::Discard();
  int rot = (int)c.raw(4); std::rotate(v, v + rot, v + 4);
}
static void show(Ctx& c, const r2d_rvec2* v) { for (int i = 0; i < 4; ++i) c.note("quadrilateral vertex %d: (%.17g, %.17g)", i, (double)v[i].x, (double)v[i].y); }
static double reach(const r2d_plane* f, double R) { double D = R; for (int i = 0; i < 4; ++i) D = std::max(D, fabs((double)f[i].d)); return D; }
static const int NM[3] = {1, 3, 6};

PROPERTY(c29_ras, "C29/cells", 15000, "the quadrilateral meets at least two cells and leaves some cell partly covered") {
  int n[2]; double d[2]; double sc = c.chance(1, 3) ? pow(10, c.sym(sizeof(r2d_real) == 8 && c.chance(1, 3) ? 12 : 4)) : 1; bool fine = c.chance(1, 12), vast = fine && c.chance(1, 3); int ax = (int)c.raw(2); // vast: a row of up to 80000 cells
  for (int k = 0; k < 2; ++k) { n[k] = fine ? (k == ax ? (vast ? (int)pow(10, c.uni(2, 4.9)) : c.range(20, 150)) : c.range(1, vast ? 2 : 5)) : c.range(1, 9); d[k] = (double)(r2d_real)(sc * (c.chance(1, 2) ? 1.0 : c.uni(0.1, 2))); }
  double lo[2] = {0, 0}, hi[2]; for (int k = 0; k < 2; ++k) hi[k] = n[k] * d[k];
  double wl[2], wh[2]; for (int k = 0; k < 2; ++k) { wl[k] = 0; wh[k] = hi[k]; if (vast && k == ax) { int z = n[k] - c.range(0, std::min(n[k] - 1, c.chance(1, 2) ? 6 : n[k])); wl[k] = d[k] * (z - std::min(z, 3)); wh[k] = d[k] * z; c.label("row of hundreds to 80000 cells"); } }
  r2d_rvec2 v[4], v0[4]; genquad(c, wl, wh, d, v); memcpy(v0, v, sizeof v); int order = (int)c.raw(3); c.note("grid %d x %d, cells %.17g x %.17g, order %d", n[0], n[1], d[0], d[1], order); show(c, v);
  r2d_plane f[4], f0[4]; pbt::poison(f, sizeof f, 3); r2du_faces_from_verts(v, 4, f); memcpy(f0, f, sizeof f); CHECK(c, memcmp(v, v0, sizeof v) == 0, "r2du_faces_from_verts changed the vertices");
  size_t N = (size_t)n[0] * n[1], G = 24; std::vector<std::vector<r2d_real>> mom(6, std::vector<r2d_real>(N + 2 * G, (r2d_real)-77.25));
  r2d_dest_grid g; memset(&g, 0, sizeof g); for (int m = 0; m < NM[order]; ++m) g.moments[m] = mom[m].data() + G; g.polyorder = order; g.n.i = n[0]; g.n.j = n[1]; g.d.x = (r2d_real)d[0]; g.d.y = (r2d_real)d[1]; g.bufsz = (r2d_long)N;
#ifndef USE_TREE
  size_t no = (size_t)(n[0] + 1) * (n[1] + 1); std::unique_ptr<r2d_orientation[]> ob(new r2d_orientation[no]); pbt::poison(ob.get(), sizeof(r2d_orientation) * no, 9); g.orient = ob.get();
#endif
  r2d_dest_grid g0 = g; pbt::dirty_stack(order + 11); r2d_rasterize_quad(f, &g);
  CHECK(c, memcmp(f, f0, sizeof f) == 0, "r2d_rasterize_quad changed the faces"); CHECK(c, memcmp(&g, &g0, sizeof g) == 0, "r2d_rasterize_quad changed the grid description");
  for (int m = 0; m < 6; ++m) for (size_t i = 0; i < G; ++i) CHECK(c, mom[m][i] == (r2d_real)-77.25 && mom[m][G + N + i] == (r2d_real)-77.25, "moment array %d was written outside the grid", m);
  double R = std::max(hi[0], hi[1]), D = reach(f, 2 * R), A = d[0] + d[1], cell = d[0] * d[1]; int met = 0, part = 0;
  for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) {
    size_t id = (size_t)i * n[1] + j; double a[2] = {i * d[0], j * d[1]}, b[2] = {(i + 1) * d[0], (j + 1) * d[1]}; bool none = false; for (int q = 0; q < 4; ++q) { int in = 0; for (int z = 0; z < 4; ++z) { ref::Vec<2> x{{(L)(z & 1 ? b : a)[0], (L)(z & 2 ? b : a)[1]}}; in += ref::dot(tov(f[q]).n, x) + f[q].d > 0; } none |= in == 0; }
    std::vector<L> e(6, 0); if (!none) { auto s = boxsx(a, b); for (int q = 0; q < 4; ++q) s = ref::clip<2>(s, tov(f[q])); e = ref::moments<2>(s, 2); }
    if (e[0] > 1e-9 * cell) ++met; if (e[0] > 1e-9 * cell && e[0] < (1 - 1e-9) * cell) ++part;
    for (int m = 0; m < NM[order]; ++m) { int deg = m == 0 ? 0 : m < 3 ? 1 : 2; double u = EPS * (D * A + 8 * cell) * pow(2 * R, deg); L x = mom[m][G + id], y = e[ORD[m]]; c.measure(fmt("cell err/unit order %d", deg), (double)fabsl(x - y) / u); CHECK(c, fabsl(x - y) <= 64 * u, "cell (%d,%d) moment %d is %.17Lg, reference %.17Lg (unit %.3g)", i, j, m, x, y, u); }
  }
  if (met >= 2 && part) c.nontrivial(); c.measure("cells met", met); if (met == 0) c.label("meets no cell"); if (met > part) c.label("with full cells"); if ((size_t)met == N && !part) c.label("covers the grid");
}
PROPERTY(c29_clip, "C29/clip", 40000, "some line cuts the box") {
  double sc = c.chance(1, 3) ? pow(10, c.sym(sizeof(r2d_real) == 8 && c.chance(1, 3) ? 12 : 4)) : 1, lo[2], hi[2], w[2]; r2d_rvec2 b[2], b0[2], v[4]; bool off = c.chance(1, 3);
  for (int k = 0; k < 2; ++k) { double o = off ? c.uni(-20, 20) : c.chance(1, 2) ? 0 : c.uni(-1, 1); lo[k] = (double)(r2d_real)(sc * o); hi[k] = (double)(r2d_real)(lo[k] + sc * c.uni(0.2, 2)); w[k] = hi[k] - lo[k]; }
  b[0].x = lo[0]; b[0].y = lo[1]; b[1].x = hi[0]; b[1].y = hi[1]; memcpy(b0, b, sizeof b); r2d_plane f[4];
  if (c.chance(1, 2)) { genquad(c, lo, hi, w, v); show(c, v); r2du_faces_from_verts(v, 4, f); }
  else { c.label("any four lines"); for (int q = 0; q < 4; ++q) { double t = c.uni(0, 6.283185307179586), x = lo[0] + w[0] * c.uni(-0.2, 1.2), y = lo[1] + w[1] * c.uni(-0.2, 1.2); f[q].n.x = (r2d_real)cos(t); f[q].n.y = (r2d_real)sin(t); if (c.chance(1, 8)) { f[q].n.x = 0; f[q].n.y = 1; } f[q].d = (r2d_real)-(f[q].n.x * x + f[q].n.y * y); if (c.chance(1, 12)) f[q].d = -(f[q].n.x * b[c.raw(2)].x + f[q].n.y * b[c.raw(2)].y); if (q && c.chance(1, 12)) { f[q].n.x = -f[q - 1].n.x; f[q].n.y = -f[q - 1].n.y; f[q].d = -f[q - 1].d; } } }
  for (int q = 0; q < 4; ++q) c.note("line (%.17g, %.17g) %.17g", (double)f[q].n.x, (double)f[q].n.y, (double)f[q].d); c.note("box (%.17g, %.17g) to (%.17g, %.17g)", lo[0], lo[1], hi[0], hi[1]);
  std::unique_ptr<r2d_poly> p(new r2d_poly); pbt::poison(p.get(), sizeof(r2d_poly), c.raw(100)); r2du_init_box(p.get(), b); CHECK(c, memcmp(b, b0, sizeof b) == 0, "r2du_init_box changed the bounds"); CHECK(c, p->nverts == 4, "the box has %d vertices", p->nverts);
  unsigned char all = 0x0f; bool cut = false; for (int i = 0; i < 4; ++i) { auto& o = p->verts[i].orient; o.fflags = 0; for (int q = 0; q < 4; ++q) { o.fdist[q] = f[q].d + f[q].n.x * p->verts[i].pos.x + f[q].n.y * p->verts[i].pos.y; if (o.fdist[q] > 0) o.fflags |= 1 << q; } all &= o.fflags; }
  for (int q = 0; q < 4; ++q) { int in = 0; for (int i = 0; i < 4; ++i) in += p->verts[i].orient.fflags >> q & 1; if (in && in < 4) cut = true; } if (cut) c.nontrivial();
  unsigned char skip = all & (unsigned char)(c.chance(1, 2) ? 15 : c.raw(16)); int order = (int)c.raw(3); c.note("faces skipped 0x%x, order %d", skip, order); pbt::dirty_stack(skip); r2d_clip_quad(p.get(), skip);
  CHECK(c, p->nverts >= 4 && p->nverts <= R2D_MAX_VERTS, "nverts = %d", p->nverts); std::unique_ptr<r2d_poly> k(new r2d_poly(*p)); r2d_real m[10]; for (auto& x : m) x = (r2d_real)-77.25; pbt::dirty_stack(order + 77); r2d_reduce(p.get(), order, m + 2);
  CHECK(c, memcmp(k.get(), p.get(), sizeof(r2d_poly)) == 0, "r2d_reduce changed the polygon"); CHECK(c, m[0] == (r2d_real)-77.25 && m[1] == m[0] && m[8] == m[0] && m[9] == m[0], "r2d_reduce wrote outside the six moments");
  auto s = boxsx(lo, hi); for (int q = 0; q < 4; ++q) s = ref::clip<2>(s, tov(f[q])); auto e = ref::moments<2>(s, 2); double R = 0; for (int q = 0; q < 2; ++q) R = std::max(R, std::max(fabs(lo[q]), fabs(hi[q]))); double D = reach(f, 2 * R), A = w[0] + w[1];
  for (int i = 0; i < NM[order]; ++i) { int deg = i == 0 ? 0 : i < 3 ? 1 : 2; double u = EPS * (D * A + R * R) * pow(2 * R, deg); L x = m[2 + i], y = e[ORD[i]]; c.measure(fmt("clip err/unit order %d", deg), (double)fabsl(x - y) / u); CHECK(c, fabsl(x - y) <= 64 * u, "moment %d is %.17Lg, reference %.17Lg (unit %.3g)", i, x, y, u); }
  c.label(e[0] <= 0 ? "empty intersection" : "nonempty intersection");
}
PROPERTY(c29_faces, "C29/faces", 40000, "more than three vertices") {
  int n = c.range(3, 12); if (n > 3) c.nontrivial(); double sc = c.chance(1, 3) ? pow(10, c.sym(4)) : 1, cx = sc * c.uni(-3, 3), cy = sc * c.uni(-3, 3), rx = sc * c.uni(0.1, 2), ry = sc * c.uni(0.1, 2); std::vector<r2d_rvec2> v(n);
  for (int i = 0; i < n; ++i) { double t = 6.283185307179586 * (i + c.uni(0.05, 0.9)) / n; v[i].x = (r2d_real)(cx + rx * cos(t)); v[i].y = (r2d_real)(cy + ry * sin(t)); c.note("vertex (%.17g, %.17g)", (double)v[i].x, (double)v[i].y); }
  std::vector<r2d_plane> f(n + 1); pbt::poison(f.data(), sizeof(r2d_plane) * (n + 1), 4); r2d_plane keep = f[n]; auto v0 = v; r2du_faces_from_verts(v.data(), n, f.data()); CHECK(c, memcmp(&keep, &f[n], sizeof keep) == 0, "wrote past %d faces", n); CHECK(c, memcmp(v.data(), v0.data(), sizeof(r2d_rvec2) * n) == 0, "the vertices were changed");
  double R = 0; for (auto& x : v) R = std::max(R, (double)ref::norm(tov(x)));
  for (int q = 0; q < n; ++q) { V a = tov(v[q]), b = tov(v[(q + 1) % n]); L l = ref::norm(b - a), nn = ref::norm(tov(f[q].n)); CHECK(c, fabsl(nn - 1) <= 8 * EPS, "the normal of line %d has length %.17Lg", q, nn);
    for (int i = 0; i < n; ++i) { L x = ref::dot(tov(f[q].n), tov(v[i])) + f[q].d, want = 2 * area(a, b, tov(v[i])) / l; double u = EPS * R * 4; c.measure("line distance err/unit", (double)fabsl(x - want) / u); CHECK(c, fabsl(x - want) <= 64 * u, "line %d is at distance %.17Lg from vertex %d, expected %.17Lg", q, x, i, want); } }
}
PROPERTY(c29_orient, "C29/orient", 20000, "nonzero area") {
  double sc = c.chance(1, 3) ? pow(10, c.sym(4)) : 1, off = c.chance(1, 3) ? c.uni(-50, 50) : 0, s = 0; r2d_rvec2 v[3]; for (auto& x : v) { x.x = (r2d_real)(sc * (off + c.uni(-1, 1))); x.y = (r2d_real)(sc * (off + c.uni(-1, 1))); } if (c.chance(1, 12)) v[2] = v[0];
  for (auto& x : v) c.note("vertex (%.17g, %.17g)", (double)x.x, (double)x.y); for (int i = 0; i < 3; ++i) for (int k = 0; k < i; ++k) s = std::max(s, (double)ref::norm(tov(v[i]) - tov(v[k])));
  // either turning sense may be the positive one, but the same for every triangle
  r2d_rvec2 w[3] = {}; w[1].x = 1; w[2].y = 1; L sg = r2du_orient(w[0], w[1], w[2]) > 0 ? 1 : -1;
  L e = sg * area(tov(v[0]), tov(v[1]), tov(v[2])); if (e != 0) c.nontrivial(); double u = EPS * s * s;
  r2d_real x = r2du_orient(v[0], v[1], v[2]); c.measure("area err/unit", (double)fabsl(x - e) / (u + 1e-300)); CHECK(c, fabsl(x - e) <= 16 * u, "signed area %.17g, exact %.17Lg", (double)x, e);
  x = r2du_orient(v[1], v[2], v[0]); CHECK(c, fabsl(x - e) <= 16 * u, "signed area after rotation %.17g, exact %.17Lg", (double)x, e); x = r2du_orient(v[1], v[0], v[2]); CHECK(c, fabsl(x + e) <= 16 * u, "signed area of an odd permutation %.17g, exact %.17Lg", (double)x, -e);
}
