// Legacy 3D library (deprecated/r3d.c): tetrahedron voxelization, clipping, integration (C28).
#include "pbt.hpp"
#include <memory>
#include "ref.hpp"
#include "cells.hpp"
extern "C" {
#include "deprecated/r3d.h"
}
using pbt::Ctx; using pbt::fmt; using ref::L;
typedef ref::Vec<3> V; typedef ref::Simplex<3> Sx; typedef ref::Plane<3> Pl;
static const double EPS = sizeof(r3d_real) == 4 ? 1.1920929e-7 : 2.220446049250313e-16;
// legacy order 1,x,y,z,xx,yy,zz,xy,yz,zx -> row-major order 1,x,y,z,xx,xy,xz,yy,yz,zz
static const int ORD[10] = {0, 1, 2, 3, 4, 7, 9, 5, 8, 6};
static V tov(const r3d_rvec3& a) { return V{{(L)a.x, (L)a.y, (L)a.z}}; }
static Pl tov(const r3d_plane& h) { return Pl{tov(h.n), (L)h.d}; }
static std::vector<Sx> boxsx(const double* lo, const double* hi) {
  std::vector<Sx> r; int pm[3] = {0, 1, 2};
  do { V v[4]; for (int k = 0; k < 3; ++k) v[0][k] = lo[k]; for (int s = 0; s < 3; ++s) { v[s + 1] = v[s]; v[s + 1][pm[s]] = hi[pm[s]]; } Sx t = ref::make<3>(v); t.w = fabsl(t.w); r.push_back(t); } while (std::next_permutation(pm, pm + 3));
  return r;
}
static L orient(const r3d_rvec3* v) { V q[4]; for (int i = 0; i < 4; ++i) q[i] = tov(v[i]); return ref::sdet<3>(q) / 6; }
// a tetrahedron near the box [lo,hi], positively oriented in the library's sense
static void gentet(Ctx& c, const double* lo, const double* hi, const double* d, r3d_rvec3* v) {
  double w[3]; for (int k = 0; k < 3; ++k) w[k] = hi[k] - lo[k];
  int kind = c.weighted({6, 3, 3, 3, 2, 2, 2}); double ctr[3]; for (int k = 0; k < 3; ++k) ctr[k] = lo[k] + w[k] * c.uni(-0.1, 1.1);
  static const char* N[] = {"generic", "small", "huge", "grid points", "outside", "sliver", "axis faces"}; c.label(N[kind]);
  for (int i = 0; i < 4; ++i) {
    double p[3];
    for (int k = 0; k < 3; ++k) switch (kind) {
      case 0: p[k] = lo[k] + w[k] * c.uni(-0.3, 1.3); break;
      case 1: p[k] = ctr[k] + d[k] * c.uni(-0.9, 0.9); break;
      case 2: p[k] = ctr[k] + w[k] * c.uni(-12, 12); break;
      case 3: p[k] = lo[k] + d[k] * c.range(-2, (int)lround(w[k] / d[k]) + 2); break;
      case 4: p[k] = ctr[k] + w[k] * c.uni(-0.5, 0.5) + (k == 0 ? 2.2 * w[0] : 0); break;
      case 5: p[k] = ctr[k] + w[k] * c.uni(-0.7, 0.7) * (k == 2 ? 1e-3 : 1); break;
      default: p[k] = i == 0 || i == k + 1 ? 0 : 0; p[k] = lo[k] + d[k] * (0.5 * c.range(-2, 4)) + (i == k + 1 ? w[k] * c.uni(0.1, 3) : 0); break;
    }
    if (kind == 6 && i) { double q[3] = {(double)v[0].x, (double)v[0].y, (double)v[0].z}; for (int k = 0; k < 3; ++k) p[k] = i == k + 1 ? (p[k] > q[k] ? p[k] : q[k] + w[k]) : q[k]; }
    v[i].x = (r3d_real)p[0]; v[i].y = (r3d_real)p[1]; v[i].z = (r3d_real)p[2];
  }
  L o = orient(v); L s = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) s = std::max(s, ref::norm(tov(v[i]) - tov(v[j])));
  if (!(fabsl(o) > 1e-7L * s * s * s)) throw pbt::Discard();
  if (o < 0) std::swap(v[2], v[3]);
}
static void show(Ctx& c, const r3d_rvec3* v) { for (int i = 0; i < 4; ++i) c.note("tetrahedron vertex %d: (%.17g, %.17g, %.17g)", i, (double)v[i].x, (double)v[i].y, (double)v[i].z); }
static double reach(const r3d_plane* f, double R) { double D = R; for (int i = 0; i < 4; ++i) D = std::max(D, fabs((double)f[i].d)); return D; }

PROPERTY(c28_vox, "C28/cells", 5000, "the tetrahedron meets at least two cells and leaves some cell partly covered") {
  int n[3]; double d[3]; double sc = c.chance(1, 3) ? pow(10, c.sym(sizeof(r3d_real) == 8 && c.chance(1, 3) ? 12 : 4)) : 1; bool fine = c.chance(1, 12), vast = fine && c.chance(1, 3); int ax = (int)c.raw(3); // vast: a row of up to 80000 cells
  for (int k = 0; k < 3; ++k) { n[k] = fine ? (k == ax ? (vast ? (int)pow(10, c.uni(2, 4.9)) : c.range(20, 90)) : c.range(1, vast ? 2 : 3)) : c.range(1, 6); d[k] = (double)(r3d_real)(sc * (c.chance(1, 2) ? 1.0 : c.uni(0.1, 2))); }
  double lo[3] = {0, 0, 0}, hi[3]; for (int k = 0; k < 3; ++k) hi[k] = n[k] * d[k];
  double wl[3], wh[3]; for (int k = 0; k < 3; ++k) { wl[k] = 0; wh[k] = hi[k]; if (vast && k == ax) { int z = n[k] - c.range(0, std::min(n[k] - 1, c.chance(1, 2) ? 6 : n[k])); wl[k] = d[k] * (z - std::min(z, 3)); wh[k] = d[k] * z; c.label("row of hundreds to 80000 cells"); } }
  r3d_rvec3 v[4], v0[4]; gentet(c, wl, wh, d, v); memcpy(v0, v, sizeof v); int order = (int)c.raw(3); c.note("grid %d x %d x %d, cells %.17g x %.17g x %.17g, order %d", n[0], n[1], n[2], d[0], d[1], d[2], order); show(c, v);
  r3d_plane f[4], f0[4]; pbt::poison(f, sizeof f, 3); r3du_tet_faces_from_verts(v, f); memcpy(f0, f, sizeof f); CHECK(c, memcmp(v, v0, sizeof v) == 0, "r3du_tet_faces_from_verts changed the vertices");
  static const int NM[3] = {1, 4, 10}; size_t N = (size_t)n[0] * n[1] * n[2], G = 24; std::vector<std::vector<r3d_real>> mom(10, std::vector<r3d_real>(N + 2 * G, (r3d_real)-77.25));
  r3d_dest_grid g; memset(&g, 0, sizeof g); for (int m = 0; m < NM[order]; ++m) g.moments[m] = mom[m].data() + G; g.polyorder = order; g.n.i = n[0]; g.n.j = n[1]; g.n.k = n[2]; g.d.x = (r3d_real)d[0]; g.d.y = (r3d_real)d[1]; g.d.z = (r3d_real)d[2]; g.bufsz = (r3d_long)N;
#ifndef USE_TREE
  std::unique_ptr<r3d_orientation[]> ob(new r3d_orientation[(size_t)(n[0] + 1) * (n[1] + 1) * (n[2] + 1)]); pbt::poison(ob.get(), sizeof(r3d_orientation) * (size_t)(n[0] + 1) * (n[1] + 1) * (n[2] + 1), 9); g.orient = ob.get();
#endif
  r3d_dest_grid g0 = g; pbt::dirty_stack(order + 11); r3d_voxelize_tet(f, &g);
  CHECK(c, memcmp(f, f0, sizeof f) == 0, "r3d_voxelize_tet changed the faces"); CHECK(c, memcmp(&g, &g0, sizeof g) == 0, "r3d_voxelize_tet changed the grid description");
  for (int m = 0; m < 10; ++m) for (size_t i = 0; i < G; ++i) CHECK(c, mom[m][i] == (r3d_real)-77.25 && mom[m][G + N + i] == (r3d_real)-77.25, "moment array %d was written outside the grid", m);
  double R = 0; for (int k = 0; k < 3; ++k) R = std::max(R, hi[k]); double D = reach(f, 2 * R), A = d[0] * d[1] + d[1] * d[2] + d[2] * d[0]; int met = 0, part = 0; double cell = d[0] * d[1] * d[2];
  for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) for (int k = 0; k < n[2]; ++k) {
    size_t id = ((size_t)i * n[1] + j) * n[2] + k; int ix[3] = {i, j, k}; double a[3], b[3]; for (int q = 0; q < 3; ++q) { a[q] = ix[q] * d[q]; b[q] = (ix[q] + 1) * d[q]; }
    std::vector<Sx> s; bool full = true, none = false;
    for (int q = 0; q < 4; ++q) { int in = 0; for (int e = 0; e < 8; ++e) { V x{{(L)(e & 1 ? b : a)[0], (L)(e & 2 ? b : a)[1], (L)(e & 4 ? b : a)[2]}}; in += ref::dot(tov(f[q]).n, x) + f[q].d > 0; } full &= in == 8; none |= in == 0; }
    std::vector<L> e(10, 0); if (!none) { s = boxsx(a, b); if (!full) for (int q = 0; q < 4; ++q) s = ref::clip<3>(s, tov(f[q])); e = ref::moments<3>(s, 2); }
    if (e[0] > 1e-9 * cell) ++met; if (e[0] > 1e-9 * cell && e[0] < (1 - 1e-9) * cell) ++part;
    for (int m = 0; m < NM[order]; ++m) { int deg = m == 0 ? 0 : m < 4 ? 1 : 2; double u = EPS * (D * A + 8 * cell) * pow(2 * R, deg); L x = mom[m][G + id], y = e[ORD[m]]; c.measure(fmt("cell err/unit order %d", deg), (double)fabsl(x - y) / u); CHECK(c, fabsl(x - y) <= 64 * u, "cell (%d,%d,%d) moment %d is %.17Lg, reference %.17Lg (unit %.3g)", i, j, k, m, x, y, u); }
  }
  if (met >= 2 && part) c.nontrivial(); c.measure("cells met", met); if (met == 0) c.label("meets no cell"); if (met > part) c.label("with full cells"); if ((size_t)met == N && !part) c.label("covers the grid");
}
PROPERTY(c28_clip, "C28/clip", 20000, "some face cuts the box") {
  double sc = c.chance(1, 3) ? pow(10, c.sym(sizeof(r3d_real) == 8 && c.chance(1, 3) ? 12 : 4)) : 1, lo[3], hi[3], w[3]; r3d_rvec3 b[2]; bool off = c.chance(1, 3);
  for (int k = 0; k < 3; ++k) { double o = off ? c.uni(-20, 20) : c.chance(1, 2) ? 0 : c.uni(-1, 1); lo[k] = (double)(r3d_real)(sc * o); hi[k] = (double)(r3d_real)(lo[k] + sc * c.uni(0.2, 2)); w[k] = hi[k] - lo[k]; }
  b[0].x = lo[0]; b[0].y = lo[1]; b[0].z = lo[2]; b[1].x = hi[0]; b[1].y = hi[1]; b[1].z = hi[2]; r3d_rvec3 v[4], b0[2]; memcpy(b0, b, sizeof b); gentet(c, lo, hi, w, v); show(c, v); c.note("box (%.17g, %.17g, %.17g) to (%.17g, %.17g, %.17g)", lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]);
  r3d_plane f[4]; r3du_tet_faces_from_verts(v, f); std::unique_ptr<r3d_poly> p(new r3d_poly); pbt::poison(p.get(), sizeof(r3d_poly), c.raw(100)); r3du_init_box(p.get(), b); CHECK(c, memcmp(b, b0, sizeof b) == 0, "r3du_init_box changed the bounds"); CHECK(c, p->nverts == 8, "the box has %d vertices", p->nverts);
  unsigned char all = 0x0f; bool cut = false; for (int i = 0; i < 8; ++i) { auto& o = p->verts[i].orient; o.fflags = 0; for (int q = 0; q < 4; ++q) { o.fdist[q] = f[q].d + f[q].n.x * p->verts[i].pos.x + f[q].n.y * p->verts[i].pos.y + f[q].n.z * p->verts[i].pos.z; if (o.fdist[q] > 0) o.fflags |= 1 << q; } all &= o.fflags; }
  for (int q = 0; q < 4; ++q) { int in = 0; for (int i = 0; i < 8; ++i) in += p->verts[i].orient.fflags >> q & 1; if (in && in < 8) cut = true; } if (cut) c.nontrivial();
  unsigned char skip = all & (unsigned char)(c.chance(1, 2) ? 15 : c.raw(16)); int order = (int)c.raw(3); c.note("faces skipped 0x%x, order %d", skip, order); pbt::dirty_stack(skip); r3d_clip_tet(p.get(), skip);
  CHECK(c, p->nverts >= 8 && p->nverts <= R3D_MAX_VERTS, "nverts = %d", p->nverts); std::unique_ptr<r3d_poly> k(new r3d_poly(*p)); r3d_real m[14]; for (auto& x : m) x = (r3d_real)-77.25; pbt::dirty_stack(order + 77); r3d_reduce(p.get(), order, m + 2);
  CHECK(c, memcmp(k.get(), p.get(), sizeof(r3d_poly)) == 0, "r3d_reduce changed the polyhedron"); CHECK(c, m[0] == (r3d_real)-77.25 && m[1] == m[0] && m[12] == m[0] && m[13] == m[0], "r3d_reduce wrote outside the ten moments");
  auto s = boxsx(lo, hi); for (int q = 0; q < 4; ++q) s = ref::clip<3>(s, tov(f[q])); auto e = ref::moments<3>(s, 2); double R = 0; for (int q = 0; q < 3; ++q) R = std::max(R, std::max(fabs(lo[q]), fabs(hi[q]))); double D = reach(f, 2 * R), A = w[0] * w[1] + w[1] * w[2] + w[2] * w[0]; static const int NM[3] = {1, 4, 10};
  double far = R * R * R; // the integration fans from the coordinate origin
  for (int i = 0; i < NM[order]; ++i) { int deg = i == 0 ? 0 : i < 4 ? 1 : 2; double u = EPS * (D * A + far) * pow(2 * R, deg); L x = m[2 + i], y = e[ORD[i]]; c.measure(fmt("clip err/unit order %d", deg), (double)fabsl(x - y) / u); CHECK(c, fabsl(x - y) <= 64 * u, "moment %d is %.17Lg, reference %.17Lg (unit %.3g)", i, x, y, u); }
  c.label(e[0] <= 0 ? "empty intersection" : "nonempty intersection");
}
PROPERTY(c28_util, "C28/faces and volume", 40000, "always") {
  c.nontrivial(); double sc = c.chance(1, 3) ? pow(10, c.sym(4)) : 1, lo[3], hi[3], w[3]; for (int k = 0; k < 3; ++k) { lo[k] = sc * c.uni(-3, 3); hi[k] = lo[k] + sc * c.uni(0.5, 2); w[k] = hi[k] - lo[k]; }
  r3d_rvec3 v[4]; gentet(c, lo, hi, w, v); show(c, v); r3d_plane f[4]; r3du_tet_faces_from_verts(v, f); double R = 0, s = 0; for (int i = 0; i < 4; ++i) { R = std::max(R, (double)ref::norm(tov(v[i]))); for (int j = 0; j < i; ++j) s = std::max(s, (double)ref::norm(tov(v[i]) - tov(v[j]))); }
  for (int q = 0; q < 4; ++q) {
    L nn = ref::norm(tov(f[q].n)); CHECK(c, fabsl(nn - 1) <= 8 * EPS, "the normal of face %d has length %.17Lg", q, nn);
    int o[3], t = 0; for (int i = 0; i < 4; ++i) if (i != q) o[t++] = i; L area = ref::norm(ref::cross(tov(v[o[1]]) - tov(v[o[0]]), tov(v[o[2]]) - tov(v[o[0]]))) / 2; double u = EPS * (R + s) * std::max(1.0, (double)(s * s / area));
    for (int i = 0; i < 4; ++i) { L x = ref::dot(tov(f[q].n), tov(v[i])) + f[q].d, want = i == q ? 3 * orient(v) / area : 0; c.measure("face distance err/unit", (double)fabsl(x - want) / u); CHECK(c, fabsl(x - want) <= 64 * u, "face %d is at distance %.17Lg from vertex %d, expected %.17Lg (unit %.3g)", q, x, i, want, u); }
  }
  r3d_real x = r3du_orient(v[0], v[1], v[2], v[3]); double u = EPS * (s * s * s); c.measure("volume err/unit", (double)fabsl(x - orient(v)) / u); CHECK(c, fabsl(x - orient(v)) <= 32 * u, "signed volume %.17g, exact %.17Lg", (double)x, orient(v));
  x = r3du_orient(v[1], v[0], v[2], v[3]); CHECK(c, fabsl(x + orient(v)) <= 32 * u, "signed volume of an odd permutation is %.17g, exact %.17Lg", (double)x, -orient(v));
}
