// Generators of valid 3D boundary descriptions and clip planes, and graph validators.
#pragma once
#include "pbt.hpp"
#include "ref.hpp"
#include "r3d.h"
#include "v3d.h"
#include <set>
#include <memory>
#include <cfloat>

#ifdef SINGLE_PRECISION
#define REPS (FLT_EPSILON)
#else
#define REPS (DBL_EPSILON)
#endif

namespace g3 {
using pbt::Ctx;
using ref::L;
typedef ref::Vec<3> V3;

struct P3 { double x[3]; };
struct Spec {
  std::vector<P3> v;
  std::vector<std::vector<int>> f;     // counterclockwise from outside
  int ncomp = 1;
  bool sphere = true, convex = true, exactplanar = true, inverted = false;
  std::string kind;
};

inline void append(Spec& a, const Spec& b) {
  int o = (int)a.v.size();
  a.v.insert(a.v.end(), b.v.begin(), b.v.end());
  for (auto f : b.f) { for (int& i : f) i += o; a.f.push_back(f); }
  a.sphere = a.sphere && b.sphere; a.exactplanar = a.exactplanar && b.exactplanar; a.convex = false;
}
inline void flip(Spec& s) { for (auto& f : s.f) std::reverse(f.begin(), f.end()); }
inline int maxdeg(const Spec& s, int* sum = nullptr) {
  std::vector<int> d(s.v.size(), 0); int t = 0; for (auto& f : s.f) for (int i : f) { ++d[i]; ++t; }
  if (sum) *sum = t;
  int m = 0; for (int x : d) m = std::max(m, x); return m;
}
// buffer slots r3d_init_poly needs
inline int need(const Spec& s) { int t, m = maxdeg(s, &t); return m <= 3 ? (int)s.v.size() : std::max(t, (int)s.v.size()); }
inline double rnd(double x) { return (double)(r3d_real)x; }

// ---- shapes (all with positive volume, about unit size, near the origin)
inline Spec prism(const std::vector<std::array<double, 2>>& p, double z0, double z1, double ts, double tx, double ty) {
  Spec s; int n = (int)p.size();
  for (auto& q : p) s.v.push_back({{q[0], q[1], z0}});
  for (auto& q : p) s.v.push_back({{q[0] * ts + tx, q[1] * ts + ty, z1}});
  std::vector<int> b, t; for (int i = 0; i < n; ++i) { b.push_back(n - 1 - i); t.push_back(n + i); }
  s.f.push_back(b); s.f.push_back(t);
  for (int i = 0; i < n; ++i) { int j = (i + 1) % n; s.f.push_back({i, j, n + j, n + i}); }
  s.exactplanar = (ts == 1.0);   // parallelograms from identical doubles are planar only if the shift is exact; see callers
  return s;
}
inline std::vector<std::array<double, 2>> ring(Ctx& c, int n, bool star, bool jitter = true) {
  std::vector<std::array<double, 2>> p; double j = n == 3 ? 0.4 : 0.8;
  for (int i = 0; i < n; ++i) {
    double u = jitter ? c.unit() : 0, r = star ? 0.3 + 0.7 * c.unit() : 1.0;
    double a = 2 * M_PI * (i + j * u) / n; p.push_back({r * cos(a), r * sin(a)});
  }
  return p;
}
inline Spec box(double x0, double y0, double z0, double x1, double y1, double z1) {
  Spec s; for (int k = 0; k < 8; ++k) s.v.push_back({{(k & 1) ? x1 : x0, (k & 2) ? y1 : y0, (k & 4) ? z1 : z0}});
  s.f = {{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}};
  return s;
}
inline L vol6(const P3& a, const P3& b, const P3& c, const P3& d) {
  V3 v[4]; const P3* p[4] = {&a, &b, &c, &d};
  for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) v[i][k] = p[i]->x[k];
  return ref::sdet<3>(v);
}
inline Spec hull(const std::vector<P3>& p) {
  Spec s; s.v = p; int n = (int)p.size();
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) for (int k = j + 1; k < n; ++k) {
    int pos = 0, neg = 0;
    for (int l = 0; l < n; ++l) if (l != i && l != j && l != k) { L d = vol6(p[i], p[j], p[k], p[l]); if (d > 1e-9L) ++pos; else if (d < -1e-9L) ++neg; else { pos = neg = 1; } if (pos && neg) break; }
    if (pos && neg) continue;
    if (pos) s.f.push_back({i, k, j}); else s.f.push_back({i, j, k});
  }
  return s;
}
inline bool closed(const Spec& s) {
  std::set<std::pair<int, int>> e; std::vector<int> used(s.v.size(), 0);
  for (auto& f : s.f) for (size_t i = 0; i < f.size(); ++i) { used[f[i]]++; if (!e.insert({f[i], f[(i + 1) % f.size()]}).second) return false; }
  for (auto& q : e) if (!e.count({q.second, q.first})) return false;
  for (int u : used) if (u < 3) return false;
  return true;
}
inline P3 dirpt(Ctx& c) {
  double z = c.uni(-1, 1), a = c.uni(0, 2 * M_PI), r = sqrt(std::max(0.0, 1 - z * z));
  return {{r * cos(a), r * sin(a), z}};
}
enum { K_TET, K_BOX, K_PRISM, K_STARPRISM, K_PYR, K_BIPYR, K_HULL, K_TORUS, K_STAR, K_HIST, K_BIG, K_N };

inline Spec basic(Ctx& c, int kind, int cap) {
  Spec s;
  switch (kind) {
    case K_TET: {
      std::vector<P3> p; bool lat = c.chance(1, 2);
      for (int i = 0; i < 4; ++i) { P3 q; for (int k = 0; k < 3; ++k) q.x[k] = lat ? c.sym(4) : c.uni(-1, 1); p.push_back(q); }
      L d = vol6(p[0], p[1], p[2], p[3]);
      if (fabsl(d) < 1e-3L) { p = {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}}; d = 1; }
      if (d < 0) std::swap(p[2], p[3]);
      s.v = p; s.f = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {0, 3, 2}}; s.kind = "tet"; break;
    }
    case K_BOX: {
      double a[3], b[3]; bool lat = c.chance(1, 2);
      for (int k = 0; k < 3; ++k) { a[k] = lat ? c.sym(3) : c.uni(-1, 1); b[k] = a[k] + (lat ? 1 + c.raw(4) : 0.05 + c.unit()); }
      s = box(a[0], a[1], a[2], b[0], b[1], b[2]); s.kind = "box"; break;
    }
    case K_PRISM: case K_STARPRISM: {
      int n = kind == K_PRISM ? c.range(3, 8) : c.range(4, 10);
      auto p = ring(c, n, kind == K_STARPRISM);
      double ts = 1, tx = 0, ty = 0; int m = (int)c.raw(4);
      if (m == 1) ts = c.uni(0.2, 1.5); if (m == 2) { tx = c.uni(-1, 1); ty = c.uni(-1, 1); } if (m == 3) { ts = c.uni(0.2, 1.5); tx = c.uni(-1, 1); }
      s = prism(p, 0, c.uni(0.1, 2), ts, tx, ty); s.exactplanar = (m == 0);
      s.convex = kind == K_PRISM; s.kind = kind == K_PRISM ? "prism" : "starprism"; break;
    }
    case K_PYR: {
      int n = c.chance(1, 16) ? c.range(13, std::max(13, cap / 4)) : c.range(3, 12); auto p = ring(c, n, c.chance(1, 3));
      for (auto& q : p) s.v.push_back({{q[0], q[1], 0}});
      double ax = c.uni(-0.2, 0.2), ay = c.uni(-0.2, 0.2); s.v.push_back({{ax, ay, c.uni(0.2, 2)}});
      std::vector<int> b; for (int i = n - 1; i >= 0; --i) b.push_back(i);
      s.f.push_back(b); for (int i = 0; i < n; ++i) s.f.push_back({i, (i + 1) % n, n});
      s.convex = false; s.kind = "pyramid"; break;
    }
    case K_BIPYR: {
      int n = c.chance(1, 16) ? c.range(13, std::max(13, cap / 6)) : c.range(3, 12); auto p = ring(c, n, c.chance(1, 3));
      for (auto& q : p) s.v.push_back({{q[0], q[1], c.uni(-0.1, 0.1)}});
      s.v.push_back({{0, 0, c.uni(0.3, 2)}}); s.v.push_back({{0, 0, -c.uni(0.3, 2)}});
      for (int i = 0; i < n; ++i) { s.f.push_back({i, (i + 1) % n, n}); s.f.push_back({(i + 1) % n, i, n + 1}); }
      s.convex = false; s.kind = "bipyramid"; break;
    }
    case K_HULL: case K_STAR: {
      int n = c.range(5, 14); std::vector<P3> p; for (int i = 0; i < n; ++i) p.push_back(dirpt(c));
      s = hull(p);
      if (!closed(s) || (int)s.f.size() != 2 * n - 4) { s = basic(c, K_BIPYR, cap); break; }
      // the origin must be strictly inside for the star-shaped variant
      bool in = true; P3 o = {{0, 0, 0}};
      for (auto& f : s.f) if (vol6(s.v[f[0]], s.v[f[1]], s.v[f[2]], o) > -1e-3L) in = false;
      s.kind = "hull";
      if (kind == K_STAR && in) { for (auto& q : s.v) { double r = c.uni(0.3, 1.5); for (double& t : q.x) t *= r; } s.convex = false; s.kind = "star"; }
      break;
    }
    case K_TORUS: {
      // square frame, rectangular (or slanted) cross-section; inner and outer rings, mitred corners
      double a = c.uni(0.5, 1), b = a + c.uni(0.2, 1), h = c.uni(0.1, 1), ti = c.chance(1, 2) ? c.uni(-0.2, 0.2) : 0;
      double sx[4] = {-1, 1, 1, -1}, sy[4] = {-1, -1, 1, 1};
      for (int i = 0; i < 4; ++i) {
        s.v.push_back({{sx[i] * a, sy[i] * a, 0}}); s.v.push_back({{sx[i] * b, sy[i] * b, 0}});
        s.v.push_back({{sx[i] * (b + ti), sy[i] * (b + ti), h}}); s.v.push_back({{sx[i] * (a + ti), sy[i] * (a + ti), h}});
      }
      for (int i = 0; i < 4; ++i) {
        int j = (i + 1) % 4, A = 4 * i, B = 4 * j;
        s.f.push_back({A + 0, B + 0, B + 1, A + 1});      // bottom
        s.f.push_back({A + 1, B + 1, B + 2, A + 2});      // outside
        s.f.push_back({A + 2, B + 2, B + 3, A + 3});      // top
        s.f.push_back({A + 3, B + 3, B + 0, A + 0});      // inside
      }
      flip(s);
      { L v = 0; P3 o = {{0.1, 0.2, 0.3}}; for (auto& f : s.f) for (size_t k = 2; k < f.size(); ++k) v += vol6(o, s.v[f[0]], s.v[f[k - 1]], s.v[f[k]]); if (v < 0) flip(s); }
      s.sphere = false; s.convex = false; s.exactplanar = (ti == 0); s.kind = "torus"; break;
    }
    case K_HIST: {
      int m = c.range(2, 5); std::vector<int> h; std::vector<std::array<double, 2>> p;
      for (int i = 0; i < m; ++i) { int q = c.range(1, 4); if (i && q == h.back()) q = q % 4 + 1; h.push_back(q); }
      p.push_back({0, 0}); p.push_back({(double)m, 0});
      for (int i = m - 1; i >= 0; --i) { p.push_back({(double)i + 1, (double)h[i]}); p.push_back({(double)i, (double)h[i]}); }
      s = prism(p, 0, 1 + c.raw(3), 1, 0, 0); s.exactplanar = true; s.convex = false; s.kind = "histogram"; break;
    }
    default: {
      int n = c.chance(1, 4) ? c.range(120, 256) : c.range(12, 120); n = std::min(n, std::max(3, cap / 2 - 2));
      bool st = c.chance(1, 2);
      s = prism(ring(c, n, st && n > 3), 0, 1, 1, 0, 0); s.convex = !(st && n > 3); s.kind = "bigprism"; break;
    }
  }
  if (need(s) > cap) { s = box(0, 0, 0, 1, 1, 1); s.kind = "box"; if (cap < 8) { s = Spec(); s.v = {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}}; s.f = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {0, 3, 2}}; s.kind = "tet"; } }
  return s;
}

inline void extent(const Spec& s, double& R, double& r) {
  R = 0; r = 0; double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300};
  for (auto& p : s.v) for (int k = 0; k < 3; ++k) { R = std::max(R, fabs(p.x[k])); lo[k] = std::min(lo[k], p.x[k]); hi[k] = std::max(hi[k], p.x[k]); }
  for (int k = 0; k < 3; ++k) r = std::max(r, hi[k] - lo[k]);
}

struct Opts {
  int cap = R3D_MAX_VERTS;       // buffer slots available to the initial shape
  bool torus = true, multi = true, inverted = true, scales = true, offsets = true, transforms = true, big = true;
  double maxoffset = 1e6;
};
inline void place(Ctx& c, Spec& s, const Opts& o) {
  if (o.transforms) {
    int m = c.weighted({4, 2, 3});
    if (m == 1) { double t[3]; for (double& q : t) q = c.sym(5); for (auto& p : s.v) for (int k = 0; k < 3; ++k) { double y = p.x[k] + t[k]; if (y - t[k] != p.x[k]) s.exactplanar = s.exactplanar && maxdeg(s) == -1; p.x[k] = y; } }
    if (m == 2) {
      double M[3][3]; L d;
      for (int t = 0;; ++t) {
        for (auto& q : M) for (double& x : q) x = c.uni(-1, 1);
        if (t > 4) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) M[i][j] = (i + 1) % 3 == j; }
        std::array<std::array<L, 3>, 3> mm; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) mm[i][j] = M[i][j];
        d = ref::det<3>(mm);
        if (fabsl(d) > 0.05L) break;
      }
      for (auto& p : s.v) { P3 q; for (int i = 0; i < 3; ++i) q.x[i] = M[i][0] * p.x[0] + M[i][1] * p.x[1] + M[i][2] * p.x[2]; p = q; }
      if (d < 0) flip(s);
      bool tri = true; for (auto& f : s.f) if (f.size() > 3) tri = false;
      s.exactplanar = tri;
    }
  }
  if (o.scales && c.chance(1, 6)) { int k = c.sym(sizeof(r3d_real) == 4 ? 12 : 100); for (auto& p : s.v) for (double& x : p.x) x = ldexp(x, k); }
  if (o.offsets && c.chance(1, 5)) {
    double R, r; extent(s, R, r); double f = c.chance(1, 2) ? 10 : std::min(o.maxoffset, pow(10, c.uni(1, sizeof(r3d_real) == 4 ? 2 : 6)));
    double t[3]; for (double& q : t) q = r * f * c.uni(-1, 1);
    bool tri = true; for (auto& g : s.f) if (g.size() > 3) tri = false;
    // rounding moves vertices off non-triangular faces unless the addition is exact
    bool exact = true;
    for (auto& p : s.v) for (int k = 0; k < 3; ++k) { double y = p.x[k] + t[k]; if (y - t[k] != p.x[k]) exact = false; p.x[k] = y; }
    if (!exact && !tri) { bool axis = s.kind == "box" || s.kind == "histogram"; if (!axis) s.exactplanar = false; }
  }
  for (auto& p : s.v) for (double& x : p.x) x = rnd(x);
}
inline Spec gen(Ctx& c, const Opts& o = Opts()) {
  Spec s;
  auto one = [&](int cap) {
    int k = c.weighted({4, 4, 3, 4, 3, 3, 3, o.torus ? 2 : 0, 3, 3, o.big ? 1 : 0});
    return basic(c, k, cap);
  };
  int mode = o.multi ? c.weighted({40, 12, 4, o.cap >= 48 ? 1 : 0}) : 0; bool swarm = mode == 3; if (swarm) mode = 1; // swarm: many small components
  if (mode == 0) s = one(o.cap);
  else if (mode == 1 && o.cap >= 16) {
    int n = swarm ? c.range(5, std::min(o.cap / 7, 100)) : c.range(2, 4); int left = o.cap; std::string kinds; double x = 0; bool touch = c.chance(1, 3);
    int made = 0;
    for (int i = 0; i < n; ++i) {
      Spec t = one(swarm ? 8 : std::max(8, left / (2 * (n - i))));
      // a mixture of degree-3 and higher-degree components needs the sum of all degrees
      Spec u = s; if (made) append(u, t); else u = t;
      if (need(u) > o.cap) continue;
      double R, r; extent(t, R, r); double lo = 1e300; for (auto& p : t.v) lo = std::min(lo, p.x[0]);
      double sh = x - lo + (i && !touch ? c.uni(0.01, 0.5) : 0);
      if (s.v.empty()) sh = 0;
      for (auto& p : t.v) { p.x[0] += sh; }
      if (sh != 0 && t.kind != "box" && t.kind != "histogram") { bool tri = true; for (auto& f : t.f) if (f.size() > 3) tri = false; if (!tri) t.exactplanar = false; }
      if (swarm) kinds = "swarm"; else kinds += (made ? "+" : "") + t.kind;
      bool cv = t.convex;
      if (!made) { s = t; } else append(s, t);
      (void)cv; ++made;
      x = -1e300; for (auto& p : s.v) x = std::max(x, p.x[0]);
    }
    s.ncomp = made; s.kind = "multi(" + kinds + ")"; if (made > 1) s.convex = false;
  } else {
    s = box(-1, -1, -1, 1, 1, 1); Spec in = box(c.uni(-0.9, -0.1), c.uni(-0.9, -0.1), -0.5, c.uni(0.1, 0.9), c.uni(0.1, 0.9), 0.5);
    if (o.cap >= 16) { flip(in); append(s, in); s.ncomp = 2; s.kind = "cavity"; s.convex = false; }
  }
  place(c, s, o);
  if (o.inverted && c.chance(1, 8)) { flip(s); s.inverted = true; }
  return s;
}

// ---- library objects on exact heap blocks
struct PolyDel { void operator()(r3d_poly* p) const { free(p); } };
typedef std::unique_ptr<r3d_poly, PolyDel> Poly;
inline Poly newpoly(uint64_t pat = 0x5a5a) { r3d_poly* p = (r3d_poly*)malloc(sizeof(r3d_poly)); pbt::stale(p, sizeof *p, pat); return Poly(p); }
inline Poly dup(const Poly& a) { Poly p = newpoly(77); int n = a->nverts; p->nverts = n; if (n > 0) memcpy(p->verts, a->verts, n * sizeof(r3d_vertex)); return p; }

struct Lists { std::vector<r3d_rvec3> v; std::vector<std::vector<r3d_int>> f; std::vector<r3d_int*> fp; std::vector<r3d_int> nf; };
inline void lists(const Spec& s, Lists& l) {
  l.v.resize(s.v.size()); for (size_t i = 0; i < s.v.size(); ++i) for (int k = 0; k < 3; ++k) l.v[i].xyz[k] = (r3d_real)s.v[i].x[k];
  l.f.assign(s.f.begin(), s.f.end());
  l.fp.clear(); l.nf.clear(); l.fp.reserve(l.f.size()); l.nf.reserve(l.f.size()); for (auto& f : l.f) { l.fp.push_back(f.data()); l.nf.push_back((r3d_int)f.size()); }
}
inline int init(const Spec& s, r3d_poly* p) {
  Lists l; lists(s, l);
  return r3d_init_poly(p, l.v.data(), (r3d_int)l.v.size(), l.fp.data(), l.nf.data(), (r3d_int)l.nf.size());
}
inline Poly make(Ctx& c, const Spec& s) {
  Poly p = newpoly(c.raw(1000));
  int rc = init(s, p.get());
  CHECK(c, rc == 1, "r3d_init_poly returned %d for a valid %s with %zu vertices needing %d slots of %d", rc, s.kind.c_str(), s.v.size(), need(s), R3D_MAX_VERTS);
  return p;
}

// ---- reference decomposition
inline V3 tov(const P3& p) { return V3{{(L)p.x[0], (L)p.x[1], (L)p.x[2]}}; }
inline V3 tov(const r3d_rvec3& p) { return V3{{(L)p.xyz[0], (L)p.xyz[1], (L)p.xyz[2]}}; }
inline ref::Plane<3> tov(const r3d_plane& p) { ref::Plane<3> q; q.n = tov(p.n); q.d = p.d; return q; }
inline std::vector<ref::Simplex<3>> decomp(const Spec& s) {
  std::vector<ref::Simplex<3>> out; V3 a = tov(s.v[0]);
  for (auto& f : s.f) for (size_t k = 2; k < f.size(); ++k) {
    V3 v[4] = {a, tov(s.v[f[0]]), tov(s.v[f[k - 1]]), tov(s.v[f[k]])};
    auto t = ref::make<3>(v); if (t.w != 0) out.push_back(t);
  }
  return out;
}

// ---- planes
inline r3d_plane mkplane(const V3& n, L d) { r3d_plane p; for (int k = 0; k < 3; ++k) p.n.xyz[k] = (r3d_real)n[k]; p.d = (r3d_real)d; return p; }
inline r3d_plane genplane(Ctx& c, const std::vector<P3>& pts, double R, double r, const std::vector<r3d_plane>& prev, std::string* kind) {
  auto pt = [&]() -> const P3& { return pts[c.raw(pts.size())]; };
  auto rdir = [&]() { P3 d = dirpt(c); V3 n = tov(d); L l = ref::norm(n); return (1 / l) * n; };
  auto thru = [&](const V3& n0, const V3& q) {
    r3d_plane p = mkplane(n0, 0); L d = 0; for (int k = 0; k < 3; ++k) d -= (L)p.n.xyz[k] * q[k];
    p.d = (r3d_real)d; return p;
  };
  const char* kn; r3d_plane p;
  switch (c.weighted({5, 3, 3, 2, 2, 2, 1, 1, prev.empty() ? 0 : 2, 2})) {
    case 0: { V3 a = tov(pt()), b = tov(pt()), m = tov(pt()); L u = c.unit(), w = c.unit(); V3 q = a + u * (b - a); q = q + (w * 0.7L) * (m - q); p = thru(rdir(), q); kn = "interior"; break; }
    case 1: { int k = (int)c.raw(3); double x = pt().x[k]; V3 n{{0, 0, 0}}; n[k] = c.chance(1, 2) ? -1 : 1; p = mkplane(n, -n[k] * (L)x); kn = "axis@vertex"; break; }
    case 2: { int k = (int)c.raw(3); double a = pt().x[k], b = pt().x[k], x = a + (b - a) * c.unit(); V3 n{{0, 0, 0}}; n[k] = c.chance(1, 2) ? -1 : 1; p = mkplane(n, -n[k] * (L)x); kn = "axis"; break; }
    case 3: { p = thru(rdir(), tov(pt())); kn = "thru-vertex"; break; }
    case 4: {
      V3 a = tov(pt()), b = tov(pt()), d = tov(pt()); V3 n = ref::cross(b - a, d - a); L l = ref::norm(n);
      if (l < 1e-6L * r * r) { n = rdir(); l = 1; } n = (1 / l) * n; if (c.chance(1, 2)) n = -1.0L * n; p = thru(n, a); kn = "thru-3-vertices"; break;
    }
    case 5: {
      static const int ln[][3] = {{1, 1, 0}, {1, 0, 1}, {0, 1, 1}, {1, -1, 0}, {1, 1, 1}, {1, -1, 1}, {2, 1, 0}, {1, 2, -2}};
      const int* q = ln[c.raw(8)]; V3 n{{(L)q[0], (L)q[1], (L)q[2]}}; L l = ref::norm(n); if (c.chance(1, 2)) l = -l; p = thru((1 / l) * n, tov(pt())); kn = "lattice"; break;
    }
    case 6: { V3 n = rdir(); L m = 1e300L; for (auto& q : pts) m = std::min(m, ref::dot(n, tov(q))); p = mkplane(n, -m + r * c.uni(0.01, 2)); kn = "keeps-all"; break; }
    case 7: { V3 n = rdir(); L m = -1e300L; for (auto& q : pts) m = std::max(m, ref::dot(n, tov(q))); p = mkplane(n, -m - r * c.uni(0.01, 2)); kn = "drops-all"; break; }
    case 9: { // cuts off (or leaves) only a sliver at an extreme vertex or face
      V3 n = rdir(); if (c.chance(1, 3)) { int k = (int)c.raw(3); n = V3{{0, 0, 0}}; n[k] = c.chance(1, 2) ? -1 : 1; }
      L m = 1e300L; for (auto& q : pts) m = std::min(m, ref::dot(n, tov(q))); L e = r * powl(10, -c.uni(2, sizeof(r3d_real) == 4 ? 4 : 12)); p = mkplane(n, -m - e); if (c.chance(1, 4)) { for (int k = 0; k < 3; ++k) p.n.xyz[k] = -p.n.xyz[k]; p.d = -p.d; } kn = "graze"; break;
    }
    default: {
      p = prev[c.raw(prev.size())];
      int m = (int)c.raw(3);
      if (m == 1) { for (int k = 0; k < 3; ++k) p.n.xyz[k] = -p.n.xyz[k]; p.d = -p.d; }
      if (m == 2) { p.d = (r3d_real)(p.d + c.sym(4) * REPS * R); }
      kn = "repeat"; break;
    }
  }
  if (kind) *kind = kn;
  return p;
}

inline std::vector<P3> positions(const r3d_poly* p) { std::vector<P3> r; for (int i = 0; i < p->nverts; ++i) r.push_back({{(double)p->verts[i].pos.x, (double)p->verts[i].pos.y, (double)p->verts[i].pos.z}}); return r; }

// ---- graph validity: independent of the library. Returns "" or a description.
struct Topo { int ncomp = 0, nfaces = 0; bool euler = true; std::vector<int> comp; };
inline std::string topo(const r3d_poly* p, Topo* t = nullptr) {
  int n = p->nverts;
  if (n < 0 || n > R3D_MAX_VERTS) return pbt::fmt("nverts = %d out of range", n);
  for (int v = 0; v < n; ++v) {
    for (int k = 0; k < 3; ++k) {
      int u = p->verts[v].pnbrs[k];
      if (u < 0 || u >= n) return pbt::fmt("vertex %d neighbour %d out of range (nverts %d)", v, u, n);
      if (u == v) return pbt::fmt("vertex %d is its own neighbour", v);
      if (u == p->verts[v].pnbrs[(k + 1) % 3]) return pbt::fmt("vertex %d lists neighbour %d twice", v, u);
      if (!std::isfinite((double)p->verts[v].pos.xyz[k])) return pbt::fmt("vertex %d has a non-finite coordinate", v);
    }
  }
  for (int v = 0; v < n; ++v) for (int k = 0; k < 3; ++k) {
    int u = p->verts[v].pnbrs[k]; bool back = false; for (int q = 0; q < 3; ++q) if (p->verts[u].pnbrs[q] == v) back = true;
    if (!back) return pbt::fmt("edge %d->%d is not mutual", v, u);
  }
  Topo tt; tt.comp.assign(n, -1); std::vector<int> nv, ne, nf, st;
  for (int s = 0; s < n; ++s) if (tt.comp[s] < 0) {
    int id = tt.ncomp++; nv.push_back(0); ne.push_back(0); nf.push_back(0); st.push_back(s); tt.comp[s] = id;
    while (!st.empty()) { int v = st.back(); st.pop_back(); ++nv[id]; ne[id] += 3; for (int k = 0; k < 3; ++k) { int u = p->verts[v].pnbrs[k]; if (tt.comp[u] < 0) { tt.comp[u] = id; st.push_back(u); } } }
  }
  std::vector<char> mark(3 * n, 0);
  for (int s = 0; s < n; ++s) for (int k0 = 0; k0 < 3; ++k0) if (!mark[3 * s + k0]) {
    int v = s, k = k0, steps = 0;
    do {
      mark[3 * v + k] = 1; int u = p->verts[v].pnbrs[k], q = 0; while (p->verts[u].pnbrs[q] != v) ++q;
      v = u; k = (q + 1) % 3; if (++steps > 3 * n) return "face walk does not close";
    } while (!(v == s && k == k0));
    if (steps < 3) return pbt::fmt("face through vertex %d has only %d edges", s, steps);
    ++nf[tt.comp[s]]; ++tt.nfaces;
  }
  for (int i = 0; i < tt.ncomp; ++i) if (nv[i] - ne[i] / 2 + nf[i] != 2) tt.euler = false;
  if (t) *t = tt;
  return "";
}
inline void describe(Ctx& c, const Spec& s) {
  if (!c.wantdesc) return;
  c.note("%s: %zu vertices, %zu faces, %d component(s)%s", s.kind.c_str(), s.v.size(), s.f.size(), s.ncomp, s.inverted ? ", inverted" : "");
  size_t lim = s.v.size() <= 40 ? s.v.size() : 8;
  for (size_t i = 0; i < lim; ++i) c.note(" v%zu = (%.17g, %.17g, %.17g)", i, s.v[i].x[0], s.v[i].x[1], s.v[i].x[2]);
  if (s.f.size() <= 40) { std::string t = " faces:"; for (auto& f : s.f) { t += " ["; for (int i : f) t += pbt::fmt("%d ", i); t.back() = ']'; } c.note("%s", t.c_str()); }
}
inline void describe(Ctx& c, const r3d_plane& p, const char* k) { c.note(" plane(%s) n = (%.17g, %.17g, %.17g) d = %.17g", k, (double)p.n.x, (double)p.n.y, (double)p.n.z, (double)p.d); }
inline bool same(const r3d_poly* a, const r3d_poly* b) {
  if (a->nverts != b->nverts) return false;
  for (int v = 0; v < a->nverts; ++v) for (int k = 0; k < 3; ++k) {
    if (a->verts[v].pnbrs[k] != b->verts[v].pnbrs[k]) return false;
    if (memcmp(&a->verts[v].pos.xyz[k], &b->verts[v].pos.xyz[k], sizeof(r3d_real))) return false;
  }
  return true;
}
}
