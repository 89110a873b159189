// Generators of polygons (sets of simple loops) and clip lines for the 2D library.
#pragma once
#include "pbt.hpp"
#include "ref.hpp"
#include "r2d.h"
#include "v2d.h"
#include <memory>
#include <cfloat>
#ifdef SINGLE_PRECISION
#define REPS2 (FLT_EPSILON)
#else
#define REPS2 (DBL_EPSILON)
#endif
namespace g2 {
using pbt::Ctx;
using ref::L;
typedef ref::Vec<2> V2;
struct P2 { double x[2]; };
typedef std::vector<P2> Loop;
struct Spec { std::vector<Loop> l; bool convex = true, inverted = false; std::string kind; int n() const { int t = 0; for (auto& q : l) t += (int)q.size(); return t; } std::vector<P2> pts() const { std::vector<P2> r; for (auto& q : l) r.insert(r.end(), q.begin(), q.end()); return r; } };
inline double rnd(double x) { return (double)(r2d_real)x; }
inline L area2(const P2& a, const P2& b, const P2& c) { return ((L)b.x[0] - a.x[0]) * ((L)c.x[1] - a.x[1]) - ((L)b.x[1] - a.x[1]) * ((L)c.x[0] - a.x[0]); }
inline Loop ring(Ctx& c, int n, bool star) {
  Loop p; double j = n == 3 ? 0.4 : 0.8;
  for (int i = 0; i < n; ++i) { double a = 2 * M_PI * (i + j * c.unit()) / n, r = star ? 0.2 + 0.8 * c.unit() : 1.0; p.push_back({{r * cos(a), r * sin(a)}}); }
  return p;
}
inline Loop rect(double x0, double y0, double x1, double y1) { return {{{x0, y0}}, {{x1, y0}}, {{x1, y1}}, {{x0, y1}}}; }
inline Spec basic(Ctx& c, int cap) {
  Spec s; Loop p;
  switch (c.weighted({4, 4, 3, 4, 3, 2, 1, 1})) {
    case 0: { bool lat = c.chance(1, 2); for (int i = 0; i < 3; ++i) p.push_back({{lat ? (double)c.sym(4) : c.uni(-1, 1), lat ? (double)c.sym(4) : c.uni(-1, 1)}}); L d = area2(p[0], p[1], p[2]); if (fabsl(d) < 1e-3L) { p = {{{0, 0}}, {{1, 0}}, {{0, 1}}}; d = 1; } if (d < 0) std::swap(p[1], p[2]); s.kind = "triangle"; break; }
    case 1: { bool lat = c.chance(1, 2); double a = lat ? c.sym(3) : c.uni(-1, 1), b = lat ? c.sym(3) : c.uni(-1, 1); p = rect(a, b, a + (lat ? 1 + c.raw(4) : 0.05 + c.unit()), b + (lat ? 1 + c.raw(4) : 0.05 + c.unit())); s.kind = "box"; break; }
    case 2: { p = ring(c, c.range(3, 12), false); s.kind = "convex"; break; }
    case 3: { p = ring(c, c.range(4, 14), true); s.kind = "star"; s.convex = false; break; }
    case 4: { int m = c.range(2, 6), prev = 0; std::vector<int> h; for (int i = 0; i < m; ++i) { int q = c.range(1, 4); if (q == prev) q = q % 4 + 1; h.push_back(q); prev = q; } p.push_back({{0, 0}}); p.push_back({{(double)m, 0}}); for (int i = m - 1; i >= 0; --i) { p.push_back({{(double)i + 1, (double)h[i]}}); p.push_back({{(double)i, (double)h[i]}}); } s.kind = "histogram"; s.convex = false; break; }
    case 5: { // comb: thin teeth, so that one line makes many pieces
      int m = c.range(2, 8); double g = c.uni(0.1, 0.9); p.push_back({{0, 0}}); p.push_back({{(double)m, 0}}); for (int i = m - 1; i >= 0; --i) { double h = 1 + c.unit(); p.push_back({{i + g, h}}); p.push_back({{(double)i + 0.05, h}}); if (i) p.push_back({{(double)i, 0.3}}); } s.kind = "comb"; s.convex = false; break; }
    case 6: { // collinear vertices on the edges
      Loop q = ring(c, c.range(3, 6), false); for (auto& t : q) for (double& x : t.x) x = floor(16 * x) / 8; for (size_t i = 0; i < q.size(); ++i) { P2 a = q[i], b = q[(i + 1) % q.size()]; p.push_back(a); if (c.chance(2, 3)) p.push_back({{(a.x[0] + b.x[0]) / 2, (a.x[1] + b.x[1]) / 2}}); } s.kind = "collinear"; s.convex = false;
      L ar = 0; for (size_t i = 2; i < p.size(); ++i) ar += area2(p[0], p[i - 1], p[i]); if (ar < 0.5L) p = rect(0, 0, 2, 1); break; }
    default: { int n = c.range(15, std::max(16, cap)); p = ring(c, n, c.chance(1, 2)); s.kind = "big"; s.convex = false; }
  }
  if ((int)p.size() > cap) { p = rect(0, 0, 1, 1); s.kind = "box"; s.convex = true; }
  s.l = {p}; return s;
}
struct Opts { int cap = 40; bool multi = true, inverted = true, scales = true, offsets = true, transforms = true; };
inline void extent(const std::vector<P2>& v, double& R, double& r) { R = r = 0; double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300}; for (auto& p : v) for (int k = 0; k < 2; ++k) { R = std::max(R, fabs(p.x[k])); lo[k] = std::min(lo[k], p.x[k]); hi[k] = std::max(hi[k], p.x[k]); } for (int k = 0; k < 2; ++k) r = std::max(r, hi[k] - lo[k]); }
inline double perimeter(const Spec& s) { double t = 0; for (auto& q : s.l) for (size_t i = 0; i < q.size(); ++i) { const P2 &a = q[i], &b = q[(i + 1) % q.size()]; t += fabs(a.x[0] - b.x[0]) + fabs(a.x[1] - b.x[1]); } return t; }
template <class F> inline void each(Spec& s, F f) { for (auto& q : s.l) for (auto& p : q) f(p); }
inline void flip(Spec& s) { for (auto& q : s.l) std::reverse(q.begin(), q.end()); }
inline void place(Ctx& c, Spec& s, const Opts& o) {
  if (o.transforms) {
    int m = c.weighted({4, 2, 3});
    if (m == 1) { double t[2]; for (double& q : t) q = c.sym(5); each(s, [&](P2& p) { for (int k = 0; k < 2; ++k) p.x[k] += t[k]; }); }
    if (m == 2) { double M[2][2]; for (auto& q : M) for (double& x : q) x = c.uni(-1, 1); double d = M[0][0] * M[1][1] - M[0][1] * M[1][0]; if (fabs(d) < 0.05) { M[0][0] = 0; M[0][1] = -1; M[1][0] = 1; M[1][1] = 0; d = 1; } each(s, [&](P2& p) { P2 q; for (int i = 0; i < 2; ++i) q.x[i] = M[i][0] * p.x[0] + M[i][1] * p.x[1]; p = q; }); if (d < 0) flip(s); }
  }
  if (o.scales && c.chance(1, 6)) { int k = c.sym(sizeof(r2d_real) == 4 ? 12 : 100); each(s, [&](P2& p) { for (double& x : p.x) x = ldexp(x, k); }); }
  if (o.offsets && c.chance(1, 5)) { double R, r; extent(s.pts(), R, r); double f = c.chance(1, 2) ? 10 : pow(10, c.uni(1, sizeof(r2d_real) == 4 ? 2 : 6)); double t[2]; for (double& q : t) q = r * f * c.uni(-1, 1); each(s, [&](P2& p) { for (int k = 0; k < 2; ++k) p.x[k] += t[k]; }); }
  each(s, [](P2& p) { for (double& x : p.x) x = rnd(x); });
}
inline Spec gen(Ctx& c, const Opts& o = Opts()) {
  Spec s; int mode = o.multi ? c.weighted({40, 15, 10, o.cap >= 60 ? 5 : 0}) : 0; bool swarm = mode == 3; if (swarm) mode = 1; // swarm: many small loops
  if (mode == 0) s = basic(c, o.cap);
  else if (mode == 1) {
    int n = swarm ? c.range(6, o.cap / 4) : c.range(2, 5), left = o.cap; double x = 0; std::string kinds; bool touch = c.chance(1, 3);
    for (int i = 0; i < n && left >= 4; ++i) {
      Spec t = basic(c, swarm ? 4 : std::max(4, left / (n - i))); if (t.n() > left) continue; double lo = 1e300; each(t, [&](P2& p) { lo = std::min(lo, p.x[0]); }); double sh = s.l.empty() ? 0 : x - lo + (touch ? 0 : c.uni(0.01, 0.5)); each(t, [&](P2& p) { p.x[0] += sh; });
      s.l.push_back(t.l[0]); if (swarm) kinds = "swarm"; else kinds += (kinds.empty() ? "" : "+") + t.kind; left -= t.n(); each(s, [&](P2& p) { x = std::max(x, p.x[0]); }); }
    s.convex = s.l.size() == 1 && s.convex; if (s.l.size() > 1) s.convex = false; s.kind = "multi(" + kinds + ")";
  } else {
    s.l.push_back(rect(-1, -1, 1, 1)); int m = c.range(1, 3); for (int i = 0; i < m; ++i) { double a = -0.9 + 1.8 * i / m, w = 1.6 / m; Loop h = c.chance(1, 2) ? rect(a, c.uni(-0.9, -0.1), a + w * c.uni(0.2, 1), c.uni(0.1, 0.9)) : Loop{{{a, 0}}, {{a + w * 0.5, -0.5}}, {{a + w * 0.8, 0.4}}}; std::reverse(h.begin(), h.end()); s.l.push_back(h); }
    s.convex = false; s.kind = "holes";
  }
  place(c, s, o); if (o.inverted && c.chance(1, 8)) { flip(s); s.inverted = true; }
  return s;
}
struct PolyDel { void operator()(r2d_poly* p) const { free(p); } };
typedef std::unique_ptr<r2d_poly, PolyDel> Poly;
inline Poly newpoly(uint64_t pat = 0x5a5a) { r2d_poly* p = (r2d_poly*)malloc(sizeof(r2d_poly)); pbt::stale(p, sizeof *p, pat); return Poly(p); }
inline Poly dup(const r2d_poly* a) { Poly p = newpoly(77); p->nverts = a->nverts; if (a->nverts > 0) memcpy(p->verts, a->verts, a->nverts * sizeof(r2d_vertex)); return p; }
inline Poly dup(const Poly& a) { return dup(a.get()); }
// a polygon made of the loops, possibly with vertices in another order
inline Poly make(Ctx& c, const Spec& s, bool shuffle = false) {
  Poly p = newpoly(c.raw(1000)); int n = s.n(); std::vector<int> pm(n); for (int i = 0; i < n; ++i) pm[i] = i;
  if (shuffle) for (int i = n - 1; i > 0; --i) std::swap(pm[i], pm[c.raw(i + 1)]);
  p->nverts = n; int o = 0;
  for (auto& q : s.l) { int m = (int)q.size(); for (int i = 0; i < m; ++i) { auto& v = p->verts[pm[o + i]]; for (int k = 0; k < 2; ++k) v.pos.xy[k] = (r2d_real)q[i].x[k]; v.pnbrs[0] = pm[o + (i + 1) % m]; v.pnbrs[1] = pm[o + (i + m - 1) % m]; } o += m; }
  return p;
}
inline V2 tov(const P2& p) { return V2{{(L)p.x[0], (L)p.x[1]}}; }
inline V2 tov(const r2d_rvec2& p) { return V2{{(L)p.xy[0], (L)p.xy[1]}}; }
inline ref::Plane<2> tov(const r2d_plane& p) { ref::Plane<2> q; q.n = tov(p.n); q.d = p.d; return q; }
inline std::vector<ref::Simplex<2>> decomp(const Spec& s) {
  std::vector<ref::Simplex<2>> out; V2 a = tov(s.l[0][0]);
  for (auto& q : s.l) for (size_t k = 0; k < q.size(); ++k) { V2 v[3] = {a, tov(q[k]), tov(q[(k + 1) % q.size()])}; auto t = ref::make<2>(v); if (t.w != 0) out.push_back(t); }
  return out;
}
inline r2d_plane mkline(const V2& n, L d) { r2d_plane p; for (int k = 0; k < 2; ++k) p.n.xy[k] = (r2d_real)n[k]; p.d = (r2d_real)d; return p; }
inline r2d_plane genline(Ctx& c, const std::vector<P2>& pts, double R, double r, const std::vector<r2d_plane>& prev, std::string* kind) {
  auto pt = [&]() -> const P2& { return pts[c.raw(pts.size())]; };
  auto rdir = [&]() { L a = c.uni(0, 2 * M_PI); return V2{{cosl(a), sinl(a)}}; };
  auto thru = [&](const V2& n0, const V2& q) { r2d_plane p = mkline(n0, 0); L d = 0; for (int k = 0; k < 2; ++k) d -= (L)p.n.xy[k] * q[k]; p.d = (r2d_real)d; return p; };
  const char* kn; r2d_plane p;
  switch (c.weighted({5, 3, 3, 2, 2, 2, 1, 1, prev.empty() ? 0 : 2, 2})) {
    case 0: { V2 a = tov(pt()), b = tov(pt()), m = tov(pt()); L u = c.unit(), w = c.unit(); V2 q = a + u * (b - a); q = q + (w * 0.7L) * (m - q); p = thru(rdir(), q); kn = "interior"; break; }
    case 1: { int k = (int)c.raw(2); double x = pt().x[k]; V2 n{{0, 0}}; n[k] = c.chance(1, 2) ? -1 : 1; p = mkline(n, -n[k] * (L)x); kn = "axis@vertex"; break; }
    case 2: { int k = (int)c.raw(2); double a = pt().x[k], b = pt().x[k], x = a + (b - a) * c.unit(); V2 n{{0, 0}}; n[k] = c.chance(1, 2) ? -1 : 1; p = mkline(n, -n[k] * (L)x); kn = "axis"; break; }
    case 3: { p = thru(rdir(), tov(pt())); kn = "thru-vertex"; break; }
    case 4: { V2 a = tov(pt()), b = tov(pt()); V2 n{{b[1] - a[1], a[0] - b[0]}}; L l = ref::norm(n); if (l < 1e-6L * r) { n = rdir(); l = 1; } if (c.chance(1, 2)) l = -l; p = thru((1 / l) * n, a); kn = "thru-2-vertices"; break; }
    case 5: { static const int ln[][2] = {{1, 1}, {1, -1}, {2, 1}, {1, 2}, {3, 4}, {-4, 3}}; const int* q = ln[c.raw(6)]; V2 n{{(L)q[0], (L)q[1]}}; L l = ref::norm(n); if (c.chance(1, 2)) l = -l; p = thru((1 / l) * n, tov(pt())); kn = "lattice"; break; }
    case 6: { V2 n = rdir(); L m = 1e300L; for (auto& q : pts) m = std::min(m, ref::dot(n, tov(q))); p = mkline(n, -m + r * c.uni(0.01, 2)); kn = "keeps-all"; break; }
    case 7: { V2 n = rdir(); L m = -1e300L; for (auto& q : pts) m = std::max(m, ref::dot(n, tov(q))); p = mkline(n, -m - r * c.uni(0.01, 2)); kn = "drops-all"; break; }
    case 9: { // cuts off (or leaves) only a sliver
      V2 n = rdir(); if (c.chance(1, 3)) { int k = (int)c.raw(2); n = V2{{0, 0}}; n[k] = c.chance(1, 2) ? -1 : 1; }
      L m = 1e300L; for (auto& q : pts) m = std::min(m, ref::dot(n, tov(q))); p = mkline(n, -m - r * powl(10, -c.uni(2, sizeof(r2d_real) == 4 ? 4 : 12))); if (c.chance(1, 4)) { for (int k = 0; k < 2; ++k) p.n.xy[k] = -p.n.xy[k]; p.d = -p.d; } kn = "graze"; break; }
    default: { p = prev[c.raw(prev.size())]; int m = (int)c.raw(3); if (m == 1) { for (int k = 0; k < 2; ++k) p.n.xy[k] = -p.n.xy[k]; p.d = -p.d; } if (m == 2) p.d = (r2d_real)(p.d + c.sym(4) * REPS2 * R); kn = "repeat"; }
  }
  if (kind) *kind = kn;
  return p;
}
inline std::string topo(const r2d_poly* p, int* nloops = nullptr) {
  int n = p->nverts; if (n < 0 || n > R2D_MAX_VERTS) return pbt::fmt("nverts = %d out of range", n);
  for (int v = 0; v < n; ++v) for (int k = 0; k < 2; ++k) { int u = p->verts[v].pnbrs[k]; if (u < 0 || u >= n) return pbt::fmt("vertex %d neighbour %d out of range (nverts %d)", v, u, n); if (u == v) return pbt::fmt("vertex %d is its own neighbour", v); if (!std::isfinite((double)p->verts[v].pos.xy[k])) return pbt::fmt("vertex %d has a non-finite coordinate", v); }
  for (int v = 0; v < n; ++v) { if (p->verts[v].pnbrs[0] == p->verts[v].pnbrs[1]) return pbt::fmt("vertex %d lists a neighbour twice", v); for (int k = 0; k < 2; ++k) if (p->verts[p->verts[v].pnbrs[k]].pnbrs[1 - k] != v) return pbt::fmt("link %d->%d is not answered by a link back", v, p->verts[v].pnbrs[k]); }
  if (nloops) { *nloops = 0; std::vector<char> s(n, 0); for (int v = 0; v < n; ++v) if (!s[v]) { ++*nloops; for (int u = v; !s[u]; u = p->verts[u].pnbrs[0]) s[u] = 1; } }
  return "";
}
// how many vertices one cut adds at most (both sides of a margin counted), or -1 if links are broken
inline int crossings(const r2d_poly* p, const r2d_plane& h, double mg) {
  if (!topo(p).empty()) return -1; int n = 0;
  for (int v = 0; v < p->nverts; ++v) { int u = p->verts[v].pnbrs[0]; L a = ref::dot(tov(h.n), tov(p->verts[v].pos)) + h.d, b = ref::dot(tov(h.n), tov(p->verts[u].pos)) + h.d; if (std::min(a, b) < mg && std::max(a, b) >= -mg) ++n; }
  return n;
}
// true when every intermediate polygon of clipping by the list stays within the buffer
inline bool fits(Ctx& c, const r2d_poly* p, const std::vector<r2d_plane>& ps, double mg) {
  Poly q = dup(p);
  for (auto& h : ps) { if (q->nverts == 0) return true; int k = crossings(q.get(), h, mg); CHECK(c, k >= 0, "clipping by a prefix of the lines: %s", topo(q.get()).c_str()); if (q->nverts + k > R2D_MAX_VERTS) return false; r2d_plane t = h; r2d_clip(q.get(), &t, 1); }
  return true;
}
inline void describe(Ctx& c, const Spec& s) {
  if (!c.wantdesc) return; c.note("%s: %d vertices in %zu loop(s)%s", s.kind.c_str(), s.n(), s.l.size(), s.inverted ? ", inverted" : "");
  for (auto& q : s.l) { std::string t = " loop:"; size_t lim = std::min<size_t>(q.size(), 24); for (size_t i = 0; i < lim; ++i) t += pbt::fmt(" (%.17g, %.17g)", q[i].x[0], q[i].x[1]); c.note("%s", t.c_str()); }
}
inline void describe(Ctx& c, const r2d_plane& p, const char* k) { c.note(" line(%s) n = (%.17g, %.17g) d = %.17g", k, (double)p.n.x, (double)p.n.y, (double)p.d); }
inline bool same(const r2d_poly* a, const r2d_poly* b) {
  if (a->nverts != b->nverts) return false;
  for (int v = 0; v < a->nverts; ++v) for (int k = 0; k < 2; ++k) { if (a->verts[v].pnbrs[k] != b->verts[v].pnbrs[k]) return false; if (memcmp(&a->verts[v].pos.xy[k], &b->verts[v].pos.xy[k], sizeof(r2d_real))) return false; }
  return true;
}
}
