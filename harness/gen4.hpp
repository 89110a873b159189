// 4D: generators of simplices, boxes and hyperplanes, and a reference polytope found by trying
// every set of four bounding hyperplanes.
#pragma once
#include "pbt.hpp"
#include "ref.hpp"
#include "rNd.h"
#include "vNd.h"
#include <memory>
#include <cfloat>
#include <set>
namespace g4 {
using pbt::Ctx;
using pbt::fmt;
using ref::L;
static_assert(RND_DIM == 4, "the reference is for four dimensions");
typedef ref::Vec<4> V4;
typedef ref::Plane<4> Pl;
const double EPS4 = sizeof(rNd_real) == 4 ? FLT_EPSILON : DBL_EPSILON;
const bool SP4 = sizeof(rNd_real) == 4;
const L DETL = SP4 ? 0.03L : 1e-4L, DETV = SP4 ? 0.03L : 1e-3L, BANDR = SP4 ? 2e-3L : 1e-9L, BANDS = SP4 ? 2e-2L : 1e-6L;   // general position, in units of the precision
inline double rnd(double x) { return (double)(rNd_real)x; }
struct PolyDel { void operator()(rNd_poly* p) const { free(p); } };
typedef std::unique_ptr<rNd_poly, PolyDel> Poly;
inline Poly newpoly(uint64_t pat = 0x5a5a) { rNd_poly* p = (rNd_poly*)malloc(sizeof(rNd_poly)); pbt::stale(p, sizeof *p, pat); return Poly(p); }
inline Poly dup(const rNd_poly* a) { Poly p = newpoly(77); p->nverts = a->nverts; p->nfaces = a->nfaces; if (a->nverts > 0) memcpy(p->verts, a->verts, a->nverts * sizeof(rNd_vertex)); return p; }
inline Poly dup(const Poly& a) { return dup(a.get()); }
inline V4 tov(const rNd_rvec& p) { V4 v; for (int k = 0; k < 4; ++k) v[k] = p.xyz[k]; return v; }
inline Pl tov(const rNd_plane& p) { Pl q; q.n = tov(p.n); q.d = p.d; return q; }
inline rNd_plane mkplane(const V4& n, L d) { rNd_plane p; for (int k = 0; k < 4; ++k) p.n.xyz[k] = (rNd_real)n[k]; p.d = (rNd_real)d; return p; }
inline V4 unitv(V4 n) { return (1 / ref::norm(n)) * n; }
inline bool same(const rNd_poly* a, const rNd_poly* b) {
  if (a->nverts != b->nverts) return false; if (a->nverts && a->nfaces != b->nfaces) return false;
  for (int v = 0; v < a->nverts; ++v) for (int i = 0; i < 4; ++i) { if (a->verts[v].pnbrs[i] != b->verts[v].pnbrs[i]) return false; if (memcmp(&a->verts[v].pos.xyz[i], &b->verts[v].pos.xyz[i], sizeof(rNd_real))) return false; for (int j = 0; j < 4; ++j) if (i != j && a->verts[v].finds[i][j] != b->verts[v].finds[i][j]) return false; }
  return true;
}
// solves four unit-normal hyperplanes; returns |det|
inline L solve4(const Pl* const h[4], V4& x) {
  L m[4][5]; for (int i = 0; i < 4; ++i) { for (int j = 0; j < 4; ++j) m[i][j] = h[i]->n[j]; m[i][4] = -h[i]->d; }
  L det = 1;
  for (int c = 0; c < 4; ++c) { int p = c; for (int r = c + 1; r < 4; ++r) if (fabsl(m[r][c]) > fabsl(m[p][c])) p = r; if (m[p][c] == 0) return 0; if (p != c) for (int k = 0; k < 5; ++k) std::swap(m[p][k], m[c][k]); det *= m[c][c]; for (int r = c + 1; r < 4; ++r) { L f = m[r][c] / m[c][c]; for (int k = c; k < 5; ++k) m[r][k] -= f * m[c][k]; } }
  for (int i = 3; i >= 0; --i) { L s = m[i][4]; for (int j = i + 1; j < 4; ++j) s -= m[i][j] * x[j]; x[i] = s / m[i][i]; }
  return fabsl(det);
}
struct RV { V4 x; int f[4]; L slack; };
struct HRef { std::vector<Pl> f; std::vector<RV> v; bool generic = true, dups = false; L mindet = 1; double band = 0; int facets = 0; };
// all vertices of the intersection of the half-spaces that are certain (clear of every other hyperplane);
// generic: nothing was too close to call
inline HRef enumerate(std::vector<Pl> hs, double R, L detlim = DETL, L bandrel = BANDR) {
  HRef o; o.band = (double)(bandrel * R); bool empty = false;
  for (auto& h : hs) { bool d = false; for (auto& g : o.f) { bool eq = g.d == h.d, op = g.d == -h.d; for (int k = 0; k < 4; ++k) { eq = eq && g.n[k] == h.n[k]; op = op && g.n[k] == -h.n[k]; } if (eq) d = true; if (op) empty = true; } if (d) o.dups = true; else o.f.push_back(h); }
  if (empty) { o.dups = true; return o; }
  int n = (int)o.f.size(); std::set<int> used;
  for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b) for (int c = b + 1; c < n; ++c) for (int d = c + 1; d < n; ++d) {
    const Pl* q[4] = {&o.f[a], &o.f[b], &o.f[c], &o.f[d]}; V4 x; L det = solve4(q, x); if (det < 1e-14L) continue;
    L band = det < detlim ? BANDS * R : o.band, sl = 1e4000L; bool out = false;
    for (int i = 0; i < n && !out; ++i) if (i != a && i != b && i != c && i != d) { L s = ref::dot(o.f[i].n, x) + o.f[i].d; sl = std::min(sl, s); if (s < -band) out = true; }
    if (out) continue;
    if (det < detlim || sl < band) { o.generic = false; if (sl < band) continue; }
    if (det < detlim) continue;
    o.mindet = std::min(o.mindet, det); o.v.push_back({x, {a, b, c, d}, sl}); for (int i : {a, b, c, d}) used.insert(i);
  }
  o.facets = (int)used.size(); return o;
}
// edges of a generic reference: pairs of vertices sharing three hyperplanes
inline std::vector<std::vector<int>> edges(const HRef& h) {
  std::vector<std::vector<int>> e(h.v.size());
  for (size_t i = 0; i < h.v.size(); ++i) for (size_t j = i + 1; j < h.v.size(); ++j) { int s = 0; for (int a : h.v[i].f) for (int b : h.v[j].f) s += a == b; if (s == 3) { e[i].push_back((int)j); e[j].push_back((int)i); } }
  return e;
}
// rounding unit of the flag sum, from the reference polytope; < 0 when it is not simple
inline double volunit(const HRef& h) {
  auto e = edges(h); double tot = 0;
  for (size_t v = 0; v < h.v.size(); ++v) {
    if (e[v].size() != 4) return -1; L R = ref::norm(h.v[v].x); int p[4] = {0, 1, 2, 3};
    for (int a : e[v]) R = std::max(R, ref::norm(h.v[a].x - h.v[v].x));
    do { V4 q[4]; L k = 1; for (int i = 0; i < 4; ++i) { q[i] = h.v[v].x - h.v[e[v][p[i]]].x; for (int j = 0; j < i; ++j) q[i] = q[i] - ref::dot(q[i], q[j]) * q[j]; L l = ref::norm(q[i]); if (l == 0) return -1; k += R / l; q[i] = (1 / l) * q[i]; } tot += (double)(R * R * R * R / 24 * k); } while (std::next_permutation(p, p + 4));
  }
  return tot * EPS4 / std::max(1e-3, (double)h.mindet);
}
// "" when the polytope is a valid 4-regular complex with closed 2-faces
inline std::string topo(const rNd_poly* p, int* ncomp = nullptr, int* nface2 = nullptr) {
  int n = p->nverts; if (n < 0 || n > RND_MAX_VERTS) return fmt("nverts = %d out of range", n);
  for (int v = 0; v < n; ++v) for (int k = 0; k < 4; ++k) { int u = p->verts[v].pnbrs[k]; if (u < 0 || u >= n) return fmt("vertex %d neighbour %d out of range (nverts %d)", v, u, n); if (u == v) return fmt("vertex %d is its own neighbour", v); for (int j = 0; j < k; ++j) if (p->verts[v].pnbrs[j] == u) return fmt("vertex %d lists neighbour %d twice", v, u); if (!std::isfinite((double)p->verts[v].pos.xyz[k])) return fmt("vertex %d has a non-finite coordinate", v); }
  auto slot = [&](int v, int u) { for (int k = 0; k < 4; ++k) if (p->verts[v].pnbrs[k] == u) return k; return -1; };
  for (int v = 0; v < n; ++v) for (int k = 0; k < 4; ++k) if (slot(p->verts[v].pnbrs[k], v) < 0) return fmt("link %d->%d is not answered by a link back", v, p->verts[v].pnbrs[k]);
  for (int v = 0; v < n; ++v) { std::set<int> ids; for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) { int f = p->verts[v].finds[i][j]; if (f < 0 || f >= p->nfaces) return fmt("vertex %d: 2-face id %d out of range (nfaces %d)", v, f, p->nfaces); if (p->verts[v].finds[j][i] != f) return fmt("vertex %d: 2-face table is not symmetric", v); if (!ids.insert(f).second) return fmt("vertex %d: 2-face id %d is used for two faces", v, f); } }
  std::vector<std::array<char, 16>> seen(n); for (auto& s : seen) s.fill(0); int cyc = 0;
  for (int v = 0; v < n; ++v) for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (i != j && !seen[v][i * 4 + j]) {
    int f = p->verts[v].finds[i][j], cv = v, in = i, out = j, len = 0; ++cyc;
    for (;;) {
      if (seen[cv][in * 4 + out]) return fmt("2-face %d at vertex %d does not close into a cycle", f, v); seen[cv][in * 4 + out] = seen[cv][out * 4 + in] = 1; ++len;
      int u = p->verts[cv].pnbrs[out], b = slot(u, cv), nx = -1; for (int k = 0; k < 4; ++k) if (k != b && p->verts[u].finds[b][k] == f) nx = k; if (nx < 0) return fmt("2-face %d leaves vertex %d towards %d, which does not know it on that edge", f, cv, u);
      cv = u; in = b; out = nx; if (cv == v && in == i && out == j) break; if (len > n) return fmt("2-face %d at vertex %d never closes", f, v);
    }
    if (len < 3) return fmt("2-face %d has %d vertices", f, len);
  }
  if (nface2) *nface2 = cyc;
  if (ncomp) { *ncomp = 0; std::vector<char> s(n, 0); for (int v = 0; v < n; ++v) if (!s[v]) { ++*ncomp; std::vector<int> st{v}; s[v] = 1; while (!st.empty()) { int u = st.back(); st.pop_back(); for (int k = 0; k < 4; ++k) { int w = p->verts[u].pnbrs[k]; if (!s[w]) { s[w] = 1; st.push_back(w); } } } } }
  return "";
}
struct Body { bool box; rNd_rvec b[2]; rNd_rvec v[5]; V4 M[4], t; bool mapped = false; std::vector<V4> pts; std::vector<Pl> h; std::vector<ref::Simplex<4>> sx; double R = 0, r = 0; std::string kind; };
inline void finish(Body& b) {
  double lo[4], hi[4]; for (int k = 0; k < 4; ++k) { lo[k] = 1e300; hi[k] = -1e300; }
  for (auto& p : b.pts) for (int k = 0; k < 4; ++k) { b.R = std::max(b.R, fabs((double)p[k])); lo[k] = std::min(lo[k], (double)p[k]); hi[k] = std::max(hi[k], (double)p[k]); }
  for (int k = 0; k < 4; ++k) b.r = std::max(b.r, hi[k] - lo[k]);
  auto facet = [&](std::vector<V4> q, const V4& in) { // hyperplane through four points, containing `in`
    V4 n; for (int k = 0; k < 4; ++k) { std::array<std::array<L, 3>, 3> m; for (int i = 0; i < 3; ++i) for (int j = 0, c = 0; j < 4; ++j) if (j != k) m[i][c++] = q[i + 1][j] - q[0][j]; n[k] = (k % 2 ? -1 : 1) * ref::det<3>(m); }
    n = unitv(n); Pl p; p.n = n; p.d = 0; for (auto& x : q) p.d -= ref::dot(n, x) / 4; if (ref::dot(n, in) + p.d < 0) { p.n = -1 * p.n; p.d = -p.d; } return p; };
  if (!b.box) { for (int i = 0; i < 5; ++i) { std::vector<V4> q; for (int j = 0; j < 5; ++j) if (j != i) q.push_back(b.pts[j]); b.h.push_back(facet(q, b.pts[i])); } auto s = ref::make<4>(b.pts.data()); s.w = fabsl(s.w); b.sx = {s}; return; }
  for (int k = 0; k < 4; ++k) for (int s = 0; s < 2; ++s) {
    if (!b.mapped) { Pl p; for (int j = 0; j < 4; ++j) p.n[j] = 0; p.n[k] = s ? -1 : 1; p.d = s ? (L)b.b[1].xyz[k] : -(L)b.b[0].xyz[k]; b.h.push_back(p); continue; }
    int base = s << k; std::vector<V4> q{b.pts[base]}; for (int j = 0; j < 4; ++j) if (j != k) q.push_back(b.pts[base | (1 << j)]); b.h.push_back(facet(q, b.pts[base ^ (1 << k)])); }
  int pm[4] = {0, 1, 2, 3}; do { V4 w[5]; int m = 0; w[0] = b.pts[0]; for (int i = 0; i < 4; ++i) { m |= 1 << pm[i]; w[i + 1] = b.pts[m]; } auto s = ref::make<4>(w); s.w = fabsl(s.w); if (s.w != 0) b.sx.push_back(s); } while (std::next_permutation(pm, pm + 4));
}
struct Opts { bool maps = true, scales = true, offsets = true; };
inline Body gen(Ctx& c, const Opts& o = Opts()) {
  Body b; b.box = c.chance(1, 2); bool lat = c.chance(1, 2); double sc = o.scales && c.chance(1, 8) ? ldexp(1, c.sym(sizeof(rNd_real) == 4 ? 6 : 40)) : 1, off[4] = {0, 0, 0, 0};
  if (o.offsets && c.chance(1, 5)) { double f = c.chance(1, 2) ? 3 : 50; for (double& x : off) x = c.uni(-f, f); }
  if (!b.box) {
    for (int t = 0;; ++t) { b.pts.clear(); for (int i = 0; i < 5; ++i) { V4 v; for (int k = 0; k < 4; ++k) v[k] = t > 3 ? (i == k + 1) : lat ? (L)c.sym(3) : (L)c.uni(-1, 1); b.pts.push_back(v); } L d = fabsl(ref::sdet<4>(b.pts.data())); if (d > (lat ? 0.5L : 0.05L)) break; }
    for (int i = 0; i < 5; ++i) for (int k = 0; k < 4; ++k) b.pts[i][k] = b.v[i].xyz[k] = (rNd_real)(sc * ((double)b.pts[i][k] + off[k]));
    b.kind = lat ? "lattice simplex" : "simplex";
  } else {
    for (int k = 0; k < 4; ++k) { double a = lat ? c.sym(3) : c.uni(-1, 1), w = lat ? 1 + (double)c.raw(3) : 0.1 + c.unit(); b.b[0].xyz[k] = (rNd_real)(sc * (a + off[k])); b.b[1].xyz[k] = (rNd_real)(sc * (a + w + off[k])); }
    for (int v = 0; v < 16; ++v) { V4 x; for (int k = 0; k < 4; ++k) x[k] = b.b[v >> k & 1].xyz[k]; b.pts.push_back(x); }
    b.kind = lat ? "lattice box" : "box";
  }
  if (o.maps && b.box && c.chance(1, 3)) { // a linear image of the box
    V4 M[4]; for (int i = 0; i < 4; ++i) for (int k = 0; k < 4; ++k) M[i][k] = (i == k ? 1.0 : 0.0) + c.uni(-0.4, 0.4); std::array<std::array<L, 4>, 4> m; for (int i = 0; i < 4; ++i) for (int k = 0; k < 4; ++k) m[i][k] = M[i][k];
    if (fabsl(ref::det<4>(m)) > 0.1L) { b.mapped = true; for (auto& p : b.pts) { V4 q; for (int i = 0; i < 4; ++i) q[i] = (rNd_real)(double)ref::dot(M[i], p); p = q; } b.kind = "parallelotope"; } }
  finish(b); return b;
}
inline Poly make(Ctx& c, Body& b) {
  Poly p = newpoly(c.raw(200)); if (b.box) { pbt::Exact<rNd_rvec> xb(b.b, 2); rNd_init_box(p.get(), xb); CHECK(c, xb.same(), "bounds changed"); if (b.mapped) for (int v = 0; v < 16; ++v) { // vertex numbering is not relied upon: match by position
      int m = 0; for (int k = 0; k < 4; ++k) if (p->verts[v].pos.xyz[k] == b.b[1].xyz[k]) m |= 1 << k; for (int k = 0; k < 4; ++k) p->verts[v].pos.xyz[k] = (rNd_real)b.pts[m][k]; } }
  else { pbt::Exact<rNd_rvec> xv(b.v, 5); rNd_init_simplex(p.get(), xv); CHECK(c, xv.same(), "vertices changed"); }
  return p;
}
inline V4 rdir(Ctx& c) { V4 n{{1, 0, 0, 0}}; for (int t = 0; t < 8; ++t) { V4 q; for (int k = 0; k < 4; ++k) q[k] = c.uni(-1, 1); L l = ref::norm(q); if (l > 0.1L && l <= 1) return (1 / l) * q; } return n; }
inline rNd_plane genplane(Ctx& c, const std::vector<V4>& pts, double R, double r, const std::vector<rNd_plane>& prev, std::string* kind, int graze = 0) {
  auto pt = [&]() -> const V4& { return pts[c.raw(pts.size())]; };
  auto thru = [&](const V4& n0, const V4& q) { rNd_plane p = mkplane(n0, 0); L d = 0; for (int k = 0; k < 4; ++k) d -= (L)p.n.xyz[k] * q[k]; p.d = (rNd_real)d; return p; };
  auto axis = [&](L x, int k) { V4 n{{0, 0, 0, 0}}; n[k] = c.chance(1, 2) ? -1 : 1; return mkplane(n, -n[k] * x); };
  const char* kn; rNd_plane p;
  switch (c.weighted({8, 3, 2, 1, 1, 1, 1, 1, prev.empty() ? 0 : 1, graze})) {
    case 0: { V4 m{{0, 0, 0, 0}}; L s = 0; for (int i = 0; i < 4; ++i) { L w = 0.05L + c.unit(); m = m + w * pt(); s += w; } p = thru(rdir(c), (1 / s) * m); kn = "interior"; break; }
    case 1: { int k = (int)c.raw(4); L a = pt()[k], b = pt()[k]; p = axis((double)(a + (b - a) * c.unit()), k); kn = "axis"; break; }
    case 2: { int k = (int)c.raw(4); p = axis(pt()[k], k); kn = "axis@vertex"; break; }
    case 3: { p = thru(rdir(c), pt()); kn = "thru-vertex"; break; }
    case 4: { V4 q[4] = {pt(), pt(), pt(), pt()}; V4 n; for (int k = 0; k < 4; ++k) { std::array<std::array<L, 3>, 3> m; for (int i = 0; i < 3; ++i) for (int j = 0, cc = 0; j < 4; ++j) if (j != k) m[i][cc++] = q[i + 1][j] - q[0][j]; n[k] = (k % 2 ? -1 : 1) * ref::det<3>(m); } L l = ref::norm(n); n = l > 1e-3L * r * r * r ? (1 / l) * n : rdir(c); if (c.chance(1, 2)) n = -1 * n; p = thru(n, q[0]); kn = "thru-4-vertices"; break; }
    case 5: { V4 n; for (int k = 0; k < 4; ++k) n[k] = c.sym(2); if (ref::dot(n, n) == 0) n[0] = 1; p = thru(unitv(n), pt()); kn = "lattice"; break; }
    case 6: { V4 n = rdir(c); L m = 1e300L; for (auto& q : pts) m = std::min(m, ref::dot(n, q)); p = mkplane(n, -m + r * c.uni(0.01, 2)); kn = "keeps-all"; break; }
    case 7: { V4 n = rdir(c); L m = -1e300L; for (auto& q : pts) m = std::max(m, ref::dot(n, q)); p = mkplane(n, -m - r * c.uni(0.01, 2)); kn = "drops-all"; break; }
    case 9: { V4 n = rdir(c); L m = 1e300L; for (auto& q : pts) m = std::min(m, ref::dot(n, q)); p = mkplane(n, -m - r * powl(10, -c.uni(2, sizeof(rNd_real) == 4 ? 3 : 8))); if (c.chance(1, 4)) { for (int k = 0; k < 4; ++k) p.n.xyz[k] = -p.n.xyz[k]; p.d = -p.d; } kn = "graze"; break; }
    default: { p = prev[c.raw(prev.size())]; if (c.chance(1, 2)) p.d = (rNd_real)(p.d + c.sym(4) * EPS4 * R); kn = "repeat"; }
  }
  if (kind) *kind = kn;
  return p;
}
inline void describe(Ctx& c, const Body& b) { if (!c.wantdesc) return; c.note("%s, %zu vertices", b.kind.c_str(), b.pts.size()); for (size_t i = 0; i < b.pts.size(); ++i) c.note("  (%.17Lg, %.17Lg, %.17Lg, %.17Lg)", b.pts[i][0], b.pts[i][1], b.pts[i][2], b.pts[i][3]); }
inline void describe(Ctx& c, const rNd_plane& p, const char* k) { c.note(" plane(%s) n = (%.17g, %.17g, %.17g, %.17g) d = %.17g", k, (double)p.n.xyz[0], (double)p.n.xyz[1], (double)p.n.xyz[2], (double)p.n.xyz[3], (double)p.d); }
}
