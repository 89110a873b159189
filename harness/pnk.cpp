// The N-dimensional library built for another RND_DIM (3, 5, 6): C31.  Written for any D; the
// four-dimensional build has its own, deeper harness (pnd.cpp).
#include "pbt.hpp"
#include "ref.hpp"
#include "cells.hpp"
#include "rNd.h"
#include "vNd.h"
#include <memory>
#include <cfloat>
#include <climits>
#include <set>
using pbt::Ctx;
using pbt::fmt;
using ref::L;
static const int D = RND_DIM;
static_assert(RND_DIM == KDIM, "the library was not built for the dimension asked for");
typedef ref::Vec<D> VK;
typedef ref::Plane<D> Pl;
typedef ref::Simplex<D> Sx;
static const double EPS = DBL_EPSILON;
static const int MAXV = RND_MAX_VERTS;
static const L DETL = D > 4 ? 1e-3L : 1e-4L, BANDR = 1e-9L;
struct PolyDel { void operator()(rNd_poly* p) const { free(p); } };
typedef std::unique_ptr<rNd_poly, PolyDel> Poly;
static Poly newpoly(uint64_t pat = 0x5a5a) { rNd_poly* p = (rNd_poly*)malloc(sizeof(rNd_poly)); pbt::stale(p, sizeof *p, pat); return Poly(p); }
static Poly dup(const Poly& a) { Poly p = newpoly(77); p->nverts = a->nverts; p->nfaces = a->nfaces; if (a->nverts > 0) memcpy(p->verts, a->verts, a->nverts * sizeof(rNd_vertex)); return p; }
static VK tov(const rNd_rvec& p) { VK v; for (int k = 0; k < D; ++k) v[k] = p.xyz[k]; return v; }
static Pl tov(const rNd_plane& p) { Pl q; q.n = tov(p.n); q.d = p.d; return q; }
static rNd_plane mkplane(const VK& n, L d) { rNd_plane p; memset(&p, 0, sizeof p); for (int k = 0; k < D; ++k) p.n.xyz[k] = (double)n[k]; p.d = (double)d; return p; }
static VK zero() { VK v; for (int k = 0; k < D; ++k) v[k] = 0; return v; }
static VK unitv(VK n) { return (1 / ref::norm(n)) * n; }
static std::string vstr(const VK& x) { std::string s = "("; for (int k = 0; k < D; ++k) s += fmt(k ? ", %.9Lg" : "%.9Lg", x[k]); return s + ")"; }
static bool same(const rNd_poly* a, const rNd_poly* b) {
  if (a->nverts != b->nverts || (a->nverts && a->nfaces != b->nfaces)) return false;
  for (int v = 0; v < a->nverts; ++v) for (int i = 0; i < D; ++i) { if (a->verts[v].pnbrs[i] != b->verts[v].pnbrs[i] || memcmp(&a->verts[v].pos.xyz[i], &b->verts[v].pos.xyz[i], sizeof(rNd_real))) return false; for (int j = 0; j < D; ++j) if (i != j && a->verts[v].finds[i][j] != b->verts[v].finds[i][j]) return false; }
  return true;
}
// ---- the reference polytope: every set of D hyperplanes is tried
static L solve(const std::vector<Pl>& f, const int* id, VK& x) {
  L m[D][D + 1]; for (int i = 0; i < D; ++i) { for (int j = 0; j < D; ++j) m[i][j] = f[id[i]].n[j]; m[i][D] = -f[id[i]].d; } L det = 1;
  for (int c = 0; c < D; ++c) { int p = c; for (int r = c + 1; r < D; ++r) if (fabsl(m[r][c]) > fabsl(m[p][c])) p = r; if (m[p][c] == 0) return 0; if (p != c) for (int k = 0; k <= D; ++k) std::swap(m[p][k], m[c][k]); det *= m[c][c]; for (int r = c + 1; r < D; ++r) { L q = m[r][c] / m[c][c]; for (int k = c; k <= D; ++k) m[r][k] -= q * m[c][k]; } }
  for (int i = D - 1; i >= 0; --i) { L s = m[i][D]; for (int j = i + 1; j < D; ++j) s -= m[i][j] * x[j]; x[i] = s / m[i][i]; }
  return fabsl(det);
}
struct RV { VK x; std::array<int, D> f; };
struct HRef { std::vector<Pl> f; std::vector<RV> v; bool generic = true, dups = false; L mindet = 1; };
static HRef enumerate(const std::vector<Pl>& hs, double R) {
  HRef o; bool empty = false; L band0 = BANDR * R;
  for (auto& h : hs) { bool d = false; for (auto& g : o.f) { bool eq = g.d == h.d, op = g.d == -h.d; for (int k = 0; k < D; ++k) { eq = eq && g.n[k] == h.n[k]; op = op && g.n[k] == -h.n[k]; } if (eq) d = true; if (op) empty = true; } if (d) o.dups = true; else o.f.push_back(h); }
  if (empty) { o.dups = true; return o; }
  int n = (int)o.f.size(); std::array<int, D> id; for (int i = 0; i < D; ++i) id[i] = i; if (n < D) return o;
  for (;;) {
    VK x; L det = solve(o.f, id.data(), x);
    if (det >= 1e-13L) {
      L band = det < DETL ? 1e-6L * R : band0, sl = 1e4000L; bool out = false;
      for (int i = 0; i < n && !out; ++i) { bool in = false; for (int k : id) in = in || k == i; if (in) continue; L s = ref::dot(o.f[i].n, x) + o.f[i].d; sl = std::min(sl, s); if (s < -band) out = true; }
      if (!out) { if (det < DETL || sl < band) o.generic = false; else { o.mindet = std::min(o.mindet, det); o.v.push_back({x, id}); } }
    }
    int k = D - 1; while (k >= 0 && id[k] == n - D + k) --k; if (k < 0) break; ++id[k]; for (int j = k + 1; j < D; ++j) id[j] = id[j - 1] + 1;
  }
  return o;
}
static std::vector<std::vector<int>> edges(const HRef& h) {
  std::vector<std::vector<int>> e(h.v.size());
  for (size_t i = 0; i < h.v.size(); ++i) for (size_t j = i + 1; j < h.v.size(); ++j) { int s = 0; for (int a : h.v[i].f) for (int b : h.v[j].f) s += a == b; if (s == D - 1) { e[i].push_back((int)j); e[j].push_back((int)i); } }
  return e;
}
static int faces2(const HRef& h) { std::set<std::vector<int>> s; for (auto& v : h.v) for (int i = 0; i < D; ++i) for (int j = i + 1; j < D; ++j) { std::vector<int> t; for (int k = 0; k < D; ++k) if (k != i && k != j) t.push_back(v.f[k]); s.insert(t); } return (int)s.size(); }
// rounding unit of the flag sum; < 0 when the reference is not simple
static void flags(const HRef& h, const std::vector<int>& e, int v, int d, unsigned used, VK* q, L k, L R, double& tot, bool& bad) {
  if (d == D) { tot += (double)k; return; }
  for (int i = 0; i < D; ++i) if (!(used >> i & 1)) { q[d] = h.v[v].x - h.v[e[i]].x; for (int j = 0; j < d; ++j) q[d] = q[d] - ref::dot(q[d], q[j]) * q[j]; L l = ref::norm(q[d]); if (l == 0) { bad = true; return; } q[d] = (1 / l) * q[d]; flags(h, e, v, d + 1, used | 1u << i, q, k + R / l, R, tot, bad); }
}
static double volunit(const HRef& h) {
  auto e = edges(h); double tot = 0, f = 1; for (int i = 2; i <= D; ++i) f *= i;
  for (size_t v = 0; v < h.v.size(); ++v) { if ((int)e[v].size() != D) return -1; L R = ref::norm(h.v[v].x); for (int a : e[v]) R = std::max(R, ref::norm(h.v[a].x - h.v[v].x)); double t = 0; bool bad = false; VK q[D]; flags(h, e[v], (int)v, 0, 0, q, 1, R, t, bad); if (bad) return -1; tot += t * pow((double)R, D) / f; }
  return tot * EPS / std::max(1e-3, (double)h.mindet);
}
static std::string topo(const rNd_poly* p, int* ncomp = nullptr, int* nface2 = nullptr) {
  int n = p->nverts; if (n < 0 || n > MAXV) return fmt("nverts = %d out of range", n);
  for (int v = 0; v < n; ++v) for (int k = 0; k < D; ++k) { int u = p->verts[v].pnbrs[k]; if (u < 0 || u >= n) return fmt("vertex %d neighbour %d out of range (nverts %d)", v, u, n); if (u == v) return fmt("vertex %d is its own neighbour", v); for (int j = 0; j < k; ++j) if (p->verts[v].pnbrs[j] == u) return fmt("vertex %d lists neighbour %d twice", v, u); if (!std::isfinite(p->verts[v].pos.xyz[k])) return fmt("vertex %d has a non-finite coordinate", v); }
  auto slot = [&](int v, int u) { for (int k = 0; k < D; ++k) if (p->verts[v].pnbrs[k] == u) return k; return -1; };
  for (int v = 0; v < n; ++v) for (int k = 0; k < D; ++k) if (slot(p->verts[v].pnbrs[k], v) < 0) return fmt("link %d->%d is not answered by a link back", v, p->verts[v].pnbrs[k]);
  for (int v = 0; v < n; ++v) { std::set<int> ids; for (int i = 0; i < D; ++i) for (int j = i + 1; j < D; ++j) { int f = p->verts[v].finds[i][j]; if (f < 0 || f >= p->nfaces) return fmt("vertex %d: 2-face id %d out of range (nfaces %d)", v, f, p->nfaces); if (p->verts[v].finds[j][i] != f) return fmt("vertex %d: 2-face table is not symmetric", v); if (!ids.insert(f).second) return fmt("vertex %d: 2-face id %d is used for two faces", v, f); } }
  std::vector<std::array<char, D * D>> seen(n); for (auto& s : seen) s.fill(0); int cyc = 0;
  for (int v = 0; v < n; ++v) for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) if (i != j && !seen[v][i * D + j]) {
    int f = p->verts[v].finds[i][j], cv = v, in = i, out = j, len = 0; ++cyc;
    for (;;) {
      if (seen[cv][in * D + out]) return fmt("2-face %d at vertex %d does not close into a cycle", f, v); seen[cv][in * D + out] = seen[cv][out * D + in] = 1; ++len;
      int u = p->verts[cv].pnbrs[out], b = slot(u, cv), nx = -1; for (int k = 0; k < D; ++k) if (k != b && p->verts[u].finds[b][k] == f) nx = k; if (nx < 0) return fmt("2-face %d leaves vertex %d towards %d, which does not know it on that edge", f, cv, u);
      cv = u; in = b; out = nx; if (cv == v && in == i && out == j) break; if (len > n) return fmt("2-face %d at vertex %d never closes", f, v);
    }
    if (len < 3) return fmt("2-face %d has %d vertices", f, len);
  }
  if (nface2) *nface2 = cyc;
  if (ncomp) { *ncomp = 0; std::vector<char> s(n, 0); for (int v = 0; v < n; ++v) if (!s[v]) { ++*ncomp; std::vector<int> st{v}; s[v] = 1; while (!st.empty()) { int u = st.back(); st.pop_back(); for (int k = 0; k < D; ++k) { int w = p->verts[u].pnbrs[k]; if (!s[w]) { s[w] = 1; st.push_back(w); } } } } }
  return "";
}
// some half-space leaves the whole cell out by more than the band
static bool apart(const std::vector<Pl>& hs, const int* id, const double* d, L band) { for (auto& h : hs) { L m = h.d; for (int k = 0; k < D; ++k) m += h.n[k] * (L)(d[k] * (h.n[k] > 0 ? id[k] + 1 : id[k])); if (m < -band) return true; } return false; }
// ---- bodies
struct Body { bool box; rNd_rvec b[2], v[D + 1]; std::vector<VK> pts; std::vector<Pl> h; double R = 0, r = 0; std::string kind; };
static VK normal(const std::vector<VK>& q) { // of the hyperplane through D points
  VK n; for (int k = 0; k < D; ++k) { std::array<std::array<L, D - 1>, D - 1> m; for (int i = 0; i < D - 1; ++i) for (int j = 0, c = 0; j < D; ++j) if (j != k) m[i][c++] = q[i + 1][j] - q[0][j]; n[k] = (k % 2 ? -1 : 1) * ref::det<D - 1>(m); } return n;
}
static Body gen(Ctx& c, bool wantbox, int straddle = D) { // at most `straddle` axes on which the body may lie on both sides of zero
  Body b; b.box = wantbox; bool lat = c.chance(1, 2); double sc = c.chance(1, 8) ? ldexp(1, c.sym(30)) : 1, off[D]; for (double& x : off) x = 0; if (c.chance(1, 5)) for (double& x : off) x = c.uni(-3, 3);
  for (int k = straddle; k < D; ++k) off[k] = (lat ? 4 : 1) + c.unit();
  if (!b.box) {
    for (int t = 0;; ++t) { b.pts.clear(); for (int i = 0; i <= D; ++i) { VK v; for (int k = 0; k < D; ++k) v[k] = t > 6 ? (i == k + 1) : lat ? (L)c.sym(2) : (L)c.uni(-1, 1); b.pts.push_back(v); } if (fabsl(ref::sdet<D>(b.pts.data())) > (lat ? 0.5L : 0.05L)) break; }
    for (int i = 0; i <= D; ++i) for (int k = 0; k < D; ++k) b.pts[i][k] = b.v[i].xyz[k] = sc * ((double)b.pts[i][k] + off[k]);
    b.kind = lat ? "lattice simplex" : "simplex";
    for (int i = 0; i <= D; ++i) { std::vector<VK> q; for (int j = 0; j <= D; ++j) if (j != i) q.push_back(b.pts[j]); Pl p; p.n = unitv(normal(q)); p.d = 0; for (auto& x : q) p.d -= ref::dot(p.n, x) / D; if (ref::dot(p.n, b.pts[i]) + p.d < 0) { p.n = -1 * p.n; p.d = -p.d; } b.h.push_back(p); }
  } else {
    for (int k = 0; k < D; ++k) { double a = lat ? c.sym(3) : c.uni(-1, 1), w = lat ? 1 + (double)c.raw(3) : 0.2 + c.unit(); b.b[0].xyz[k] = sc * (a + off[k]); b.b[1].xyz[k] = sc * (a + w + off[k]); }
    for (int v = 0; v < 1 << D; ++v) { VK x; for (int k = 0; k < D; ++k) x[k] = b.b[v >> k & 1].xyz[k]; b.pts.push_back(x); } b.kind = lat ? "lattice box" : "box";
    for (int k = 0; k < D; ++k) for (int s = 0; s < 2; ++s) { Pl p; p.n = zero(); p.n[k] = s ? -1 : 1; p.d = s ? (L)b.b[1].xyz[k] : -(L)b.b[0].xyz[k]; b.h.push_back(p); }
  }
  double lo[D], hi[D]; for (int k = 0; k < D; ++k) { lo[k] = 1e300; hi[k] = -1e300; } for (auto& p : b.pts) for (int k = 0; k < D; ++k) { b.R = std::max(b.R, fabs((double)p[k])); lo[k] = std::min(lo[k], (double)p[k]); hi[k] = std::max(hi[k], (double)p[k]); } for (int k = 0; k < D; ++k) b.r = std::max(b.r, hi[k] - lo[k]);
  c.note("%s in %d dimensions", b.kind.c_str(), D); if (b.box) { c.note("  from %s to %s", vstr(tov(b.b[0])).c_str(), vstr(tov(b.b[1])).c_str()); } else for (auto& p : b.pts) c.note("  %s", vstr(p).c_str());
  return b;
}
static std::vector<Sx> decompose(const Body& b) {
  std::vector<Sx> o; if (!b.box) { auto s = ref::make<D>(b.pts.data()); s.w = fabsl(s.w); return {s}; }
  int pm[D]; for (int i = 0; i < D; ++i) pm[i] = i; do { VK w[D + 1]; int m = 0; w[0] = b.pts[0]; for (int i = 0; i < D; ++i) { m |= 1 << pm[i]; w[i + 1] = b.pts[m]; } auto s = ref::make<D>(w); s.w = fabsl(s.w); o.push_back(s); } while (std::next_permutation(pm, pm + D));
  return o;
}
static L vol(const std::vector<Sx>& s) { L f = 1, e = 0; for (int i = 2; i <= D; ++i) f *= i; for (auto& t : s) e += t.w; return e / f; }
static Poly make(Ctx& c, const Body& b) {
  Poly p = newpoly(c.raw(200));
  if (b.box) { pbt::Exact<rNd_rvec> x(b.b, 2); rNd_init_box(p.get(), x); CHECK(c, x.same(), "bounds changed"); } else { pbt::Exact<rNd_rvec> x(b.v, D + 1); rNd_init_simplex(p.get(), x); CHECK(c, x.same(), "vertices changed"); }
  return p;
}
static VK rdir(Ctx& c) { VK n = zero(); n[0] = 1; for (int t = 0; t < 8; ++t) { VK q; for (int k = 0; k < D; ++k) q[k] = c.uni(-1, 1); L l = ref::norm(q); if (l > 0.2L) return (1 / l) * q; } return n; }
static rNd_plane genplane(Ctx& c, const std::vector<VK>& pts, double R, double r, const std::vector<rNd_plane>& prev, const char** kind, bool inner = false) {
  auto pt = [&]() -> const VK& { return pts[c.raw(pts.size())]; };
  auto thru = [&](const VK& n0, const VK& q) { rNd_plane p = mkplane(n0, 0); L d = 0; for (int k = 0; k < D; ++k) d -= (L)p.n.xyz[k] * q[k]; p.d = (double)d; return p; };
  auto axis = [&](L x, int k) { VK n = zero(); n[k] = c.chance(1, 2) ? -1 : 1; return mkplane(n, -n[k] * x); };
  switch (inner ? 0 : c.weighted({8, 3, 2, 2, 1, 1, prev.empty() ? 0 : 1})) {
    case 0: { VK m = zero(); L s = 0; for (int i = 0; i < D; ++i) { L w = 0.05L + c.unit(); m = m + w * pt(); s += w; } *kind = "interior"; return thru(rdir(c), (1 / s) * m); }
    case 1: { int k = (int)c.raw(D); L a = pt()[k], b = pt()[k]; *kind = "axis"; return axis((double)(a + (b - a) * c.unit()), k); }
    case 2: { int k = (int)c.raw(D); *kind = "axis@vertex"; return axis(pt()[k], k); }
    case 3: *kind = "thru-vertex"; return thru(rdir(c), pt());
    case 4: { VK n = rdir(c); L m = 1e300L; for (auto& q : pts) m = std::min(m, ref::dot(n, q)); *kind = "keeps-all"; return mkplane(n, -m + r * c.uni(0.01, 2)); }
    case 5: { VK n = rdir(c); L m = -1e300L; for (auto& q : pts) m = std::max(m, ref::dot(n, q)); *kind = "drops-all"; return mkplane(n, -m - r * c.uni(0.01, 2)); }
    default: { rNd_plane p = prev[c.raw(prev.size())]; if (c.chance(1, 2)) p.d += c.sym(4) * EPS * R; *kind = "repeat"; return p; }
  }
}
static bool clear(const rNd_poly* p, const rNd_plane& h, double mg) {
  int near = 0, nz = 0; bool exact = true; for (int k = 0; k < D; ++k) if (h.n.xyz[k] != 0) { ++nz; if (fabs(h.n.xyz[k]) != 1) exact = false; } exact = exact && nz == 1;
  for (int v = 0; v < p->nverts; ++v) { L s = ref::dot(tov(h.n), tov(p->verts[v].pos)) + h.d; if (fabsl(s) < mg) { ++near; if (s != 0) exact = false; } }
  return near <= 1 || exact;
}
static void describe(Ctx& c, const rNd_plane& p, const char* k) { if (c.wantdesc) c.note(" plane(%s) n = %s d = %.17g", k, vstr(tov(p.n)).c_str(), (double)p.d); }
static std::vector<Pl> allplanes(const Body& b, const std::vector<rNd_plane>& ps) { auto h = b.h; for (auto& p : ps) h.push_back(tov(p)); return h; }
static void against(Ctx& c, const char* what, const rNd_poly* p, const HRef& h, double R) {
  double tol = 2e3 * EPS * R / 1e-4, sub = EPS * R / std::max((double)DETL, (double)h.mindet);
  for (int v = 0; v < p->nverts; ++v) { VK x = tov(p->verts[v].pos); for (auto& q : h.f) { L s = ref::dot(q.n, x) + q.d; c.measure("outside/(eps R)", (double)-s / (EPS * R)); CHECK(c, s >= -1024 * EPS * R, "%s: vertex %d %s lies %.3Lg outside a half-space", what, v, vstr(x).c_str(), -s); } }
  for (auto& q : h.v) { L best = 1e4000L; for (int v = 0; v < p->nverts; ++v) best = std::min(best, ref::norm(tov(p->verts[v].pos) - q.x)); if (best < 1e300L) c.measure("vertex error/unit", (double)best / sub); CHECK(c, best <= tol, "%s: true vertex %s is missing (nearest at %.3Lg)", what, vstr(q.x).c_str(), best); }
  if (!h.generic || h.dups) return;
  CHECK(c, p->nverts == (int)h.v.size(), "%s: %d vertices, the intersection has %zu", what, p->nverts, h.v.size());
  for (int v = 0; v < p->nverts; ++v) { L best = 1e4000L; for (auto& q : h.v) best = std::min(best, ref::norm(tov(p->verts[v].pos) - q.x)); CHECK(c, best <= tol, "%s: vertex %d %s is not a vertex of the intersection", what, v, vstr(tov(p->verts[v].pos)).c_str()); }
}
static void graphmatch(Ctx& c, const rNd_poly* p, const HRef& h) {
  if (h.v.empty()) return; auto e = edges(h); std::vector<int> m(p->nverts);
  for (int v = 0; v < p->nverts; ++v) { L best = 1e4000L; for (size_t q = 0; q < h.v.size(); ++q) { L d = ref::norm(tov(p->verts[v].pos) - h.v[q].x); if (d < best) { best = d; m[v] = (int)q; } } }
  std::vector<int> s = m; std::sort(s.begin(), s.end()); if (std::unique(s.begin(), s.end()) != s.end()) return;
  for (int v = 0; v < p->nverts; ++v) for (int k = 0; k < D; ++k) { int u = m[p->verts[v].pnbrs[k]]; CHECK(c, std::find(e[m[v]].begin(), e[m[v]].end(), u) != e[m[v]].end(), "vertices %d and %d are linked but share no edge of the polytope", v, p->verts[v].pnbrs[k]); }
}
static int goodlimit() { return D == 3 ? 60 : D == 5 ? 18 : 14; }
PROPERTY(c31_clip, "C31/clip", 3000, "some plane really cuts the polytope") {
  Body b = gen(c, c.chance(1, 2)); Poly p = make(c, b); std::vector<rNd_plane> ps; int m = c.range(1, D > 5 ? 3 : D > 4 ? 4 : 8); auto pts = b.pts; double R = b.R + b.r, mg = 64 * EPS * R; bool inner = c.chance(1, 3);
  std::string e = topo(p.get()); CHECK(c, e.empty(), "start: %s", e.c_str());
  for (int i = 0; i < m; ++i) {
    const char* k = ""; rNd_plane h = genplane(c, pts, b.R, b.r, ps, &k, inner); if (!clear(p.get(), h, mg)) { c.label("left out: several vertices on the plane"); continue; } describe(c, h, k); c.label(k); int before = p->nverts; double lo = 1e300, hi = -1e300; for (int v = 0; v < before; ++v) { double s = (double)(ref::dot(tov(h.n), tov(p->verts[v].pos)) + h.d); lo = std::min(lo, s); hi = std::max(hi, s); }
    if (before * D > MAXV) break; ps.push_back(h); Poly old = dup(p); pbt::dirty_stack(i); rNd_plane g = h; rNd_clip(p.get(), &g, 1); CHECK(c, memcmp(&g, &h, sizeof g) == 0, "rNd_clip changed the plane"); CHECK(c, before > 0 || p->nverts == 0, "clipping an empty polytope gives %d vertices", p->nverts);
    if (before && lo > mg) CHECK(c, same(p.get(), old.get()), "a plane that cuts nothing changed the polytope"); if (before && hi < -mg) CHECK(c, p->nverts == 0, "a plane beyond the polytope leaves %d vertices", p->nverts); if (before && lo < -mg && hi > mg) c.nontrivial();
    e = topo(p.get()); CHECK(c, e.empty(), "after plane %d: %s", i, e.c_str()); if (p->nverts) { pts.clear(); for (int v = 0; v < p->nverts; ++v) pts.push_back(tov(p->verts[v].pos)); }
  }
  HRef h = enumerate(allplanes(b, ps), R); against(c, "clip", p.get(), h, R); c.label(h.generic ? (h.v.empty() ? "generic, empty result" : "generic result") : "degenerate"); c.measure("result vertices", p->nverts);
  if (h.generic && !h.dups && p->nverts) { int nc, f2, want = faces2(h); topo(p.get(), &nc, &f2); CHECK(c, nc == 1, "the result falls into %d components", nc); CHECK(c, f2 == want, "the result has %d 2-faces, the intersection has %d", f2, want); graphmatch(c, p.get(), h); if (p->nverts <= goodlimit()) CHECK(c, rNd_is_good(p.get()) == 1, "rNd_is_good rejects the result"); }
  Poly q = make(c, b); auto copy = ps; bool ok = true; if (c.chance(1, 2)) { for (size_t i = ps.size(); i > 1; --i) std::swap(copy[i - 1], copy[c.raw(i)]); Poly t = make(c, b); for (auto& g : copy) { ok = ok && clear(t.get(), g, mg); if (!ok) break; rNd_plane k = g; rNd_clip(t.get(), &k, 1); } if (ok) c.label("another order"); }
  if (ok) { auto keep = copy; rNd_clip(q.get(), copy.data(), (int)copy.size()); CHECK(c, memcmp(copy.data(), keep.data(), keep.size() * sizeof(rNd_plane)) == 0, "rNd_clip changed the planes"); e = topo(q.get()); CHECK(c, e.empty(), "all planes at once: %s", e.c_str()); against(c, "all planes at once", q.get(), h, R); }
}
static const double CV = D == 3 ? 1 : D == 5 ? 0.02 : 0.01;
static Poly relabel(Ctx& c, const rNd_poly* a) {
  Poly p = newpoly(3); int n = a->nverts; p->nverts = n; p->nfaces = a->nfaces; std::vector<int> pm(n); for (int i = 0; i < n; ++i) pm[i] = i; for (int i = n - 1; i > 0; --i) std::swap(pm[i], pm[c.raw(i + 1)]);
  for (int v = 0; v < n; ++v) { int s[D]; for (int i = 0; i < D; ++i) s[i] = i; for (int i = D - 1; i > 0; --i) std::swap(s[i], s[c.raw(i + 1)]); auto& t = p->verts[pm[v]]; t.pos = a->verts[v].pos; for (int i = 0; i < D; ++i) { t.pnbrs[s[i]] = pm[a->verts[v].pnbrs[i]]; for (int j = 0; j < D; ++j) t.finds[s[i]][s[j]] = a->verts[v].finds[i][j]; } }
  return p;
}
PROPERTY(c31_volume, "C31/volume", 1500, "the polytope was clipped and is nondegenerate") {
  Body b = gen(c, c.chance(1, D > 5 ? 6 : 2)); Poly p = make(c, b); std::vector<rNd_plane> ps; int m = (int)c.raw(D > 5 ? (b.box ? 2 : 3) : D > 4 ? (b.box ? 2 : 4) : 5); double R = b.R + b.r;
  for (int i = 0; i < m; ++i) { const char* k; ps.push_back(genplane(c, b.pts, b.R, b.r, ps, &k, c.chance(1, 2))); describe(c, ps.back(), k); }
  auto cp = ps; rNd_clip(p.get(), cp.data(), (int)cp.size()); if (p->nverts == 0) { rNd_real v = 7; rNd_reduce(p.get(), &v, 0); CHECK(c, v == 0, "an empty polytope has volume %g", (double)v); c.label("empty"); return; }
  HRef h = enumerate(allplanes(b, ps), R); if (!h.generic || h.dups || h.v.empty()) { c.label("degenerate, skipped"); throw pbt::Discard(); } double u = volunit(h); if (!(u > 0)) throw pbt::Discard();
  auto sx = decompose(b); for (auto& q : ps) sx = ref::clip<D>(sx, tov(q)); L e = vol(sx); if (m) c.nontrivial();
  std::vector<rNd_real> buf(4, -3.5); Poly keep = dup(p); pbt::dirty_stack(m + 9); rNd_reduce(p.get(), &buf[1], 0); CHECK(c, same(p.get(), keep.get()), "rNd_reduce changed the polytope"); CHECK(c, buf[0] == -3.5 && buf[2] == -3.5 && buf[3] == -3.5, "rNd_reduce wrote outside the moment"); L err = fabsl(e - buf[1]); c.measure("volume err/unit", (double)err / u); c.label((double)e > 1e5 * u ? "well conditioned" : "ill conditioned");
  CHECK(c, err <= CV * u, "volume %.17g, reference %.17Lg (error %.3Lg, unit %.3g)", (double)buf[1], e, err, u);
  Poly q = relabel(c, p.get()); rNd_real v2; rNd_reduce(q.get(), &v2, 0); CHECK(c, fabsl(e - v2) <= CV * u, "volume after renumbering the vertices is %.17g, reference %.17Lg", (double)v2, e);
}
static void spacing(Ctx& c, const Body& b, int maxcells, double* d, int* lo, int* hi, int multi = D) { int ax[D]; for (int k = 0; k < D; ++k) ax[k] = k; if (multi < D) for (int i = D - 1; i > 0; --i) std::swap(ax[i], ax[c.raw(i + 1)]);
  // random spacing, at most maxcells cells
  int tot = 1; for (int z = 0; z < D; ++z) { int k = ax[z]; double a = 1e300, e = -1e300; for (auto& p : b.pts) { a = std::min(a, (double)p[k]); e = std::max(e, (double)p[k]); } if (z >= multi && a > 0) { d[k] = e * c.uni(1.01, 2); if (c.chance(1, 3)) d[k] = ldexp(1, (int)ceil(log2(e))); lo[k] = 0; hi[k] = 1; continue; } int want = 1 + (int)c.raw(std::min(4, std::max(1, maxcells / tot))); d[k] = (e - a) / want * c.uni(0.9, 1.5); if (c.chance(1, 4)) d[k] = ldexp(1, (int)ceil(log2((e - a) / want))); lo[k] = (int)floor(a / d[k]); hi[k] = (int)ceil(e / d[k]); if (hi[k] <= lo[k]) hi[k] = lo[k] + 1; tot *= hi[k] - lo[k]; }
}
PROPERTY(c31_vox, "C31/voxels", 250, "the polytope meets two cells or more in general position") {
  Body b = gen(c, D < 5 ? c.chance(1, 2) : D == 5 && c.chance(1, 12), D < 5 ? D : 1); Poly p = make(c, b); auto hs = b.h; auto sx = decompose(b); double R = b.R + b.r;
  if (!(b.box && D > 4) && c.chance(1, 2)) { const char* k; rNd_plane g = genplane(c, b.pts, b.R, b.r, {}, &k, true); describe(c, g, k); rNd_clip(p.get(), &g, 1); hs.push_back(tov(g)); sx = ref::clip<D>(sx, tov(g)); }
  double d[D]; int lo[D], hi[D]; spacing(c, b, D == 3 ? 60 : D == 5 ? b.box ? 2 : 12 : 6, d, lo, hi, D == 3 ? 3 : b.box ? 1 : 2); for (int k = 0; k < D; ++k) { if (b.box && D > 4) continue; if (c.chance(1, 8)) --lo[k]; else if (c.chance(1, 8)) ++hi[k]; } long tot = 1; for (int k = 0; k < D; ++k) { tot *= hi[k] - lo[k]; R = std::max(R, std::max(fabs(lo[k] * d[k]), fabs(hi[k] * d[k]))); c.note("axis %d: spacing %.17g cells %d..%d", k, d[k], lo[k], hi[k]); }
  if (tot > (D == 3 ? 240 : D == 5 ? b.box ? 8 : 40 : 24) || p->nverts == 0) { c.label("too many cells"); throw pbt::Discard(); }
  for (int v = 0; v < p->nverts; ++v) for (int k = 0; k < D; ++k) for (int i = lo[k] + 1; i < hi[k]; ++i) if (fabs(p->verts[v].pos.xyz[k] - d[k] * i) < (double)BANDR * R) throw pbt::Discard();
  struct Cell { L e; double u; }; std::vector<Cell> cells; bool ok = true; int met = 0;
  ref::cells<D>(sx, lo, hi, d, [&](const int* id, const std::vector<Sx>& s) {
    Cell z{vol(s), 0}; if (!ok || s.empty() && apart(hs, id, d, 4 * BANDR * R)) { cells.push_back(z); return; } auto f = hs; for (int k = 0; k < D; ++k) for (int q = 0; q < 2; ++q) { Pl g; g.n = zero(); g.n[k] = q ? -1 : 1; g.d = q ? (L)(d[k] * (id[k] + 1)) : -(L)(d[k] * id[k]); bool cut = false; for (auto& x : b.pts) if (ref::dot(g.n, x) + g.d < (double)BANDR * R) cut = true; if (cut) f.push_back(g); }
    HRef h = enumerate(f, R); if (!h.generic || s.empty() && !h.v.empty()) ok = false; else if (!h.v.empty()) { z.u = volunit(h); if (!(z.u > 0)) ok = false; ++met; } else z.e = 0; cells.push_back(z);
  });
  if (!ok) { c.label("not in general position"); throw pbt::Discard(); } if (met > 1) c.nontrivial();
  const int G = 16; std::vector<rNd_real> g(tot + 2 * G), g0; for (size_t i = 0; i < g.size(); ++i) g[i] = i < (size_t)G || i >= g.size() - G ? -7.25 : c.chance(1, 2) ? 0.0 : 1.0; double base = 0; g0 = g; rNd_dvec ib[2], ib0[2]; rNd_rvec dd; for (int k = 0; k < D; ++k) { ib[0].ijk[k] = lo[k]; ib[1].ijk[k] = hi[k]; dd.xyz[k] = d[k]; } memcpy(ib0, ib, sizeof ib); Poly keep = dup(p); (void)base;
  pbt::dirty_stack(tot); rNd_voxelize(p.get(), ib, g.data() + G, dd, 0); CHECK(c, memcmp(ib, ib0, sizeof ib) == 0, "the index box was changed"); CHECK(c, same(p.get(), keep.get()), "the polytope was changed");
  for (int i = 0; i < G; ++i) CHECK(c, g[i] == -7.25 && g[g.size() - 1 - i] == -7.25, "memory outside the grid was written");
  for (long i = 0; i < tot; ++i) { double got = g[G + i], u = cells[i].u + EPS * 2; if (cells[i].u == 0) { CHECK(c, got == g0[G + i], "cell %ld does not meet the polytope, but was changed by %g", i, got - g0[G + i]); continue; } L err = fabsl((L)got - g0[G + i] - cells[i].e); c.measure("cell err/unit", (double)err / u); CHECK(c, err <= 2 * u, "cell %ld: %.17g added, reference %.17Lg (unit %.3g)", i, got - g0[G + i], cells[i].e, u); }
}
PROPERTY(c31_box, "C31/index-boxes", 2500, "the clamp range cuts the polytope's index box") {
  Body b = gen(c, c.chance(1, 2)); Poly p = make(c, b), orig = dup(p); double d[D]; int lo[D], hi[D]; spacing(c, b, 300, d, lo, hi); rNd_rvec dd; for (int k = 0; k < D; ++k) dd.xyz[k] = d[k]; rNd_dvec ib[2], cb[2], cb0[2]; pbt::dirty_stack(5); rNd_get_ibox(p.get(), ib, dd); CHECK(c, same(p.get(), orig.get()), "rNd_get_ibox changed the polytope");
  for (int k = 0; k < D; ++k) { double a = 1e300, e = -1e300; for (auto& q : b.pts) { a = std::min(a, (double)q[k]); e = std::max(e, (double)q[k]); } CHECK(c, ref::okfloor(a, d[k], ib[0].ijk[k], EPS) && ref::okceil(e, d[k], ib[1].ijk[k], EPS), "axis %d: index box %d..%d, but the polytope spans %.17g..%.17g at spacing %.17g", k, ib[0].ijk[k], ib[1].ijk[k], a, e, d[k]); }
  bool disjoint = false, cut = false; auto hs = b.h; double R = b.R + b.r; bool every = c.chance(1, 8); int left = D > 4 ? 3 : 2 * D;
  for (int k = 0; k < D; ++k) {
    int x = ib[0].ijk[k], y = ib[1].ijk[k], n = std::max(1, y - x); int w = every ? 3 : c.weighted({6, 2, 2, 1, c.chance(1, 6) ? 1 : 0, c.chance(1, 6) ? 1 : 0}); if (left <= 0 && w >= 1 && w <= 3 && !every) w = 0; if (w) --left;
    switch (w) { case 0: cb[0].ijk[k] = x - (int)c.raw(3); cb[1].ijk[k] = y + (int)c.raw(3); break; case 1: cb[0].ijk[k] = x + (int)c.raw(n); cb[1].ijk[k] = y + (int)c.raw(3); break; case 2: cb[0].ijk[k] = x - (int)c.raw(3); cb[1].ijk[k] = y - (int)c.raw(n); break; case 3: cb[0].ijk[k] = x + (int)c.raw(n); cb[1].ijk[k] = cb[0].ijk[k] + 1 + (int)c.raw(std::max(1, y - cb[0].ijk[k] - 1)); break; case 4: cb[0].ijk[k] = y + (int)c.raw(2); cb[1].ijk[k] = cb[0].ijk[k] + c.range(1, 3); break; default: cb[1].ijk[k] = x - (int)c.raw(2); cb[0].ijk[k] = cb[1].ijk[k] - c.range(1, 3); }
    if (y <= cb[0].ijk[k] || x >= cb[1].ijk[k]) disjoint = true; lo[k] = std::max(x, cb[0].ijk[k]); hi[k] = std::min(y, cb[1].ijk[k]); if (lo[k] != x || hi[k] != y) cut = true; c.note("axis %d: spacing %.17g index %d..%d clamp %d..%d", k, d[k], x, y, cb[0].ijk[k], cb[1].ijk[k]);
    for (int q = 0; q < 2; ++q) if (q ? hi[k] != y : lo[k] != x) { Pl g; g.n = zero(); g.n[k] = q ? -1 : 1; g.d = q ? (L)(d[k] * hi[k]) : -(L)(d[k] * lo[k]); hs.push_back(g); }
  }
  if (cut) c.nontrivial(); if (D > 4 && p->nverts * D > MAXV) throw pbt::Discard(); memcpy(cb0, cb, sizeof cb); pbt::dirty_stack(77); rNd_clamp_ibox(p.get(), ib, cb, dd); CHECK(c, memcmp(cb, cb0, sizeof cb) == 0, "the clamp range was changed");
  if (disjoint) { c.label("disjoint"); CHECK(c, p->nverts == 0, "disjoint clamp range leaves %d vertices", p->nverts); for (int k = 0; k < D; ++k) CHECK(c, ib[0].ijk[k] == 0 && ib[1].ijk[k] == 0, "disjoint clamp range leaves a nonzero index box"); return; }
  for (int k = 0; k < D; ++k) CHECK(c, ib[0].ijk[k] == lo[k] && ib[1].ijk[k] == hi[k], "axis %d: index box %d..%d, expected %d..%d", k, ib[0].ijk[k], ib[1].ijk[k], lo[k], hi[k]);
  if (!cut) { CHECK(c, same(p.get(), orig.get()), "clamping to a larger range changed the polytope"); c.label("nothing to clamp"); return; }
  if (hs.size() > (D == 5 ? 17u : D == 6 ? 16u : 99u)) { c.label("many planes: ranges only"); return; }
  HRef h = enumerate(hs, R); c.label(h.generic && !h.dups ? "generic" : "degenerate"); if (!h.generic || h.dups) return; std::string t = topo(p.get()); CHECK(c, t.empty(), "%s", t.c_str()); against(c, "clamp", p.get(), h, R);
}
static L choose(int n, int k) { L r = 1; for (int i = 0; i < k; ++i) r = r * (n - i) / (i + 1); return r; }
PROPERTY(c31_init, "C31/init", 1500, "always: every case initialises a simplex or a box") {
  Body b = gen(c, c.chance(1, 2)); c.nontrivial(); pbt::dirty_stack(c.raw(1000)); Poly p = make(c, b); int n = b.box ? 1 << D : D + 1; CHECK(c, p->nverts == n, "%d vertices, expected %d", p->nverts, n); int nc, f2; std::string e = topo(p.get(), &nc, &f2); CHECK(c, e.empty(), "%s", e.c_str()); int want = b.box ? (int)(choose(D, 2) * (1 << (D - 2)) + 0.5) : (int)(choose(D + 1, 3) + 0.5); CHECK(c, nc == 1 && f2 == want, "%d components, %d 2-faces (expected %d)", nc, f2, want); if (n <= 32) CHECK(c, rNd_is_good(p.get()) == 1, "rNd_is_good rejects it");
  std::vector<char> used(n, 0); std::vector<int> m(n, -1);
  for (int v = 0; v < n; ++v) { for (int q = 0; q < n && m[v] < 0; ++q) if (!used[q]) { bool eq = true; for (int k = 0; k < D; ++k) eq = eq && (L)p->verts[v].pos.xyz[k] == b.pts[q][k]; if (eq) { used[q] = 1; m[v] = q; } } CHECK(c, m[v] >= 0, "vertex %d %s is not one of the given vertices", v, vstr(tov(p->verts[v].pos)).c_str()); }
  if (b.box) for (int v = 0; v < n; ++v) for (int k = 0; k < D; ++k) CHECK(c, __builtin_popcount(m[v] ^ m[p->verts[v].pnbrs[k]]) == 1, "box vertices %d and %d are linked but not along an axis", v, p->verts[v].pnbrs[k]);
}
PROPERTY(c31_transform, "C31/transform", 3000, "the transformation moves some vertex") {
  Body b = gen(c, c.chance(1, 2)); Poly p = make(c, b); if (c.chance(1, 2)) { const char* k; rNd_plane h = genplane(c, b.pts, b.R, b.r, {}, &k); rNd_clip(p.get(), &h, 1); } double R = b.R;
  Poly o = dup(p); int n = p->nverts; std::vector<VK> e(n); std::vector<L> un(n, (L)EPS * R); const char* what = ""; auto num = [&] { return c.chance(1, 3) ? (double)c.sym(4) : c.chance(1, 6) ? 1 + c.uni(-1, 1) * pow(10, c.uni(-12, -2)) : pbt::wide(c, c.uni(-3, 3)); };
  switch (c.raw(5)) {
    case 0: { what = "translate"; rNd_rvec t; for (int k = 0; k < D; ++k) t.xyz[k] = c.chance(1, 5) ? 0 : R * pbt::wide(c, c.uni(-3, 3)); rNd_translate(p.get(), t); double T = 0; for (int k = 0; k < D; ++k) T = std::max(T, fabs((double)t.xyz[k]) / R); for (int v = 0; v < n; ++v) { e[v] = tov(o->verts[v].pos) + tov(t); un[v] *= 1 + T; } break; }
    case 1: { what = "scale"; rNd_rvec t; for (int k = 0; k < D; ++k) t.xyz[k] = num(); rNd_scale(p.get(), t); L F = 0; for (int k = 0; k < D; ++k) F = std::max(F, fabsl((L)t.xyz[k])); for (int v = 0; v < n; ++v) { for (int k = 0; k < D; ++k) e[v][k] = (L)t.xyz[k] * o->verts[v].pos.xyz[k]; un[v] *= F; } break; }
    case 2: { what = "rotate"; int a = (int)c.raw(D), q = (a + 1 + (int)c.raw(D - 1)) % D; double th = pbt::angle(c); c.note("rotate %.17g in (%d,%d)", th, a, q); rNd_rotate(p.get(), th, a, q); L cs = cosl((L)th), sn = sinl((L)th); for (int v = 0; v < n; ++v) { VK x = tov(o->verts[v].pos); e[v] = x; e[v][a] = cs * x[a] - sn * x[q]; e[v][q] = sn * x[a] + cs * x[q]; un[v] *= 2; } break; }
    case 3: { what = "shear"; int a = (int)c.raw(D), q = (a + 1 + (int)c.raw(D - 1)) % D; double f = num(); c.note("shear %.17g of %d by %d", f, a, q); rNd_shear(p.get(), f, a, q); for (int v = 0; v < n; ++v) { e[v] = tov(o->verts[v].pos); e[v][a] += (L)f * e[v][q]; un[v] *= 1 + fabsl((L)f); } break; }
    default: {
      what = "affine"; bool persp = c.chance(1, 2); rNd_real M[D + 1][D + 1], M0[D + 1][D + 1]; for (int i = 0; i <= D; ++i) for (int j = 0; j <= D; ++j) M[i][j] = c.chance(1, 3) ? (i == j) : c.uni(-2, 2); for (int i = 0; i < D; ++i) M[i][D] = c.uni(-2, 2) * R;
      if (!persp) { for (int j = 0; j < D; ++j) M[D][j] = 0; M[D][D] = c.chance(1, 3) ? c.uni(0.5, 2) : 1; } else { for (int j = 0; j < D; ++j) M[D][j] = c.uni(-0.8, 0.8) / (D * R); M[D][D] = c.uni(1.2, 2); }
      double wf = pbt::wfactor(c); for (int j = 0; j <= D; ++j) M[D][j] *= wf; if (wf < 0) c.label("negative w");
      memcpy(M0, M, sizeof M); rNd_affine(p.get(), M); CHECK(c, memcmp(M, M0, sizeof M) == 0, "rNd_affine changed the matrix");
      for (int v = 0; v < n; ++v) { VK x = tov(o->verts[v].pos); L w = M[D][D], wa = fabsl((L)M[D][D]), mx = 0; for (int j = 0; j < D; ++j) { w += (L)M[D][j] * x[j]; wa += fabsl((L)M[D][j] * x[j]); } for (int i = 0; i < D; ++i) { L s = M[i][D], sa = fabsl((L)M[i][D]); for (int j = 0; j < D; ++j) { s += (L)M[i][j] * x[j]; sa += fabsl((L)M[i][j] * x[j]); } e[v][i] = s / w; mx = std::max(mx, sa / fabsl(w)); } un[v] = (L)EPS * mx * (2 + wa / fabsl(w)); }
    }
  }
  c.label(what); CHECK(c, p->nverts == n && (n == 0 || p->nfaces == o->nfaces), "%s changed the vertex or face count", what);
  for (int v = 0; v < n; ++v) for (int k = 0; k < D; ++k) { CHECK(c, p->verts[v].pnbrs[k] == o->verts[v].pnbrs[k], "%s changed the connectivity of vertex %d", what, v); for (int j = 0; j < D; ++j) CHECK(c, j == k || p->verts[v].finds[k][j] == o->verts[v].finds[k][j], "%s changed the 2-faces of vertex %d", what, v); L err = fabsl(e[v][k] - p->verts[v].pos.xyz[k]); if (e[v][k] != o->verts[v].pos.xyz[k]) c.nontrivial(); if (un[v] > 0) c.measure(fmt("%s err/unit", what), (double)(err / un[v])); CHECK(c, err <= 8 * un[v], "%s: vertex %d component %d is %.17g, expected %.17Lg", what, v, k, (double)p->verts[v].pos.xyz[k], e[v][k]); }
}
PROPERTY(c31_orient, "C31/orient", 8000, "the points span the space") {
  VK p[D + 1]; rNd_rvec q[D + 1]; bool lat = c.chance(1, 2); double sc = c.chance(1, 6) ? ldexp(1, c.sym(30)) : 1, off = c.chance(1, 4) ? c.uni(-1e3, 1e3) : 0, r = 0, f = 1; for (int i = 2; i <= D; ++i) f *= i; for (int i = 0; i <= D; ++i) for (int k = 0; k < D; ++k) p[i][k] = q[i].xyz[k] = sc * ((lat ? c.sym(4) : c.uni(-1, 1)) + off); for (auto& x : p) { c.note("%s", vstr(x).c_str()); for (int k = 0; k < D; ++k) r = std::max(r, (double)fabsl(x[k] - p[0][k])); }
  L e = ref::sdet<D>(p) / f; pbt::Exact<rNd_rvec> xq(q, D + 1); double v = rNd_orient(xq), u = EPS * pow(r, D); CHECK(c, xq.same(), "the points were changed"); if (u > 0) c.measure("orient err/(eps r^D)", (double)fabsl(e - v) / u); CHECK(c, fabsl(e - v) <= 64 * u, "signed volume %.17g, exact %.17Lg", v, e); if (fabsl(e) > 64 * u) { c.nontrivial(); CHECK(c, (v > 0) == (e > 0), "wrong sign"); }
  int a = (int)c.raw(D + 1), b = (a + 1 + (int)c.raw(D)) % (D + 1); std::swap(q[a], q[b]); memcpy(xq.p, q, sizeof q); double w = rNd_orient(xq); CHECK(c, fabs(v + w) <= 128 * 64 * u, "swapping two points gives %.17g instead of %.17g", w, -v);
}
// ---- graphs for the validity check
typedef std::vector<std::vector<int>> Graph;
static Graph complete(int n) { Graph g(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) g[i].push_back(j); return g; }
static Graph prism(const Graph& b) { int n = (int)b.size(); Graph g(2 * n); for (int v = 0; v < n; ++v) for (int s = 0; s < 2; ++s) { for (int u : b[v]) g[s * n + v].push_back(s * n + u); g[s * n + v].push_back((1 - s) * n + v); } return g; }
static Graph block(Ctx& c, int deg, int cap) {
  if (deg == 2) { int n = c.range(3, std::max(3, std::min(cap, 9))); Graph g(n); for (int i = 0; i < n; ++i) g[i] = {(i + 1) % n, (i + n - 1) % n}; return g; }
  if (cap < 2 * deg || c.chance(1, 3)) return complete(deg + 1); return prism(block(c, deg - 1, cap / 2));
}
static bool kconnected(const Graph& g) { // every component stays connected without any D-1 of its vertices
  int n = (int)g.size(), nc = 0; std::vector<int> comp(n, -1);
  for (int v = 0; v < n; ++v) if (comp[v] < 0) { std::vector<int> st{v}; comp[v] = nc; while (!st.empty()) { int u = st.back(); st.pop_back(); for (int w : g[u]) if (comp[w] < 0) { comp[w] = nc; st.push_back(w); } } ++nc; }
  for (int q = 0; q < nc; ++q) {
    std::vector<int> vs; for (int v = 0; v < n; ++v) if (comp[v] == q) vs.push_back(v); int k = (int)vs.size(); std::array<int, D - 1> id; for (int i = 0; i < D - 1; ++i) id[i] = i; if (k < D - 1) continue;
    for (;;) {
      std::vector<char> s(n, 0); for (int i : id) s[vs[i]] = 1; int st0 = -1; for (int v : vs) if (!s[v]) { st0 = v; break; }
      if (st0 >= 0) { std::vector<int> st{st0}; s[st0] = 1; int cnt = D; while (!st.empty()) { int u = st.back(); st.pop_back(); for (int w : g[u]) if (!s[w]) { s[w] = 1; ++cnt; st.push_back(w); } } if (cnt != k) return false; }
      int j = D - 2; while (j >= 0 && id[j] == k - (D - 1) + j) --j; if (j < 0) break; ++id[j]; for (int i = j + 1; i < D - 1; ++i) id[i] = id[i - 1] + 1;
    } }
  return true;
}
static void append(Graph& g, const Graph& h) { int o = (int)g.size(); for (auto a : h) { for (int& x : a) x += o; g.push_back(a); } }
static bool has(const Graph& g, int a, int b) { return std::find(g[a].begin(), g[a].end(), b) != g[a].end(); }
static void rep(Graph& g, int a, int x, int y) { *std::find(g[a].begin(), g[a].end(), x) = y; }
static void swap_edges(Graph& g, int a, int b, int x, int y) { if (a == x || a == y || b == x || b == y || has(g, a, x) || has(g, b, y)) return; rep(g, a, b, x); rep(g, b, a, y); rep(g, x, y, a); rep(g, y, x, b); }
static Poly build(Ctx& c, const Graph& g) {
  Poly p = newpoly(c.raw(200)); int n = (int)g.size(); std::vector<int> pm(n); for (int i = 0; i < n; ++i) pm[i] = i; for (int i = n - 1; i > 0; --i) std::swap(pm[i], pm[c.raw(i + 1)]); p->nverts = n; p->nfaces = 0;
  for (int v = 0; v < n; ++v) { auto a = g[v]; for (int i = D - 1; i > 0; --i) std::swap(a[i], a[c.raw(i + 1)]); for (int k = 0; k < D; ++k) { p->verts[pm[v]].pnbrs[k] = pm[a[k]]; p->verts[pm[v]].pos.xyz[k] = v + k; } }
  if (c.wantdesc) for (int v = 0; v < n && v < 40; ++v) { std::string s; for (int k = 0; k < D; ++k) s += fmt(" %d", p->verts[v].pnbrs[k]); c.note(" %d:%s", v, s.c_str()); }
  return p;
}
PROPERTY(c31_graphs, "C31/validity", 1200, "always: the expected answer is found by removing every set of D-1 vertices") {
  int cap = goodlimit() < 24 ? goodlimit() + 2 : 24; Graph g = block(c, D, cap); c.nontrivial(); int mode = (int)c.raw(4);
  if (mode >= 2 && (int)g.size() + D + 1 <= cap) append(g, block(c, D, cap - (int)g.size())); else if (mode >= 2) append(g, complete(D + 1)); if ((int)g.size() > cap + D + 1) throw pbt::Discard();
  if (mode & 1) for (int i = c.range(1, 5); i > 0; --i) { int a = (int)c.raw(g.size()), x = (int)c.raw(g.size()); swap_edges(g, a, g[a][c.raw(D)], x, g[x][c.raw(D)]); }
  bool want = kconnected(g); Poly p = build(c, g); int n = p->nverts; const char* kn = want ? "valid" : "separable"; 
  if (c.chance(1, 3)) { // broken in a documented way
    want = false; int v = (int)c.raw(n), k = (int)c.raw(D); switch (c.raw(5)) { case 0: p->verts[v].pnbrs[k] = n + (int)c.raw(3); kn = "index too large"; break; case 1: p->verts[v].pnbrs[k] = c.chance(1, 2) ? -1 : INT_MIN; kn = "negative index"; break; case 2: p->verts[v].pnbrs[k] = v; kn = "self-pointing"; break; case 3: p->verts[v].pnbrs[k] = p->verts[v].pnbrs[(k + 1 + c.raw(D - 1)) % D]; kn = "double edge"; break;
      default: { int w = (int)c.raw(n), t = 0; auto bad = [&](int x) { if (x == v) return true; for (int q = 0; q < D; ++q) if (p->verts[v].pnbrs[q] == x) return true; return false; }; while (bad(w) && t++ < n) w = (w + 1) % n; if (bad(w)) throw pbt::Discard(); p->verts[v].pnbrs[k] = w; kn = "wrong number of incoming links"; } } c.note("%s at vertex %d link %d: %d", kn, v, k, p->verts[v].pnbrs[k]); }
  c.label(kn); Poly q = dup(p); for (int v = 0; v < n; ++v) memcpy(q->verts[v].pnbrs, p->verts[v].pnbrs, sizeof p->verts[v].pnbrs); pbt::dirty_stack(n); int rc = rNd_is_good(p.get()); CHECK(c, rc == want, "%s: rNd_is_good returned %d", kn, rc); for (int v = 0; v < n; ++v) CHECK(c, memcmp(p->verts[v].pnbrs, q->verts[v].pnbrs, sizeof p->verts[v].pnbrs) == 0, "rNd_is_good changed the polytope");
}
