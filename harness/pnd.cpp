// Four-dimensional library: clipping, volume, voxelization, transformations, validity (C21-C25).
#include "gen4.hpp"
#include "cells.hpp"
#include <climits>
using namespace g4;
static const double EPS = EPS4;
static const int MAXV = RND_MAX_VERTS;
static std::string vstr(const V4& x) { return fmt("(%.9Lg, %.9Lg, %.9Lg, %.9Lg)", x[0], x[1], x[2], x[3]); }
static std::vector<Pl> allplanes(const Body& b, const std::vector<rNd_plane>& ps) { auto h = b.h; for (auto& p : ps) h.push_back(tov(p)); return h; }

// library vertices against the reference; `generic` also settles their number
static void against(Ctx& c, const char* what, const rNd_poly* p, const HRef& h, double R) {
  double tol = SP4 ? 256 * EPS * R / (double)DETL : 2e3 * EPS * R / 1e-4, sub = EPS * R / std::max((double)DETL, (double)h.mindet);
  for (int v = 0; v < p->nverts; ++v) { V4 x = tov(p->verts[v].pos); for (auto& q : h.f) { L s = ref::dot(q.n, x) + q.d; c.measure("outside/(eps R)", (double)-s / (EPS * R)); CHECK(c, s >= -512 * EPS * R, "%s: vertex %d %s lies %.3Lg outside a half-space", what, v, vstr(x).c_str(), -s); } }
  for (auto& q : h.v) { L best = 1e4000L; for (int v = 0; v < p->nverts; ++v) best = std::min(best, ref::norm(tov(p->verts[v].pos) - q.x)); if (best < 1e300L) c.measure("vertex error/unit", (double)best / sub); CHECK(c, best <= tol, "%s: true vertex %s is missing (nearest at %.3Lg)", what, vstr(q.x).c_str(), best); }
  if (!h.generic || h.dups) return;   // redundant points on the boundary are allowed
  CHECK(c, p->nverts == (int)h.v.size(), "%s: %d vertices, the intersection has %zu", what, p->nverts, h.v.size());
  for (int v = 0; v < p->nverts; ++v) { L best = 1e4000L; for (auto& q : h.v) best = std::min(best, ref::norm(tov(p->verts[v].pos) - q.x)); CHECK(c, best <= tol, "%s: vertex %d %s is not a vertex of the intersection", what, v, vstr(tov(p->verts[v].pos)).c_str()); }
}
static void graphmatch(Ctx& c, const rNd_poly* p, const HRef& h) {
  if (h.v.empty()) return; auto e = edges(h); std::vector<int> m(p->nverts);
  for (int v = 0; v < p->nverts; ++v) { L best = 1e4000L; for (size_t q = 0; q < h.v.size(); ++q) { L d = ref::norm(tov(p->verts[v].pos) - h.v[q].x); if (d < best) { best = d; m[v] = (int)q; } } }
  std::vector<int> s = m; std::sort(s.begin(), s.end()); if (std::unique(s.begin(), s.end()) != s.end()) return;   // vertices too close to tell apart
  for (int v = 0; v < p->nverts; ++v) for (int k = 0; k < 4; ++k) { int u = m[p->verts[v].pnbrs[k]]; CHECK(c, std::find(e[m[v]].begin(), e[m[v]].end(), u) != e[m[v]].end(), "vertices %d and %d are linked but share no edge of the polytope", v, p->verts[v].pnbrs[k]); }
  // vertices of one 2-face share two of the bounding hyperplanes
  for (int v = 0; v < p->nverts; ++v) for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) { int a = p->verts[v].pnbrs[i], b = p->verts[v].pnbrs[j], cm = 0; for (int f : h.v[m[v]].f) cm += std::count(h.v[m[a]].f, h.v[m[a]].f + 4, f) && std::count(h.v[m[b]].f, h.v[m[b]].f + 4, f); CHECK(c, cm == 2, "edges of vertex %d do not span a 2-face", v); }
}
// A plane within rounding of several vertices (other than an axis plane meeting them exactly) is outside
// the property: rounding then decides vertex by vertex, and no choice of signs has to be realizable.
static bool clear(const rNd_poly* p, const rNd_plane& h, double mg) {
  int near = 0, nz = 0; bool exact = true; for (int k = 0; k < 4; ++k) { if (h.n.xyz[k] != 0) { ++nz; if (fabs((double)h.n.xyz[k]) != 1) exact = false; } } exact = exact && nz == 1;
  for (int v = 0; v < p->nverts; ++v) { L s = ref::dot(tov(h.n), tov(p->verts[v].pos)) + h.d; if (fabsl(s) < mg) { ++near; if (s != 0) exact = false; } }
  return near <= 1 || exact;
}
PROPERTY(c21_clip, "C21/intersection", 16000, "some plane really cuts the polytope") {
  Body b = gen(c); describe(c, b); Poly p = make(c, b); std::vector<rNd_plane> ps; int m = c.chance(1, 12) ? c.range(7, 14) : c.range(1, 5); if (c.chance(1, 6)) c.label("long list"); auto pts = b.pts; bool pureint = c.chance(1, 2);
  std::string e = topo(p.get()); CHECK(c, e.empty(), "start: %s", e.c_str()); bool degen = false, mixed = false;
  for (int i = 0; i < m; ++i) {
    std::string k; rNd_plane h; if (pureint) { V4 q{{0, 0, 0, 0}}; L s = 0; for (int t = 0; t < 4; ++t) { L w = 0.05L + c.unit(); q = q + w * pts[c.raw(pts.size())]; s += w; } h = mkplane(rdir(c), 0); L d = 0; for (int t = 0; t < 4; ++t) d -= (L)h.n.xyz[t] * q[t] / s; h.d = (rNd_real)(d + (m > 6 ? 0.2 * b.r : 0)); k = "interior"; } else h = genplane(c, pts, b.R, b.r, ps, &k, 1);
    double mg = 64 * EPS * (b.R + b.r); if (!clear(p.get(), h, mg)) { c.label("left out: several vertices on the plane"); continue; } describe(c, h, k.c_str()); c.label(k); ps.push_back(h); int before = p->nverts; double lo = 1e300, hi = -1e300; for (int v = 0; v < p->nverts; ++v) { double s = (double)(ref::dot(tov(h.n), tov(p->verts[v].pos)) + h.d); lo = std::min(lo, s); hi = std::max(hi, s); }
    if (p->nverts && p->nverts * 4 > MAXV) break; Poly old = dup(p); pbt::dirty_stack(i); rNd_plane g = h; rNd_clip(p.get(), &g, 1);
    CHECK(c, memcmp(&g, &h, sizeof g) == 0, "rNd_clip changed the plane"); CHECK(c, before > 0 || p->nverts == 0, "clipping an empty polytope gives %d vertices", p->nverts);
    if (before && lo > mg) CHECK(c, same(p.get(), old.get()), "a plane that cuts nothing changed the polytope"); if (before && hi < -mg) CHECK(c, p->nverts == 0, "a plane beyond the polytope leaves %d vertices", p->nverts);
    if (before && fabs(lo) < mg || fabs(hi) < mg) degen = true; if (before && lo < -mg && hi > mg) { mixed = true; c.nontrivial(); }
    e = topo(p.get()); CHECK(c, e.empty(), "after plane %d: %s", i, e.c_str());
    if (p->nverts) { pts.clear(); for (int v = 0; v < p->nverts; ++v) pts.push_back(tov(p->verts[v].pos)); }
  }
  double R = b.R + b.r; HRef h = enumerate(allplanes(b, ps), R); against(c, "clip", p.get(), h, R); c.label(h.generic ? (h.v.empty() ? "generic, empty result" : "generic result") : "degenerate"); c.measure("result vertices", p->nverts);
  if (h.generic && !h.dups && p->nverts) { int nc, f2; topo(p.get(), &nc, &f2); CHECK(c, nc == 1, "the result falls into %d components", nc); CHECK(c, f2 == p->nverts + h.facets, "the result has %d 2-faces, a polytope with %d vertices and %d facets has %d", f2, p->nverts, h.facets, p->nverts + h.facets); graphmatch(c, p.get(), h); if (p->nverts <= 20) CHECK(c, rNd_is_good(p.get()) == 1, "rNd_is_good rejects the result"); }
  // one call, and another order
  Poly q = make(c, b); auto copy = ps; rNd_clip(q.get(), copy.data(), (int)copy.size()); CHECK(c, memcmp(copy.data(), ps.data(), ps.size() * sizeof(rNd_plane)) == 0, "rNd_clip changed the planes"); e = topo(q.get()); CHECK(c, e.empty(), "all planes at once: %s", e.c_str()); against(c, "all planes at once", q.get(), h, R);
  if (ps.size() > 1) {
    for (size_t i = ps.size() - 1; i > 0; --i) std::swap(copy[i], copy[c.raw(i + 1)]); size_t cutat = c.raw(copy.size() + 1); Poly t = make(c, b); bool ok = true; for (auto& g : copy) { ok = ok && clear(t.get(), g, 64 * EPS * R); if (!ok) break; rNd_plane k = g; rNd_clip(t.get(), &k, 1); e = topo(t.get()); CHECK(c, e.empty(), "planes in another order: %s", e.c_str()); }
    if (ok) { c.label("another order"); Poly w = make(c, b); rNd_clip(w.get(), copy.data(), (int)cutat); rNd_clip(w.get(), copy.data() + cutat, (int)(copy.size() - cutat)); e = topo(w.get()); CHECK(c, e.empty(), "planes in another order: %s", e.c_str()); against(c, "planes in another order", w.get(), h, R); } }
  (void)degen; (void)mixed;
}
PROPERTY(c21_long, "C21/long-list", 600, "more than 16 hyperplanes in one call, and one of the last four cuts") {
  Body b = gen(c); describe(c, b); Poly p = make(c, b), q = make(c, b); static const int lens[6][2] = {{17, 36}, {37, 70}, {71, 140}, {141, 270}, {271, 520}, {521, 1100}}; int w = c.weighted({4, 3, 3, 2, 2, 1}), np = c.range(lens[w][0], lens[w][1]); c.label(fmt("lists up to %d", lens[w][1]));
  V4 o0{{0, 0, 0, 0}}; for (auto& x : b.pts) o0 = o0 + (1.0L / b.pts.size()) * x; double R = b.R + b.r, mg = 64 * EPS * R; int cuts = c.range(1, 7); std::vector<int> cut(np, 0); for (int i = 0; i < cuts; ++i) cut[i ? c.raw(np) : np - 1 - c.raw(4)] = 1; std::vector<rNd_plane> ps; double rho = c.uni(0.05, 0.4);
  for (int i = 0; i < np; ++i) { rNd_plane h = mkplane(rdir(c), 0); L d = 0; for (int k = 0; k < 4; ++k) d -= (L)h.n.xyz[k] * o0[k]; h.d = (rNd_real)(d + (cut[i] ? rho * b.r : 8 * b.r)); ps.push_back(h); }
  c.note("%d hyperplanes, %d of them at distance %.3g radii of the middle, the others beyond the polytope", np, cuts, rho); int done = 0;
  for (auto& h : ps) { if (!clear(p.get(), h, mg) || p->nverts * 4 > MAXV) throw pbt::Discard(); rNd_plane g = h; int n0 = p->nverts; rNd_clip(p.get(), &g, 1); done = p->nverts != n0; }
  (void)done; auto in = ps; rNd_clip(q.get(), in.data(), np); CHECK(c, memcmp(in.data(), ps.data(), np * sizeof(rNd_plane)) == 0, "rNd_clip changed the planes"); if (q->nverts) c.nontrivial();
  std::string e = topo(q.get()); CHECK(c, e.empty(), "%s", e.c_str()); CHECK(c, q->nverts == p->nverts, "%d hyperplanes in one call leave %d vertices, one after the other %d", np, q->nverts, p->nverts);
  for (int v = 0; v < q->nverts; ++v) { V4 x = tov(q->verts[v].pos); for (int i = 0; i < np; ++i) { L sd = ref::dot(tov(ps[i].n), x) + ps[i].d; CHECK(c, sd >= -1e3 * mg, "vertex %d violates hyperplane %d of %d by %.3Lg", v, i, np, -sd); } }
  rNd_real a = 0, z = 0; rNd_reduce(p.get(), &a, 0); rNd_reduce(q.get(), &z, 0); CHECK(c, fabs((double)a - (double)z) <= 1e-6 * fabs((double)a) + 1e-300 || !std::isfinite((double)a), "%d hyperplanes in one call leave volume %.17g, one after the other %.17g", np, (double)z, (double)a);
}
// mutual links counted with multiplicity and a symmetric 2-face table: holds for every choice of signs
static std::string weaktopo(const rNd_poly* p) {
  int n = p->nverts; if (n < 0 || n > MAXV) return fmt("nverts = %d out of range", n);
  for (int v = 0; v < n; ++v) for (int k = 0; k < 4; ++k) {
    int u = p->verts[v].pnbrs[k], a = 0, b = 0; if (u < 0 || u >= n) return fmt("vertex %d neighbour %d out of range (nverts %d)", v, u, n); if (u == v) return fmt("vertex %d is its own neighbour", v); if (!std::isfinite((double)p->verts[v].pos.xyz[k])) return fmt("vertex %d is not finite", v);
    for (int j = 0; j < 4; ++j) { a += p->verts[v].pnbrs[j] == u; b += p->verts[u].pnbrs[j] == v; } if (a != b) return fmt("vertices %d and %d disagree on the edges between them", v, u);
    for (int j = 0; j < 4; ++j) if (j != k) { int g = p->verts[v].finds[k][j]; if (g < 0 || g >= p->nfaces) return fmt("vertex %d: 2-face id %d out of range (nfaces %d)", v, g, p->nfaces); if (p->verts[v].finds[j][k] != g) return fmt("vertex %d: 2-face table is not symmetric", v); } }
  return "";
}
PROPERTY(c21_degenerate, "C21/through-vertices", 8000, "some plane passes several vertices to within rounding error") {
  Body b = gen(c); describe(c, b); Poly p = make(c, b), q = make(c, b); std::vector<rNd_plane> ps; int m = c.range(1, 7); auto pts = b.pts; double R = b.R + b.r, mg = 64 * EPS * R; bool big = false;
  for (int i = 0; i < m; ++i) {
    std::string k; rNd_plane h; int kind = c.weighted({4, 3, ps.empty() ? 0 : 3});
    if (kind == 0) h = genplane(c, pts, b.R, b.r, ps, &k, 1);
    else if (kind == 1) { V4 z[4]; for (auto& x : z) x = pts[c.raw(pts.size())]; V4 n; for (int t = 0; t < 4; ++t) { std::array<std::array<L, 3>, 3> M; for (int r = 0; r < 3; ++r) for (int j = 0, cc = 0; j < 4; ++j) if (j != t) M[r][cc++] = z[r + 1][j] - z[0][j]; n[t] = (t % 2 ? -1 : 1) * ref::det<3>(M); } L l = ref::norm(n); n = l > 1e-3L * b.r * b.r * b.r ? (1 / l) * n : rdir(c); if (c.chance(1, 2)) n = -1 * n; h = mkplane(n, 0); L d = 0; for (int t = 0; t < 4; ++t) d -= (L)h.n.xyz[t] * z[0][t]; h.d = (rNd_real)d; k = "thru-4-vertices"; }
    else { h = ps[c.raw(ps.size())]; if (c.chance(1, 3)) h.d = (rNd_real)(h.d + c.sym(2) * EPS4 * b.R); k = "again"; }
    describe(c, h, k.c_str()); c.label(k); if (!clear(p.get(), h, mg)) { c.nontrivial(); c.label("several vertices on the plane"); } if (p->nverts * 4 > MAXV) { big = true; break; }
    ps.push_back(h); pbt::dirty_stack(i); rNd_clip(p.get(), &h, 1); std::string e = weaktopo(p.get()); CHECK(c, e.empty(), "after plane %d: %s", i, e.c_str()); if (p->nverts) { if (!topo(p.get()).empty()) c.label("two edges between two vertices"); pts.clear(); for (int v = 0; v < p->nverts; ++v) pts.push_back(tov(p->verts[v].pos)); }
  }
  (void)big; HRef h = enumerate(allplanes(b, ps), R); against(c, "clip", p.get(), h, R);
  rNd_clip(q.get(), ps.data(), (int)ps.size()); std::string e = weaktopo(q.get()); CHECK(c, e.empty(), "all planes at once: %s", e.c_str()); against(c, "all planes at once", q.get(), h, R);
}
static Poly relabel(Ctx& c, const rNd_poly* a) {
  Poly p = newpoly(3); int n = a->nverts; p->nverts = n; p->nfaces = a->nfaces; std::vector<int> pm(n); for (int i = 0; i < n; ++i) pm[i] = i; for (int i = n - 1; i > 0; --i) std::swap(pm[i], pm[c.raw(i + 1)]);
  for (int v = 0; v < n; ++v) { int s[4] = {0, 1, 2, 3}; for (int i = 3; i > 0; --i) std::swap(s[i], s[c.raw(i + 1)]); auto& t = p->verts[pm[v]]; t.pos = a->verts[v].pos; for (int i = 0; i < 4; ++i) { t.pnbrs[s[i]] = pm[a->verts[v].pnbrs[i]]; for (int j = 0; j < 4; ++j) t.finds[s[i]][s[j]] = a->verts[v].finds[i][j]; } }
  return p;
}
static const double CV = 0.5;
PROPERTY(c22_volume, "C22/volume", 16000, "the polytope was clipped and is nondegenerate") {
  Body b = gen(c); describe(c, b); Poly p = make(c, b); std::vector<rNd_plane> ps; int m = (int)c.raw(5);
  for (int i = 0; i < m; ++i) { std::string k; rNd_plane h = c.chance(1, 2) ? genplane(c, b.pts, b.R, b.r, ps, &k) : [&] { V4 q{{0, 0, 0, 0}}; L s = 0; for (int t = 0; t < 4; ++t) { L w = 0.05L + c.unit(); q = q + w * b.pts[c.raw(b.pts.size())]; s += w; } rNd_plane g = mkplane(rdir(c), 0); L d = 0; for (int t = 0; t < 4; ++t) d -= (L)g.n.xyz[t] * q[t] / s; g.d = (rNd_real)d; k = "interior"; return g; }(); describe(c, h, k.c_str()); ps.push_back(h); }
  auto cp = ps; rNd_clip(p.get(), cp.data(), (int)cp.size()); double R = b.R + b.r;
  if (p->nverts == 0) { rNd_real v = 7; rNd_reduce(p.get(), &v, 0); CHECK(c, v == 0, "an empty polytope has volume %g", (double)v); c.label("empty"); return; }
  HRef h = enumerate(allplanes(b, ps), R, DETV); if (!h.generic || h.dups || h.v.empty()) { c.label("degenerate, skipped"); throw pbt::Discard(); }
  double u = volunit(h); if (!(u > 0)) throw pbt::Discard(); auto sx = b.sx; for (auto& q : ps) sx = ref::clip<4>(sx, tov(q)); L e = 0; for (auto& s : sx) e += s.w / 24; if (m) c.nontrivial();
  std::vector<rNd_real> buf(4, (rNd_real)-3.5); Poly keep = dup(p); pbt::dirty_stack(m + 9); rNd_reduce(p.get(), &buf[1], 0); CHECK(c, same(p.get(), keep.get()), "rNd_reduce changed the polytope"); CHECK(c, buf[0] == -3.5 && buf[2] == -3.5 && buf[3] == -3.5, "rNd_reduce wrote outside the moment"); L err = fabsl(e - buf[1]); c.measure("volume err/unit", (double)err / u); c.label((double)e > 1e5 * u ? "well conditioned" : "ill conditioned");
  CHECK(c, err <= CV * u, "volume %.17g, reference %.17Lg (error %.3Lg, unit %.3g)", (double)buf[1], e, err, u);
  Poly q = relabel(c, p.get()); rNd_real v2; rNd_reduce(q.get(), &v2, 0); CHECK(c, fabsl(e - v2) <= CV * u, "volume after renumbering the vertices is %.17g, reference %.17Lg", (double)v2, e);
  if (c.chance(1, 2)) { V4 t; for (int k = 0; k < 4; ++k) t[k] = (rNd_real)(b.r * c.uni(-3, 3)); for (int v = 0; v < q->nverts; ++v) for (int k = 0; k < 4; ++k) q->verts[v].pos.xyz[k] += (rNd_real)t[k]; HRef h2 = h; for (auto& x : h2.v) x.x = x.x + t; double u2 = volunit(h2); rNd_reduce(q.get(), &v2, 0); c.measure("translated err/unit", (double)fabsl(e - v2) / (u + u2)); CHECK(c, fabsl(e - v2) <= CV * (u + u2), "volume after a translation is %.17g, reference %.17Lg", (double)v2, e); }
}
static void bounds(const std::vector<V4>& p, double* lo, double* hi) { for (int k = 0; k < 4; ++k) { lo[k] = 1e300; hi[k] = -1e300; for (auto& q : p) { lo[k] = std::min(lo[k], (double)q[k]); hi[k] = std::max(hi[k], (double)q[k]); } } }
// some half-space leaves the whole cell out by more than the band
static bool apart(const std::vector<Pl>& hs, const int* id, const double* d, L band) { for (auto& h : hs) { L m = h.d; for (int k = 0; k < 4; ++k) m += h.n[k] * (L)(d[k] * (h.n[k] > 0 ? id[k] + 1 : id[k])); if (m < -band) return true; } return false; }
// compares the grid with the reference cell by cell; returns false when some cell is not in general position
static bool vox(Ctx& c, const Body& b, const std::vector<Pl>& hs, const std::vector<ref::Simplex<4>>& sx, rNd_poly* p, const int* lo, const int* hi, const double* d) {
  for (int v = 0; v < p->nverts; ++v) for (int k = 0; k < 4; ++k) for (int i = lo[k] + 1; i < hi[k]; ++i) if (fabs(p->verts[v].pos.xyz[k] - d[k] * i) < (double)BANDR * (b.R + b.r)) return false;
  struct Cell { L e; double u; }; std::vector<Cell> cells; bool ok = true; int met = 0; double R = b.R + b.r; for (int k = 0; k < 4; ++k) R = std::max(R, std::max(fabs(lo[k] * d[k]), fabs(hi[k] * d[k])));
  ref::cells<4>(sx, lo, hi, d, [&](const int* id, const std::vector<ref::Simplex<4>>& s) {
    Cell z{0, 0}; for (auto& t : s) z.e += t.w / 24; auto f = hs; for (int k = 0; k < 4; ++k) for (int q = 0; q < 2; ++q) { Pl g; for (int j = 0; j < 4; ++j) g.n[j] = 0; g.n[k] = q ? -1 : 1; g.d = q ? (L)rnd(d[k] * (id[k] + 1)) : -(L)rnd(d[k] * id[k]); f.push_back(g); }
    if (!ok || s.empty() && apart(hs, id, d, 4 * BANDR * R)) { cells.push_back(z); return; } HRef h = enumerate(f, R, DETV); if (!h.generic || s.empty() && !h.v.empty()) { ok = false; } else if (!h.v.empty()) { z.u = volunit(h); if (!(z.u > 0)) ok = false; ++met; } else z.e = 0; cells.push_back(z);
  });
  if (!ok) return false;
  rNd_dvec ib[2], ib0[2]; rNd_rvec dd; for (int k = 0; k < 4; ++k) { ib[0].ijk[k] = lo[k]; ib[1].ijk[k] = hi[k]; dd.xyz[k] = (rNd_real)d[k]; } memcpy(ib0, ib, sizeof ib); size_t tot = cells.size(); std::vector<rNd_real> g(tot + 64), g0; bool zero = c.chance(2, 3); for (auto& x : g) x = (rNd_real)(zero ? 0 : c.uni(-1, 1) * (double)b.sx[0].w); g0 = g; Poly keep = dup(p);
  pbt::dirty_stack(tot); rNd_voxelize(p, ib, g.data() + 32, dd, 0); CHECK(c, same(p, keep.get()), "rNd_voxelize changed the polytope"); CHECK(c, memcmp(ib, ib0, sizeof ib) == 0, "rNd_voxelize changed the index box"); for (int i = 0; i < 32; ++i) CHECK(c, g[i] == g0[i] && g[tot + 32 + i] == g0[tot + 32 + i], "rNd_voxelize wrote outside the grid");
  for (size_t i = 0; i < tot; ++i) { L got = (L)g[32 + i] - (L)g0[32 + i], err = fabsl(got - cells[i].e); double ua = EPS * fabs((double)g0[32 + i]); if (cells[i].u > 0) c.measure("cell err/unit", std::max(0.0, (double)err - 2 * ua) / cells[i].u); CHECK(c, err <= CV * 2 * cells[i].u + 2 * ua, "cell %zu of %zu holds %.17Lg, reference %.17Lg (unit %.3g)", i, tot, got, cells[i].e, cells[i].u); }
  if (met > 1) { c.nontrivial(); c.label("several cells"); } c.measure("cells", (double)tot); return true;
}
static void spacing(Ctx& c, const Body& b, double* d, double* a, double* e, int budget) { bounds(b.pts, a, e); int left = budget; int ax = (int)c.raw(4); bool longax = c.chance(1, 10); for (int q = 0; q < 4; ++q) { int k = (ax + q) % 4, n = 1 + (int)c.raw(q == 0 && longax ? 40 : std::min(q == 0 ? 12 : 4, left)); left = std::max(1, left / n); d[k] = rnd((e[k] - a[k]) / (n - c.uni(0.05, 0.95))); if (c.chance(1, 4) && (double)b.pts[0][k] == floor((double)b.pts[0][k]) && b.R < 1e4 && b.r > 0.1 && b.r < 1e3) d[k] = 1; } }
PROPERTY(c23_vox, "C23/cells", 5000, "the polytope meets more than one cell") {
  Opts o; o.scales = c.chance(1, 4); Body b = gen(c, o); double d[4], a[4], e[4]; spacing(c, b, d, a, e, 20); int lo[4], hi[4]; double tot = 1; for (int k = 0; k < 4; ++k) { lo[k] = (int)floor(a[k] / d[k]); hi[k] = (int)ceil(e[k] / d[k]); if (hi[k] <= lo[k]) hi[k] = lo[k] + 1; if (c.chance(1, 8)) { lo[k] -= (int)c.raw(3); hi[k] += (int)c.raw(3); } tot *= hi[k] - lo[k]; } if (tot > 200) throw pbt::Discard();
  describe(c, b); c.note("spacing %.17g %.17g %.17g %.17g, box (%d %d %d %d)-(%d %d %d %d)", d[0], d[1], d[2], d[3], lo[0], lo[1], lo[2], lo[3], hi[0], hi[1], hi[2], hi[3]); Poly p = make(c, b); if (!vox(c, b, b.h, b.sx, p.get(), lo, hi, d)) throw pbt::Discard(); c.label(b.kind);
}
PROPERTY(c23_huge, "C23/huge-grid", 400, "the box's cells lie more than 2^31 entries into the grid") {
  // an axis-aligned box in general position to the grid: every cell's share is a product of overlaps
  rNd_rvec bb[2], d; rNd_dvec ib[2]; int lo[4], hi[4], n[4]; long a[4], b[4], N[4]; double x[4], y[4], R = 0; double sc = ldexp(1, c.sym(3));
  for (int k = 0; k < 4; ++k) { d.xyz[k] = (rNd_real)rnd(sc * c.uni(0.5, 2)); lo[k] = c.sym(2); n[k] = c.range(1, 2); hi[k] = lo[k] + n[k]; double dk = d.xyz[k]; x[k] = rnd(dk * (lo[k] + c.uni(0.02, 0.98))); y[k] = n[k] == 1 ? rnd(x[k] + c.uni(0.1, 0.9) * (dk * hi[k] - x[k])) : rnd(dk * (hi[k] - c.uni(0.02, 0.98))); bb[0].xyz[k] = (rNd_real)x[k]; bb[1].xyz[k] = (rNd_real)y[k]; R = std::max(R, std::max(fabs(x[k]), fabs(y[k]))); }
  pbt::huge_extent(c, 4, n, 1, a, b); size_t tot = 1; for (int k = 0; k < 4; ++k) { N[k] = a[k] + n[k] + b[k]; tot *= N[k]; ib[0].ijk[k] = (int)(lo[k] - a[k]); ib[1].ijk[k] = (int)(hi[k] + b[k]); c.note("axis %d: box %.17g .. %.17g, spacing %.17g, index box %d..%d", k, x[k], y[k], (double)d.xyz[k], ib[0].ijk[k], ib[1].ijk[k]); }
  c.note("%zu entries", tot); if (tot > ((size_t)1 << 34)) throw pbt::Discard(); Poly p = newpoly(3); rNd_init_box(p.get(), bb); Poly keep = dup(p); pbt::HugeGrid g(tot * sizeof(rNd_real)); const rNd_real* v = (const rNd_real*)g.p; rNd_voxelize(p.get(), ib, (rNd_real*)g.p, d, 0); CHECK(c, same(p.get(), keep.get()), "rNd_voxelize changed the polytope");
  int id[4]; long m = 1; int w[4]; for (int k = 0; k < 4; ++k) { w[k] = n[k] + 2; m *= w[k]; }
  for (long t = 0; t < m; ++t) { long q = t; bool in = true, touch = true; double e = 1; size_t at = 0; for (int k = 0; k < 4; ++k) { id[k] = lo[k] - 1 + (int)(q % w[k]); q /= w[k]; if (id[k] < ib[0].ijk[k] || id[k] >= ib[1].ijk[k]) in = false; double s = std::max(x[k], (double)d.xyz[k] * id[k]), f = std::min(y[k], (double)d.xyz[k] * (id[k] + 1)); if (f <= s) { touch = false; e = 0; } else e *= f - s; at = at * N[k] + (size_t)(id[k] - ib[0].ijk[k]); }
    if (!in) continue; if (at >= (size_t)1 << 31) c.nontrivial(); double got = v[at]; if (!touch) CHECK(c, got == 0, "cell (%d %d %d %d) does not meet the box, but holds %.17g", id[0], id[1], id[2], id[3], got); else { c.measure("huge err/unit", fabs(got - e) / (EPS * R * R * R * R)); CHECK(c, fabs(got - e) <= 100 * EPS * R * R * R * R, "cell (%d %d %d %d), entry %zu: %.17g, expected %.17g", id[0], id[1], id[2], id[3], at, got, e); } }
}
PROPERTY(c23_none, "C23/nothing-to-do", 300, "always") {
  c.nontrivial(); rNd_dvec ib[2]; rNd_rvec d; for (int k = 0; k < 4; ++k) { ib[0].ijk[k] = c.sym(3); ib[1].ijk[k] = ib[0].ijk[k] + c.range(1, 2); d.xyz[k] = (rNd_real)c.uni(0.1, 2); } std::vector<rNd_real> g(16, (rNd_real)1.25); Poly p = newpoly(c.raw(9)); p->nverts = 0; if (c.chance(1, 2)) { Body b = gen(c); p = make(c, b); int k = (int)c.raw(4); ib[1].ijk[k] = ib[0].ijk[k] - (int)c.raw(3); c.note("index box without cells"); } else c.note("empty polytope"); rNd_voxelize(nullptr, ib, g.data(), d, 0); { Poly z = newpoly(1); rNd_rvec b[2]; rNd_dvec zb[2]; for (int k = 0; k < 4; ++k) { b[0].xyz[k] = 0; b[1].xyz[k] = 2 * d.xyz[k]; zb[0].ijk[k] = 0; zb[1].ijk[k] = 2; } rNd_init_box(z.get(), b); rNd_voxelize(z.get(), zb, nullptr, d, 0); } rNd_voxelize(p.get(), ib, g.data(), d, 0); for (auto x : g) CHECK(c, x == (rNd_real)1.25, "the grid was changed");
}
PROPERTY(c23_ibox, "C23/minimal-box", 20000, "the polytope spans more than one cell in some direction") {
  Body b = gen(c); describe(c, b); double d[4], a[4], e[4]; spacing(c, b, d, a, e, 200); Poly p = make(c, b), keep = dup(p); rNd_dvec ib[2]; rNd_rvec dd; memset(ib, 0x5a, sizeof ib); for (int k = 0; k < 4; ++k) { if (c.chance(1, 4)) d[k] = rnd(d[k] * c.uni(0.01, 30)); dd.xyz[k] = (rNd_real)d[k]; } c.note("spacing %.17g %.17g %.17g %.17g", d[0], d[1], d[2], d[3]); pbt::dirty_stack(5); rNd_get_ibox(p.get(), ib, dd); CHECK(c, same(p.get(), keep.get()), "rNd_get_ibox changed the polytope");
  for (int k = 0; k < 4; ++k) { if (e[k] - a[k] > d[k]) c.nontrivial(); CHECK(c, ref::okfloor(a[k], d[k], ib[0].ijk[k], EPS), "axis %d: lower index %d, but the polytope starts at %.17g, spacing %.17g", k, ib[0].ijk[k], a[k], d[k]); CHECK(c, ref::okceil(e[k], d[k], ib[1].ijk[k], EPS), "axis %d: upper index %d, but the polytope ends at %.17g, spacing %.17g", k, ib[1].ijk[k], e[k], d[k]); }
}
PROPERTY(c23_clamp, "C23/clamp", 16000, "the clamp range cuts the polytope's index box") {
  Body b = gen(c); describe(c, b); double d[4], a[4], e[4]; spacing(c, b, d, a, e, 60); Poly p = make(c, b), orig = dup(p); rNd_rvec dd; for (int k = 0; k < 4; ++k) dd.xyz[k] = (rNd_real)d[k]; rNd_dvec ib[2], cb[2], cb0[2]; rNd_get_ibox(p.get(), ib, dd); rNd_dvec ib0[2] = {ib[0], ib[1]}; bool disjoint = false, cut = false; int lo[4], hi[4]; std::vector<Pl> hs = b.h; auto sx = b.sx; double R = b.R + b.r;
  bool every = c.chance(1, 6);
  for (int k = 0; k < 4; ++k) {
    int x = ib[0].ijk[k], y = ib[1].ijk[k], n = std::max(1, y - x);
    switch (every ? 3 : c.weighted({4, 3, 3, 2, c.chance(1, 3) ? 1 : 0, c.chance(1, 3) ? 1 : 0})) { case 0: cb[0].ijk[k] = x - (int)c.raw(3); cb[1].ijk[k] = y + (int)c.raw(3); break; case 1: cb[0].ijk[k] = x + (int)c.raw(n); cb[1].ijk[k] = y + (int)c.raw(3); break; case 2: cb[0].ijk[k] = x - (int)c.raw(3); cb[1].ijk[k] = y - (int)c.raw(n); break; case 3: cb[0].ijk[k] = x + (int)c.raw(n); cb[1].ijk[k] = cb[0].ijk[k] + 1 + (int)c.raw(std::max(1, y - cb[0].ijk[k] - 1)); break; case 4: cb[0].ijk[k] = y + (int)c.raw(2); cb[1].ijk[k] = cb[0].ijk[k] + c.range(1, 3); break; default: cb[1].ijk[k] = x - (int)c.raw(2); cb[0].ijk[k] = cb[1].ijk[k] - c.range(1, 3); }
    if (y <= cb[0].ijk[k] || x >= cb[1].ijk[k]) disjoint = true; lo[k] = std::max(x, cb[0].ijk[k]); hi[k] = std::min(y, cb[1].ijk[k]); if (lo[k] != x || hi[k] != y) cut = true;
    for (int q = 0; q < 2; ++q) if (q ? hi[k] != y : lo[k] != x) { Pl g; for (int j = 0; j < 4; ++j) g.n[j] = 0; g.n[k] = q ? -1 : 1; g.d = q ? (L)rnd(d[k] * hi[k]) : -(L)rnd(d[k] * lo[k]); hs.push_back(g); if (!disjoint) sx = ref::clip<4>(sx, g); }
  }
  if (cut) c.nontrivial(); for (int k = 0; k < 4; ++k) c.note("axis %d: spacing %.17g index %d..%d clamp %d..%d", k, d[k], ib0[0].ijk[k], ib0[1].ijk[k], cb[0].ijk[k], cb[1].ijk[k]);
  memcpy(cb0, cb, sizeof cb); pbt::dirty_stack(77); rNd_clamp_ibox(p.get(), ib, cb, dd); CHECK(c, memcmp(cb, cb0, sizeof cb) == 0, "the clamp range was changed");
  if (disjoint) { c.label("disjoint"); CHECK(c, p->nverts == 0, "disjoint clamp range leaves %d vertices", p->nverts); for (int k = 0; k < 4; ++k) CHECK(c, ib[0].ijk[k] == 0 && ib[1].ijk[k] == 0, "disjoint clamp range leaves a nonzero index box"); return; }
  for (int k = 0; k < 4; ++k) CHECK(c, ib[0].ijk[k] == lo[k] && ib[1].ijk[k] == hi[k], "axis %d: index box %d..%d, expected %d..%d", k, ib[0].ijk[k], ib[1].ijk[k], lo[k], hi[k]);
  if (!cut) { CHECK(c, same(p.get(), orig.get()), "clamping to a larger range changed the polytope"); c.label("nothing to clamp"); return; }
  if (hs.size() - b.h.size() > 4) c.label("more than four planes"); HRef h = enumerate(hs, R); c.label(h.generic && !h.dups ? "generic" : "degenerate"); if (!h.generic || h.dups) return; std::string t = topo(p.get()); CHECK(c, t.empty(), "%s", t.c_str()); against(c, "clamp", p.get(), h, R);
  double tot = 1; for (int k = 0; k < 4; ++k) tot *= hi[k] - lo[k]; if (h.generic && p->nverts && tot <= 20 && c.chance(1, 4)) if (vox(c, b, hs, sx, p.get(), lo, hi, d)) c.label("voxelized");
}
PROPERTY(c24_init, "C24/init", 16000, "always: every case initialises a simplex or a box") {
  Opts o; o.maps = false; Body b = gen(c, o); describe(c, b); c.nontrivial(); pbt::dirty_stack(c.raw(1000)); rNd_rvec v0[5], b0[2]; memcpy(v0, b.v, sizeof v0); memcpy(b0, b.b, sizeof b0); Poly p = make(c, b); CHECK(c, b.box || memcmp(v0, b.v, sizeof v0) == 0, "vertices changed"); CHECK(c, !b.box || memcmp(b0, b.b, sizeof b0) == 0, "bounds changed"); int n = b.box ? 16 : 5; CHECK(c, p->nverts == n, "%d vertices, expected %d", p->nverts, n); int nc, f2; std::string e = topo(p.get(), &nc, &f2); CHECK(c, e.empty(), "%s", e.c_str()); CHECK(c, nc == 1 && f2 == (b.box ? 24 : 10), "%d components, %d 2-faces", nc, f2); CHECK(c, rNd_is_good(p.get()) == 1, "rNd_is_good rejects it");
  std::vector<char> used(n, 0); std::vector<int> m(n, -1);
  for (int v = 0; v < n; ++v) { for (int q = 0; q < n && m[v] < 0; ++q) if (!used[q]) { bool eq = true; for (int k = 0; k < 4; ++k) eq = eq && (L)p->verts[v].pos.xyz[k] == b.pts[q][k]; if (eq) { used[q] = 1; m[v] = q; } } CHECK(c, m[v] >= 0, "vertex %d %s is not one of the given vertices", v, vstr(tov(p->verts[v].pos)).c_str()); }
  if (b.box) for (int v = 0; v < n; ++v) for (int k = 0; k < 4; ++k) CHECK(c, __builtin_popcount(m[v] ^ m[p->verts[v].pnbrs[k]]) == 1, "box vertices %d and %d are linked but not along an axis", v, p->verts[v].pnbrs[k]);
  HRef h = enumerate(b.h, b.R + b.r); if (h.generic) graphmatch(c, p.get(), h);
}
PROPERTY(c24_transform, "C24/transform", 24000, "the transformation moves some vertex") {
  Body b = gen(c); describe(c, b); Poly p = make(c, b); if (c.chance(1, 2)) { std::string k; rNd_plane h = genplane(c, b.pts, b.R, b.r, {}, &k); rNd_clip(p.get(), &h, 1); } double R = b.R;
  if (c.chance(1, 60) && p->nverts > 0) { // copies side by side until the buffer is full
    int n0 = p->nverts, f0 = p->nfaces, k = RND_MAX_VERTS / n0; c.label("full buffer"); for (int i = 1; i < k; ++i) for (int v = 0; v < n0; ++v) { auto& w = p->verts[i * n0 + v]; w = p->verts[v]; for (int q = 0; q < 4; ++q) { w.pnbrs[q] += i * n0; for (int j = 0; j < 4; ++j) if (j != q) w.finds[q][j] += i * f0; } }
    p->nverts = k * n0; p->nfaces = k * f0; if (p->nverts == RND_MAX_VERTS) c.label("completely full"); }
  Poly o = dup(p); int n = p->nverts; std::vector<V4> e(n); std::vector<L> un(n, (L)EPS * R); const char* what = ""; auto num = [&] { return (rNd_real)(c.chance(1, 3) ? c.sym(4) : c.chance(1, 6) ? 1 + c.uni(-1, 1) * pow(10, c.uni(-12, -2)) : pbt::wide(c, c.uni(-3, 3))); };
  switch (c.raw(5)) {
    case 0: { what = "translate"; rNd_rvec t; for (int k = 0; k < 4; ++k) t.xyz[k] = (rNd_real)(c.chance(1, 5) ? 0 : R * pbt::wide(c, c.uni(-3, 3))); rNd_translate(p.get(), t); double T = 0; for (int k = 0; k < 4; ++k) T = std::max(T, fabs((double)t.xyz[k]) / R); for (int v = 0; v < n; ++v) { e[v] = tov(o->verts[v].pos) + tov(t); un[v] *= 1 + T; } c.note("translate %s", vstr(tov(t)).c_str()); break; }
    case 1: { what = "scale"; rNd_rvec t; for (int k = 0; k < 4; ++k) t.xyz[k] = num(); rNd_scale(p.get(), t); L F = 0; for (int k = 0; k < 4; ++k) F = std::max(F, fabsl((L)t.xyz[k])); for (int v = 0; v < n; ++v) { for (int k = 0; k < 4; ++k) e[v][k] = (L)t.xyz[k] * o->verts[v].pos.xyz[k]; un[v] *= F; } c.note("scale %s", vstr(tov(t)).c_str()); break; }
    case 2: { what = "rotate"; int a = (int)c.raw(4), q = (a + 1 + (int)c.raw(3)) % 4; rNd_real th = (rNd_real)pbt::angle(c); c.note("rotate %.17g in (%d,%d)", (double)th, a, q); rNd_rotate(p.get(), th, a, q); L cs = cosl((L)th), sn = sinl((L)th); for (int v = 0; v < n; ++v) { V4 x = tov(o->verts[v].pos); e[v] = x; e[v][a] = cs * x[a] - sn * x[q]; e[v][q] = sn * x[a] + cs * x[q]; un[v] *= 2; } break; }
    case 3: { what = "shear"; int a = (int)c.raw(4), q = (a + 1 + (int)c.raw(3)) % 4; rNd_real f = num(); c.note("shear %.17g of %d by %d", (double)f, a, q); rNd_shear(p.get(), f, a, q); for (int v = 0; v < n; ++v) { e[v] = tov(o->verts[v].pos); e[v][a] += (L)f * e[v][q]; un[v] *= 1 + fabsl((L)f); } break; }
    default: {
      what = "affine"; bool persp = c.chance(1, 2); rNd_real M[5][5], M0[5][5]; for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) M[i][j] = (rNd_real)(c.chance(1, 3) ? (i == j) : c.uni(-2, 2)); for (int i = 0; i < 4; ++i) M[i][4] = (rNd_real)(c.uni(-2, 2) * R);
      if (!persp) { for (int j = 0; j < 4; ++j) M[4][j] = 0; M[4][4] = c.chance(1, 3) ? (rNd_real)c.uni(0.5, 2) : 1; } else { for (int j = 0; j < 4; ++j) M[4][j] = (rNd_real)(c.uni(-0.2, 0.2) / R); M[4][4] = (rNd_real)c.uni(1.2, 2); }
      double wf = pbt::wfactor(c); for (int j = 0; j < 5; ++j) M[4][j] = (rNd_real)(M[4][j] * wf); if (wf < 0) c.label("negative w");
      memcpy(M0, M, sizeof M); for (int i = 0; i < 5; ++i) c.note("  [%.17g %.17g %.17g %.17g %.17g]", (double)M[i][0], (double)M[i][1], (double)M[i][2], (double)M[i][3], (double)M[i][4]); rNd_affine(p.get(), M); CHECK(c, memcmp(M, M0, sizeof M) == 0, "rNd_affine changed the matrix");
      for (int v = 0; v < n; ++v) { V4 x = tov(o->verts[v].pos); L w = M[4][4], wa = fabsl((L)M[4][4]), mx = 0; for (int j = 0; j < 4; ++j) { w += (L)M[4][j] * x[j]; wa += fabsl((L)M[4][j] * x[j]); } for (int i = 0; i < 4; ++i) { L s = M[i][4], sa = fabsl((L)M[i][4]); for (int j = 0; j < 4; ++j) { s += (L)M[i][j] * x[j]; sa += fabsl((L)M[i][j] * x[j]); } e[v][i] = s / w; mx = std::max(mx, sa / fabsl(w)); } un[v] = (L)EPS * mx * (2 + wa / fabsl(w)); }
    }
  }
  c.label(what); CHECK(c, p->nverts == n && (n == 0 || p->nfaces == o->nfaces), "%s changed the vertex or face count", what);
  for (int v = 0; v < n; ++v) for (int k = 0; k < 4; ++k) { CHECK(c, p->verts[v].pnbrs[k] == o->verts[v].pnbrs[k], "%s changed the connectivity of vertex %d", what, v); for (int j = 0; j < 4; ++j) CHECK(c, j == k || p->verts[v].finds[k][j] == o->verts[v].finds[k][j], "%s changed the 2-faces of vertex %d", what, v); L err = fabsl(e[v][k] - p->verts[v].pos.xyz[k]); if (e[v][k] != o->verts[v].pos.xyz[k]) c.nontrivial(); if (un[v] > 0) c.measure(fmt("%s err/unit", what), (double)(err / un[v])); CHECK(c, err <= 8 * un[v], "%s: vertex %d component %d is %.17g, expected %.17Lg", what, v, k, (double)p->verts[v].pos.xyz[k], e[v][k]); }
}
PROPERTY(c24_orient, "C24/orient", 40000, "the five points span four dimensions") {
  V4 p[5]; rNd_rvec q[5], q0[5]; bool lat = c.chance(1, 2); double sc = c.chance(1, 6) ? ldexp(1, c.sym(sizeof(rNd_real) == 4 ? 5 : 40)) : 1, off = c.chance(1, 4) ? c.uni(-1e4, 1e4) : 0, r = 0; for (int i = 0; i < 5; ++i) for (int k = 0; k < 4; ++k) p[i][k] = q[i].xyz[k] = (rNd_real)(sc * ((lat ? c.sym(4) : c.uni(-1, 1)) + off)); memcpy(q0, q, sizeof q); for (auto& x : p) { c.note("%s", vstr(x).c_str()); for (int k = 0; k < 4; ++k) r = std::max(r, (double)fabsl(x[k] - p[0][k])); }
  L e = ref::sdet<4>(p) / 24; pbt::Exact<rNd_rvec> xq(q, 5); double v = rNd_orient(xq), u = EPS * r * r * r * r; CHECK(c, memcmp(xq.p, q0, sizeof q) == 0, "the points were changed"); if (u > 0) c.measure("orient err/(eps r^4)", (double)fabsl(e - v) / u); CHECK(c, fabsl(e - v) <= 32 * u, "signed volume %.17g, exact %.17Lg", v, e); if (fabsl(e) > 32 * u) { c.nontrivial(); CHECK(c, (v > 0) == (e > 0), "wrong sign"); }
  int a = (int)c.raw(5), b = (a + 1 + (int)c.raw(4)) % 5; std::swap(q[a], q[b]); memcpy(xq.p, q, sizeof q); double w = rNd_orient(xq); CHECK(c, fabs(v + w) <= 64 * 16 * u, "swapping two points gives %.17g instead of %.17g", w, -v);
}
// ---- the exact inputs of the findings in KNOWN-FINDINGS.txt (coincident vertices in rNd_reduce)
PROPERTY(c22x_diag, "C22X/diagonal-of-a-box", 1, "always: one fixed input") {
  c.nontrivial(); rNd_rvec bb[2]; for (int k = 0; k < 4; ++k) { bb[0].xyz[k] = 0; bb[1].xyz[k] = 1; } Poly p = newpoly(1); rNd_init_box(p.get(), bb); rNd_plane h; memset(&h, 0, sizeof h); h.n.xyz[0] = (rNd_real)0.6; h.n.xyz[1] = (rNd_real)-0.8; c.note("box [0,1]^4 clipped by 0.6 x0 - 0.8 x1 >= 0"); rNd_clip(p.get(), &h, 1); rNd_real v = -1; rNd_reduce(p.get(), &v, 0); CHECK(c, fabs((double)v - 0.375) <= 1e-9, "volume %.17g, reference 0.375", (double)v);
}
PROPERTY(c23x_simplex, "C23X/simplex-on-the-grid", 1, "always: one fixed input") {
  c.nontrivial(); rNd_rvec sv[5]; memset(sv, 0, sizeof sv); for (int k = 0; k < 4; ++k) sv[k + 1].xyz[k] = 2; sv[0].xyz[0] = 1; c.note("simplex (1,0,0,0), (2,0,0,0), (0,2,0,0), (0,0,2,0), (0,0,0,2) on a grid of spacing 1"); Poly p = newpoly(1); rNd_init_simplex(p.get(), sv); rNd_dvec ib[2]; rNd_rvec d; for (int k = 0; k < 4; ++k) { ib[0].ijk[k] = 0; ib[1].ijk[k] = 2; d.xyz[k] = 1; }
  rNd_real g[16]; for (auto& x : g) x = 0; rNd_voxelize(p.get(), ib, g, d, 0); double s = 0; for (auto x : g) s += x; CHECK(c, fabs(s - 8.0 / 24) <= 1e-9, "the cells add up to %.17g, reference 1/3", s);
}
// ---- C25: graphs
typedef std::vector<std::vector<int>> Graph;
static Graph torus(int m, int n) { Graph g(m * n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { auto& a = g[i * n + j]; a = {((i + 1) % m) * n + j, ((i + m - 1) % m) * n + j, i * n + (j + 1) % n, i * n + (j + n - 1) % n}; } return g; }
static Graph prism(Graph cubic) { int n = (int)cubic.size(); Graph g(2 * n); for (int v = 0; v < n; ++v) { for (int s = 0; s < 2; ++s) { for (int u : cubic[v]) g[s * n + v].push_back(s * n + u); g[s * n + v].push_back((1 - s) * n + v); } } return g; }
static Graph cprism(int m) { Graph g(2 * m); for (int i = 0; i < m; ++i) for (int s = 0; s < 2; ++s) g[s * m + i] = {s * m + (i + 1) % m, s * m + (i + m - 1) % m, (1 - s) * m + i}; return g; }
static Graph k5() { Graph g(5); for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) if (i != j) g[i].push_back(j); return g; }
static Graph polytope(Ctx& c) { // the graph of a randomly clipped simplex or box, from the reference
  Opts o; o.scales = o.offsets = false; Body b = gen(c, o); std::vector<Pl> h = b.h; for (int i = (int)c.raw(3); i > 0; --i) { V4 m{{0, 0, 0, 0}}; for (auto& p : b.pts) m = m + (1.0L / b.pts.size()) * p; Pl q; q.n = rdir(c); q.d = -ref::dot(q.n, m) + c.uni(0, 0.3) * b.r; h.push_back(q); }
  HRef r = enumerate(h, b.R + b.r); if (!r.generic || r.v.empty() || r.v.size() > 26) return k5(); Graph g = edges(r); for (auto& a : g) if (a.size() != 4) return k5(); return g;
}
static bool connected4(const Graph& g) { // every component stays connected without any three of its vertices
  int n = (int)g.size(); std::vector<int> comp(n, -1); int nc = 0;
  for (int v = 0; v < n; ++v) if (comp[v] < 0) { std::vector<int> st{v}; comp[v] = nc; while (!st.empty()) { int u = st.back(); st.pop_back(); for (int w : g[u]) if (comp[w] < 0) { comp[w] = nc; st.push_back(w); } } ++nc; }
  for (int q = 0; q < nc; ++q) { std::vector<int> vs; for (int v = 0; v < n; ++v) if (comp[v] == q) vs.push_back(v); int k = (int)vs.size();
    for (int a = 0; a < k; ++a) for (int b = a + 1; b < k; ++b) for (int d = b + 1; d < k; ++d) { std::vector<char> s(n, 0); s[vs[a]] = s[vs[b]] = s[vs[d]] = 1; int st0 = -1; for (int v : vs) if (!s[v]) { st0 = v; break; } if (st0 < 0) continue; std::vector<int> st{st0}; s[st0] = 1; int cnt = 4; while (!st.empty()) { int u = st.back(); st.pop_back(); for (int w : g[u]) if (!s[w]) { s[w] = 1; ++cnt; st.push_back(w); } } if (cnt != k) return false; } }
  return true;
}
static void append(Graph& g, const Graph& h) { int o = (int)g.size(); for (auto a : h) { for (int& x : a) x += o; g.push_back(a); } }
static Graph block(Ctx& c, int cap) { Graph g; switch (c.raw(5)) { case 0: g = k5(); break; case 1: g = torus(c.range(3, 5), c.range(3, 5)); break; case 2: g = prism(cprism(c.range(3, 6))); break; case 3: g = polytope(c); break; default: { Graph k4(4); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (i != j) k4[i].push_back(j); g = prism(k4); } } if ((int)g.size() > cap) g = k5(); return g; }
static Graph graph(Ctx& c, int cap) { Graph g = block(c, cap); if (c.chance(1, 4)) for (int i = c.range(1, 2); i > 0; --i) if ((int)g.size() + 5 <= cap) append(g, block(c, cap - (int)g.size())); return g; }
static Poly build(Ctx& c, const Graph& g) {
  Poly p = newpoly(c.raw(200)); int n = (int)g.size(); std::vector<int> pm(n); for (int i = 0; i < n; ++i) pm[i] = i; for (int i = n - 1; i > 0; --i) std::swap(pm[i], pm[c.raw(i + 1)]); p->nverts = n; p->nfaces = 0;
  for (int v = 0; v < n; ++v) { auto a = g[v]; for (int i = 3; i > 0; --i) std::swap(a[i], a[c.raw(i + 1)]); for (int k = 0; k < 4; ++k) { p->verts[pm[v]].pnbrs[k] = pm[a[k]]; p->verts[pm[v]].pos.xyz[k] = (rNd_real)(v + k); } }
  return p;
}
static void noteg(Ctx& c, const rNd_poly* p) { if (!c.wantdesc) return; std::string s; for (int v = 0; v < p->nverts && v < 40; ++v) s += fmt(" %d:[%d %d %d %d]", v, p->verts[v].pnbrs[0], p->verts[v].pnbrs[1], p->verts[v].pnbrs[2], p->verts[v].pnbrs[3]); c.note("%d vertices%s", p->nverts, s.c_str()); }
static bool has(const Graph& g, int a, int b) { return std::find(g[a].begin(), g[a].end(), b) != g[a].end(); }
static void rep(Graph& g, int a, int x, int y) { *std::find(g[a].begin(), g[a].end(), x) = y; }
// replaces edges a-b, x-y by a-x, b-y; false if not possible
static bool swap_edges(Graph& g, int a, int b, int x, int y) { if (a == x || a == y || b == x || b == y || has(g, a, x) || has(g, b, y)) return false; rep(g, a, b, x); rep(g, b, a, y); rep(g, x, y, a); rep(g, y, x, b); return true; }
PROPERTY(c25_decide, "C25/connectivity", 4000, "always: the expected answer is found by removing every vertex triple") {
  bool swarm = MAXV >= 300 && c.chance(1, 60); Graph g = swarm ? k5() : graph(c, c.chance(1, 6) ? 32 : 20); c.nontrivial(); if (swarm) { for (int i = c.range(5, 24); i > 0; --i) append(g, block(c, 9)); c.label("many components"); } int mode = (int)c.raw(4);
  if (mode == 1 || mode == 3) for (int i = c.range(1, 6); i > 0; --i) { int a = (int)c.raw(g.size()), x = (int)c.raw(g.size()); swap_edges(g, a, g[a][c.raw(4)], x, g[x][c.raw(4)]); }
  if (mode == 2) { Graph h = block(c, 20); int o = (int)g.size(); append(g, h); if (c.chance(1, 2)) { int a = (int)c.raw(o), x = o + (int)c.raw(h.size()); swap_edges(g, a, g[a][c.raw(4)], x, g[x][c.raw(4)]); }
    else { // three new vertices hold two parts together
      int n0 = (int)g.size(); g.resize(n0 + 3); for (int i = 0; i < 3; ++i) for (int s = 0; s < 2; ++s) { int a, b, t = 0; do { a = s ? o + (int)c.raw(n0 - o) : (int)c.raw(o); b = g[a][c.raw(4)]; } while (b >= n0 && ++t < 50); if (b >= n0) throw pbt::Discard(); rep(g, a, b, n0 + i); rep(g, b, a, n0 + i); g[n0 + i].push_back(a); g[n0 + i].push_back(b); }
      for (int i = 0; i < 3; ++i) { std::set<int> s(g[n0 + i].begin(), g[n0 + i].end()); if (s.size() != 4) throw pbt::Discard(); } } }
  bool want = connected4(g); Poly p = build(c, g); noteg(c, p.get()); Poly k = dup(p); c.label(want ? "accepted" : "rejected"); pbt::dirty_stack(g.size()); int rc = rNd_is_good(p.get()); CHECK(c, rc == want, "rNd_is_good returned %d; the graph %s 4-connected", rc, want ? "is" : "is not"); CHECK(c, same(p.get(), k.get()), "rNd_is_good changed the polytope");
}
PROPERTY(c25_reject, "C25/rejects", 20000, "always: every case is broken in a documented way") {
  bool big = c.chance(1, 8); Graph g = big ? torus(32, 32) : graph(c, 24); if (big && c.chance(1, 2)) g = torus(31, 33); int n = (int)g.size(); c.nontrivial(); Poly p = build(c, g); int v = (int)c.raw(n), k = (int)c.raw(4); const char* kn = "";
  switch (c.raw(8)) {
    case 6: case 7: { // every vertex is still pointed to four times
      bool dbl = c.chance(2, 3); int w = dbl ? p->verts[v].pnbrs[(k + 1 + c.raw(3)) % 4] : v, z = p->verts[v].pnbrs[k], u = (int)c.raw(n), t = 0, q = -1; auto slot = [&](int x) { if (x == v || x == z) return -1; for (int i = 0; i < 4; ++i) if (p->verts[x].pnbrs[i] == z) return -1; for (int i = 0; i < 4; ++i) if (p->verts[x].pnbrs[i] == w) return i; return -1; };
      while ((q = slot(u)) < 0 && t++ < n) u = (u + 1) % n; if (q < 0) throw pbt::Discard(); p->verts[v].pnbrs[k] = w; p->verts[u].pnbrs[q] = z; kn = dbl ? "double edge with right counts" : "self-pointing with right counts"; break; }
    case 0: { static const int off[] = {0, 1, 2, 7, 100}; int m = (int)c.raw(7); p->verts[v].pnbrs[k] = m < 5 ? n + off[m] : m == 5 ? INT_MAX : std::max(n, MAXV); kn = "index too large"; break; }
    case 1: { static const int ng[] = {-1, -2, -3, -17, -1000000, INT_MIN}; p->verts[v].pnbrs[k] = ng[c.raw(6)]; kn = "negative index"; break; }
    case 2: { p->verts[v].pnbrs[k] = v; kn = "self-pointing"; break; }
    case 3: { p->verts[v].pnbrs[k] = p->verts[v].pnbrs[(k + 1 + c.raw(3)) % 4]; kn = "double edge"; break; }
    case 4: { int w = (int)c.raw(n), t = 0; auto bad = [&](int x) { if (x == v) return true; for (int q = 0; q < 4; ++q) if (p->verts[v].pnbrs[q] == x) return true; return false; }; while (bad(w) && t++ < n) w = (w + 1) % n; if (bad(w)) throw pbt::Discard(); p->verts[v].pnbrs[k] = w; kn = "wrong number of incoming links"; break; }
    default: { // in- and out-counts are right, but vertices point to themselves or twice to one another
      int m = (int)c.raw(2); if (n + 4 > MAXV) throw pbt::Discard(); p->nverts = n + 4; for (int i = 0; i < 4; ++i) for (int q = 0; q < 4; ++q) { p->verts[n + i].pnbrs[q] = n + (m ? q : (i ^ 1 ^ (q & 2))); p->verts[n + i].pos.xyz[q] = 0; } kn = m ? "self loops with right counts" : "double edges with right counts"; }
  }
  c.label(kn); c.note("%s", kn); noteg(c, p.get()); Poly q = dup(p); int rc = rNd_is_good(p.get()); CHECK(c, rc == 0, "%s: rNd_is_good returned %d", kn, rc); CHECK(c, same(p.get(), q.get()), "rNd_is_good changed the polytope");
}
