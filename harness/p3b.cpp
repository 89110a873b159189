// 3D: capacity, validity check, voxelization, index boxes
#include "gen3.hpp"
#include "cells.hpp"
#include <climits>
using namespace g3;
using pbt::fmt;
static const double EPS = REPS;
static const int MAXV = R3D_MAX_VERTS;
static double powi(double x, int k) { double r = 1; while (k-- > 0) r *= x; return r; }

// ------------------------------------------------------------------ C07: capacity
// shapes that fill a chosen number of slots as closely as possible
static Spec filling(Ctx& c, int cap) {
  Opts o; o.cap = cap; o.inverted = false; o.scales = false; o.offsets = false;
  int m = c.weighted({3, 4, 2, 3});
  Spec s;
  if (m == 0) s = gen(c, o);
  else if (m == 1) { int n = std::max(3, cap / 2 - (c.chance(1, 2) ? 0 : (int)c.raw(std::max(1, cap / 4)))); s = prism(ring(c, n, c.chance(1, 2) && n > 3), 0, 1, 1, 0, 0); s.kind = "prism"; s.convex = false; place(c, s, o); }
  else if (m == 2) { int n = std::max(3, (cap - 1) / 4); std::vector<std::array<double, 2>> q = ring(c, n, false); s = Spec(); for (auto& t : q) s.v.push_back({{t[0], t[1], 0}}); s.v.push_back({{0.1, 0.2, 1}}); std::vector<int> b; for (int i = 0; i < n; ++i) b.push_back(n - 1 - i); s.f.push_back(b); for (int i = 0; i < n; ++i) s.f.push_back({i, (i + 1) % n, n}); s.kind = "pyramid"; if (need(s) > cap) s = box(0, 0, 0, 1, 1, 1); place(c, s, o); }
  else { int left = cap; s = Spec(); double x = 0; int nc = 0; while (left >= 4) { Spec t; if (left >= 8 && !(left < 12 && left != 8) && c.chance(2, 3)) t = box(x, 0, 0, x + 1, c.uni(0.5, 2), 1); else { t.v = {{{x, 0, 0}}, {{x + 1, 0, 0}}, {{x, 1, 0}}, {{x, 0, 1}}}; t.f = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {0, 3, 2}}; } if ((int)t.v.size() > left) break; left -= (int)t.v.size(); if (nc++) append(s, t); else s = t; x += 1.5; if (c.chance(1, 6)) break; } s.ncomp = nc; s.kind = "row of boxes and tets"; place(c, s, o); }
  return s;
}
// number of vertices a plane adds; -1 when rounding decides
static int newverts(const r3d_poly* p, const r3d_plane& h, double R, int* kept) {
  bool axis = false; for (int k = 0; k < 3; ++k) if (fabs((double)h.n.xyz[k]) == 1.0 && h.n.xyz[(k + 1) % 3] == 0 && h.n.xyz[(k + 2) % 3] == 0) axis = true;
  std::vector<char> out(p->nverts); int neg = 0; bool amb = false, anypos = false;
  for (int v = 0; v < p->nverts; ++v) { L sd = ref::dot(tov(h).n, tov(p->verts[v].pos)) + h.d; if (!axis && fabsl(sd) < 64 * EPS * (R + fabs((double)h.d))) amb = true; out[v] = sd < 0; neg += out[v]; if (sd > 0) anypos = true; }
  if (amb) return -1;
  *kept = p->nverts - neg;
  if (neg == 0) return 0;
  if (!anypos) { *kept = 0; return 0; }
  int n = 0; for (int v = 0; v < p->nverts; ++v) if (!out[v]) for (int k = 0; k < 3; ++k) if (out[p->verts[v].pnbrs[k]]) ++n;
  return n;
}
struct Guard { std::vector<unsigned char> b; r3d_poly* p; Guard() { b.assign(sizeof(r3d_poly) + 512, 0xA7); p = (r3d_poly*)(((uintptr_t)&b[256] + 15) & ~(uintptr_t)15); pbt::poison(p, sizeof *p, 5); } bool ok() { for (unsigned char* q = &b[0]; q < (unsigned char*)p; ++q) if (*q != 0xA7) return false; for (unsigned char* q = (unsigned char*)(p + 1); q < &b[0] + b.size(); ++q) if (*q != 0xA7) return false; return true; } };

PROPERTY(c07_clip, "C07/clip", 6000, "some plane adds vertices while the buffer is at least half full, or the clip must be refused") {
  Spec s = filling(c, MAXV - (c.chance(1, 2) ? 0 : (int)c.raw(std::max(1, MAXV / 2)))); describe(c, s); if (need(s) > MAXV) throw pbt::Discard();
  double R, r; extent(s, R, r); Poly heap; Guard g; r3d_poly* p; bool guarded = c.chance(1, 2);
  if (guarded) { p = g.p; CHECK(c, init(s, p) == 1, "init refused %d slots of %d", need(s), MAXV); } else { heap = make(c, s); p = heap.get(); }
  auto sx = decomp(s); int np = c.range(1, 4); std::vector<r3d_plane> prev; bool sure = true;
  for (int i = 0; i < np && p->nverts > 0; ++i) {
    auto pts = positions(p); std::string k; double R2, r2; { Spec t; t.v = pts; extent(t, R2, r2); } if (!(r2 > 0)) break;
    r3d_plane h = genplane(c, pts, R2, r2, prev, &k); prev.push_back(h); describe(c, h, k.c_str()); int kept = 0, nn = newverts(p, h, R, &kept), onv = p->nverts;
    int rc = r3d_clip(p, &h, 1);
    if (guarded) CHECK(c, g.ok(), "r3d_clip wrote outside the polyhedron");
    CHECK(c, rc == 0 || rc == 1, "r3d_clip returned %d", rc);
    if (nn >= 0) {
      if (onv + nn > MAXV) { c.label("refused"); c.nontrivial(); CHECK(c, rc == 0, "r3d_clip returned %d although %d + %d vertices do not fit in %d", rc, onv, nn, MAXV); return; }
      CHECK(c, rc == 1, "r3d_clip returned %d although %d + %d vertices fit in %d", rc, onv, nn, MAXV);
      CHECK(c, p->nverts == kept + nn, "r3d_clip left %d vertices, expected %d", p->nverts, kept + nn);
      if (nn && onv + nn == MAXV) c.label("exactly full"); if (nn && 2 * onv >= MAXV) c.nontrivial();
    } else { sure = false; if (rc == 0) { c.label("refused, by rounding"); return; } }
    CHECK(c, p->nverts >= 0 && p->nverts <= MAXV, "nverts = %d", p->nverts);
    std::string e = topo(p); CHECK(c, e.empty(), "after clip: %s", e.c_str());
    sx = ref::clip<3>(sx, tov(h)); if (sx.size() > 8000) return;
  }
  r3d_real m[4]; r3d_reduce(p, m, 1); auto e = ref::moments<3>(sx, 1);
  for (int i = 0; i < 4; ++i) { double u = EPS * (np + 2) * R * r * r * (i ? R : 1); c.measure("clip err/unit", fabs((double)((L)m[i] - e[i])) / u); CHECK(c, fabsl((L)m[i] - e[i]) <= 200 * u, "moment %d is %.17g, reference %.17Lg", i, (double)m[i], e[i]); }
}

PROPERTY(c07_clipn, "C07/clip-list", 3000, "several planes in one call; refused, or vertices were added with the buffer at least half full") {
  Spec s = filling(c, MAXV - (int)c.raw(std::max(1, MAXV / 2))); describe(c, s); if (need(s) > MAXV) throw pbt::Discard(); double R, r; extent(s, R, r);
  Poly a = make(c, s); Poly b = dup(a); int np = c.range(2, 6); std::vector<r3d_plane> ps; std::string k; for (int i = 0; i < np; ++i) { ps.push_back(genplane(c, s.v, R, r, ps, &k)); describe(c, ps.back(), k.c_str()); }
  int on = a->nverts; int rc = r3d_clip(a.get(), ps.data(), np), rs = 1; for (int i = 0; i < np && b->nverts > 0 && rs; ++i) rs = r3d_clip(b.get(), &ps[i], 1);
  if (!rs) c.label("refused"); if (!rs || 2 * on >= MAXV) c.nontrivial();
  CHECK(c, rc == rs, "one call returned %d, the same planes one by one %d", rc, rs);
  if (rc) CHECK(c, same(a.get(), b.get()), "one call and single calls give different polyhedra");
  CHECK(c, a->nverts >= 0 && a->nverts <= MAXV, "nverts = %d", a->nverts);
}

PROPERTY(c07_split, "C07/split", 5000, "the plane divides an entry that fills at least a third of the buffer, or the split must be refused") {
  int n = c.weighted({6, 2, 1}) + 1; std::vector<r3d_poly> z; r3d_poly* in = (r3d_poly*)malloc(n * sizeof(r3d_poly)); r3d_poly* op = (r3d_poly*)malloc(n * sizeof(r3d_poly)); r3d_poly* on = (r3d_poly*)malloc(n * sizeof(r3d_poly)); std::unique_ptr<void, void (*)(void*)> k1(in, free), k2(op, free), k3(on, free);
  pbt::poison(in, n * sizeof(r3d_poly), 1); pbt::poison(op, n * sizeof(r3d_poly), 2); pbt::poison(on, n * sizeof(r3d_poly), 3);
  std::vector<Spec> ss; std::vector<P3> pts; double R = 0, r = 0; for (int i = 0; i < n; ++i) { Spec s = filling(c, MAXV - (c.chance(1, 3) ? 0 : (int)c.raw(std::max(1, MAXV - 8)))); if (need(s) > MAXV) throw pbt::Discard(); describe(c, s); ss.push_back(s); double a, b; extent(s, a, b); R = std::max(R, a); r = std::max(r, b); pts.insert(pts.end(), s.v.begin(), s.v.end()); }
  std::string k; r3d_plane h = genplane(c, pts, R, r, {}, &k); describe(c, h, k.c_str()); bool amb = false, refuse = false; std::vector<int> on0, kp, nn;
  for (int i = 0; i < n; ++i) { CHECK(c, init(ss[i], &in[i]) == 1, "init refused"); int kept = 0; 
    // for a split only the strict side matters: no early exit for touching planes
    int w = newverts(&in[i], h, R + fabs((double)h.d), &kept); int full = in[i].nverts; if (w == 0 && kept == 0 && full) { int neg = 0; for (int v = 0; v < full; ++v) { L sd = ref::dot(tov(h).n, tov(in[i].verts[v].pos)) + h.d; neg += sd < 0; } kept = full - neg; w = 0; std::vector<char> out(full); for (int v = 0; v < full; ++v) out[v] = ref::dot(tov(h).n, tov(in[i].verts[v].pos)) + h.d < 0; for (int v = 0; v < full; ++v) if (!out[v]) for (int q = 0; q < 3; ++q) if (out[in[i].verts[v].pnbrs[q]]) ++w; }
    if (w < 0) amb = true; else if (full + 2 * w > MAXV) refuse = true; if (w > 0 && full * 3 >= MAXV) c.nontrivial(); if (w > 0 && full + 2 * w == MAXV) c.label("exactly full"); on0.push_back(full); kp.push_back(kept); nn.push_back(w); }
  int rc = r3d_split(in, n, h, op, on); CHECK(c, rc == 0 || rc == 1, "r3d_split returned %d", rc);
  if (amb) { c.label("decided by rounding"); if (!rc) return; }
  else if (refuse) { c.label("refused"); c.nontrivial(); CHECK(c, rc == 0, "r3d_split returned %d although the vertices do not fit", rc); return; }
  else CHECK(c, rc == 1, "r3d_split returned 0 although all vertices fit");
  for (int i = 0; i < n; ++i) {
    for (auto* q : {&op[i], &on[i]}) { std::string e = topo(q); CHECK(c, e.empty(), "after split: %s", e.c_str()); }
    if (!amb) CHECK(c, op[i].nverts == kp[i] + nn[i] && on[i].nverts == on0[i] - kp[i] + nn[i], "split of %d vertices gave %d and %d, expected %d and %d", on0[i], op[i].nverts, on[i].nverts, kp[i] + nn[i], on0[i] - kp[i] + nn[i]);
    auto sx = decomp(ss[i]); auto hp = tov(h); auto hn = hp; hn.n = -1.0L * hn.n; hn.d = -hn.d; L ep = ref::moments<3>(ref::clip<3>(sx, hp), 0)[0], en = ref::moments<3>(ref::clip<3>(sx, hn), 0)[0]; r3d_real mp, mn; r3d_reduce(&op[i], &mp, 0); r3d_reduce(&on[i], &mn, 0); double u = 600 * EPS * R * r * r;
    CHECK(c, fabsl(ep - mp) <= u && fabsl(en - mn) <= u, "split volumes %.17g and %.17g, reference %.17Lg and %.17Lg", (double)mp, (double)mn, ep, en);
  }
}

PROPERTY(c07_init, "C07/init", 6000, "the description needs more than three quarters of the buffer") {
  // descriptions on both sides of the capacity
  Spec s; Opts o; o.inverted = false; o.scales = false; o.offsets = false; int want = MAXV + c.range(-6, 8); if (c.chance(1, 6)) want = MAXV * c.range(1, 5) / 2; if (c.chance(1, 6)) want = (int)c.raw(MAXV) + 4; if (want < 4) want = 4;
  switch (c.raw(4)) {
    case 0: { int n = std::max(3, want / 2); s = prism(ring(c, n, false), 0, 1, 1, 0, 0); s.kind = "prism"; break; }
    case 1: { int n = std::max(3, c.chance(1, 2) ? want / 4 : want - 1); auto q = ring(c, n, false); for (auto& t : q) s.v.push_back({{t[0], t[1], 0}}); s.v.push_back({{0.1, 0.2, 1}}); std::vector<int> b; for (int i = 0; i < n; ++i) b.push_back(n - 1 - i); s.f.push_back(b); for (int i = 0; i < n; ++i) s.f.push_back({i, (i + 1) % n, n}); s.kind = "pyramid"; break; }
    case 2: { int left = c.chance(1, 2) ? want : want / 2; double x = 0; int nc = 0; while (left >= 4) { Spec t; if (left >= 8 && c.chance(1, 2)) t = box(x, 0, 0, x + 1, 1, 1); else if (left >= 5 && c.chance(1, 3)) { t.v = {{{x, 0, 0}}, {{x + 1, 0, 0}}, {{x + 1, 1, 0}}, {{x, 1, 0}}, {{x + 0.5, 0.5, 1}}}; t.f = {{0, 3, 2, 1}, {0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}}; } else { t.v = {{{x, 0, 0}}, {{x + 1, 0, 0}}, {{x, 1, 0}}, {{x, 0, 1}}}; t.f = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {0, 3, 2}}; } left -= (int)t.v.size(); if (nc++) append(s, t); else s = t; x += 1.5; } s.ncomp = nc; s.kind = "row"; break; }
    default: { int n = std::max(3, c.chance(1, 2) ? want / 6 : want / 3); auto q = ring(c, n, false); for (auto& t : q) s.v.push_back({{t[0], t[1], 0}}); s.v.push_back({{0, 0, 1}}); s.v.push_back({{0, 0, -1}}); for (int i = 0; i < n; ++i) { s.f.push_back({i, (i + 1) % n, n}); s.f.push_back({(i + 1) % n, i, n + 1}); } s.kind = "bipyramid"; }
  }
  if (s.v.empty()) throw pbt::Discard();
  int sum, md = maxdeg(s, &sum), nv = (int)s.v.size(); c.note("%s: %d vertices, sum of degrees %d, capacity %d", s.kind.c_str(), nv, sum, MAXV);
  Guard g; Poly heap = newpoly(4); bool guarded = c.chance(1, 2); r3d_poly* p = guarded ? g.p : heap.get();
  int need0 = md <= 3 ? nv : sum, final = md <= 3 ? nv : sum - 2 * nv; if (4 * need0 > 3 * MAXV) c.nontrivial();
  int rc = init(s, p); if (guarded) CHECK(c, g.ok(), "r3d_init_poly wrote outside the polyhedron"); CHECK(c, rc == 0 || rc == 1, "r3d_init_poly returned %d", rc);
  if (need0 <= MAXV) { c.label("fits"); CHECK(c, rc == 1, "r3d_init_poly returned %d although %d slots of %d suffice", rc, need0, MAXV); }
  if (final > MAXV) { c.label("does not fit"); CHECK(c, rc == 0, "r3d_init_poly returned %d although %d vertices do not fit in %d", rc, final, MAXV); }
  if (rc == 0) { CHECK(c, p->nverts == 0, "refused description left %d vertices", p->nverts); return; }
  Topo t; std::string e = topo(p, &t); CHECK(c, e.empty(), "%s", e.c_str()); CHECK(c, t.euler && t.ncomp == s.ncomp && p->nverts == final, "got %d vertices, %d components; expected %d, %d", p->nverts, t.ncomp, final, s.ncomp);
  double R, r; extent(s, R, r); r3d_real m; r3d_reduce(p, &m, 0); L v = ref::moments<3>(decomp(s), 0)[0]; CHECK(c, fabsl(v - m) <= 400 * EPS * R * r * r, "volume %.17g, reference %.17Lg", (double)m, v);
}

PROPERTY(c07_full, "C07/full-buffer", 250, "the vertex buffer is completely full") {
  // exactly MAXV vertices: a ring prism or a row of components
  Spec s; bool row = c.chance(1, 2) || MAXV < 8; if (!row && MAXV % 2) row = true;
  if (!row) { s = prism(ring(c, MAXV / 2, c.chance(1, 2) && MAXV > 8), 0, 1, 1, 0, 0); s.kind = "prism"; }
  else { int left = MAXV; double x = 0; int nc = 0; while (left >= 4) { Spec t; int n = left % 4 ? 6 : left >= 8 && c.chance(1, 2) ? 8 : 4; if (n > left) break; if (n == 8) t = box(x, 0, 0, x + 1, 1, 1); else if (n == 6) { t = prism({{x, 0}, {x + 1, 0}, {x, 1}}, 0, 1, 1, 0, 0); } else { t.v = {{{x, 0, 0}}, {{x + 1, 0, 0}}, {{x, 1, 0}}, {{x, 0, 1}}}; t.f = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {0, 3, 2}}; } left -= n; if (nc++) append(s, t); else s = t; x += 1.5; } s.ncomp = nc; s.kind = "row"; }
  Poly p = make(c, s); Poly keep = dup(p); c.note("%s filling %d of %d slots", s.kind.c_str(), p->nverts, MAXV); if (p->nverts == MAXV) c.nontrivial();
  double R, r; extent(s, R, r); L v = ref::moments<3>(decomp(s), 0)[0]; r3d_real m[10]; r3d_reduce(p.get(), m, 2); CHECK(c, fabsl(v - m[0]) <= 400 * EPS * R * r * r, "volume %.17g, reference %.17Lg", (double)m[0], v);
  if (MAXV <= 128 || c.chance(1, 20)) CHECK(c, r3d_is_good(p.get()) == 1, "r3d_is_good rejects a valid full polyhedron"); 
  r3d_brep* b = nullptr; r3d_int nc = -1; r3d_init_brep(p.get(), &b, &nc); CHECK(c, nc == s.ncomp, "brep has %d components, expected %d", nc, s.ncomp); int tot = 0; for (int i = 0; i < nc; ++i) { tot += b[i].numvertices; for (int f = 0; f < b[i].numfaces; ++f) for (int q = 0; q < b[i].numvertsperface[f]; ++q) CHECK(c, b[i].faceinds[f][q] >= 0 && b[i].faceinds[f][q] < b[i].numvertices, "brep index out of range"); } r3d_free_brep(&b, nc); CHECK(c, tot == p->nverts, "brep has %d vertices of %d", tot, p->nverts);
  r3d_poly_center(p.get()); r3d_dvec3 ib[2]; r3d_rvec3 d; for (int k = 0; k < 3; ++k) d.xyz[k] = (r3d_real)0.5; r3d_get_ibox(p.get(), ib, d);
  CHECK(c, same(p.get(), keep.get()), "the polyhedron was changed by read-only operations");
  r3d_plane h; memset(&h, 0, sizeof h); h.n.z = 1; h.d = 5; CHECK(c, r3d_clip(p.get(), &h, 1) == 1 && same(p.get(), keep.get()), "a plane that cuts nothing failed on a full buffer");
  Poly a = newpoly(1), e = newpoly(2); CHECK(c, r3d_split(p.get(), 1, h, a.get(), e.get()) == 1 && same(a.get(), keep.get()) && e->nverts == 0, "a split that cuts nothing failed on a full buffer");
  h.n.z = -1; h.d = -5; CHECK(c, r3d_clip(p.get(), &h, 1) == 1 && p->nverts == 0, "a plane that removes everything failed on a full buffer");
}

// ------------------------------------------------------------------ C12: validity check
typedef std::vector<std::vector<int>> Graph;     // 3 neighbours per vertex
static void setnb(Graph& g, int v, int from, int to) { for (int& x : g[v]) if (x == from) { x = to; return; } }
// every 3-connected cubic graph arises from K4 by joining midpoints of two distinct edges
static Graph cubic(Ctx& c, int n) {
  Graph g = {{1, 2, 3}, {0, 2, 3}, {0, 1, 3}, {0, 1, 2}};
  while ((int)g.size() + 2 <= n) {
    int m = (int)g.size(); int v1 = (int)c.raw(m), w1 = g[v1][c.raw(3)], v2 = (int)c.raw(m), w2 = g[v2][c.raw(3)];
    for (int t = 0; (v1 == v2 && w1 == w2) || (v1 == w2 && w1 == v2); ++t) { v2 = (v2 + 1) % m; w2 = g[v2][0]; }
    int a = m, b = m + 1; setnb(g, v1, w1, a); setnb(g, w1, v1, a); setnb(g, v2, w2, b); setnb(g, w2, v2, b); g.push_back({v1, w1, b}); g.push_back({v2, w2, a});
  }
  return g;
}
static void addg(Graph& a, const Graph& b) { int o = (int)a.size(); for (auto r : b) { for (int& x : r) x += o; a.push_back(r); } }
static Poly topoly(Ctx& c, Graph& g, bool relabel) {
  int n = (int)g.size(); std::vector<int> pm(n); for (int i = 0; i < n; ++i) pm[i] = i; if (relabel) for (int i = n - 1; i > 0; --i) std::swap(pm[i], pm[c.raw(i + 1)]);
  Poly p = newpoly(c.raw(50)); p->nverts = n; Graph h(n);
  for (int v = 0; v < n; ++v) { int t = (int)c.raw(3); bool sw = c.chance(1, 2); int ord[3] = {t, (t + 1) % 3, (t + 2) % 3}; if (sw) std::swap(ord[1], ord[2]); h[pm[v]].resize(3); for (int k = 0; k < 3; ++k) { p->verts[pm[v]].pnbrs[k] = pm[g[v][ord[k]]]; h[pm[v]][k] = p->verts[pm[v]].pnbrs[k]; p->verts[v].pos.xyz[k] = (r3d_real)k; } }
  g = h; return p;
}
static void notegraph(Ctx& c, const r3d_poly* p) { if (!c.wantdesc) return; std::string s; for (int v = 0; v < p->nverts && v < 40; ++v) s += fmt(" %d:[%d %d %d]", v, p->verts[v].pnbrs[0], p->verts[v].pnbrs[1], p->verts[v].pnbrs[2]); c.note("%d vertices%s", p->nverts, s.c_str()); }
static Graph randgraph(Ctx& c, int maxn) {
  Graph g; int nc = c.weighted({5, 3, 2, 1}) + 1; if (c.chance(1, 10)) nc = c.range(1, std::max(1, maxn / 4)); int left = maxn;
  for (int i = 0; i < nc && left >= 4; ++i) { int n = 4 + 2 * (int)c.raw(std::max(1, std::min(left - 2, i + 1 == nc && c.chance(1, 4) ? left - 2 : 22) / 2)); n = std::min(n, left & ~1); if (n < 4) n = 4; Graph h = cubic(c, n); left -= (int)h.size(); addg(g, h); }
  return g;
}
static int sizelimit(Ctx& c) { if (MAXV <= 128) return MAXV; return c.chance(1, 300) ? MAXV : 70; }
PROPERTY(c12_accept, "C12/accepts", 9000, "more than one component or more than four vertices") {
  Graph g = randgraph(c, sizelimit(c)); Poly p = topoly(c, g, true); notegraph(c, p.get()); Poly k = dup(p); if (g.size() > 4) c.nontrivial(); if ((int)g.size() == MAXV) c.label("full buffer"); if (g.size() > 200) c.label("over 200 vertices");
  CHECK(c, r3d_is_good(p.get()) == 1, "a valid graph with %d vertices is rejected", p->nverts); CHECK(c, same(p.get(), k.get()), "r3d_is_good changed the polyhedron");
}
PROPERTY(c12_spec, "C12/accepts-solids", 3000, "more than four vertices") {
  Opts o; o.cap = std::min(MAXV, 80); Spec s = gen(c, o); describe(c, s); Poly p = make(c, s); if (p->nverts > 4) c.nontrivial(); CHECK(c, r3d_is_good(p.get()) == 1, "a valid %s is rejected", s.kind.c_str());
}
PROPERTY(c12_reject, "C12/rejects", 16000, "always: every case is a broken graph of a documented kind") {
  int kind = (int)c.raw(11); Graph g = randgraph(c, c.chance(1, kind <= 5 ? 12 : 400) ? MAXV : std::min(MAXV, 60)); if (g.size() > 100) c.label("over 100 vertices"); const char* kn = ""; int n; Poly p; c.nontrivial();
  if (kind <= 5) {
    p = topoly(c, g, true); n = p->nverts; int v = (int)c.raw(n), k = (int)c.raw(3);
    switch (kind) {
      case 0: { static const int off[] = {0, 1, 2, 7, 100}; int m = (int)c.raw(7); p->verts[v].pnbrs[k] = m < 5 ? n + off[m] : m == 5 ? INT_MAX : MAXV; if (p->verts[v].pnbrs[k] < n) p->verts[v].pnbrs[k] = n; kn = "index too large"; break; }
      case 1: { int m = (int)c.raw(6); static const int ng[] = {-1, -2, -3, -17, -1000000, INT_MIN}; p->verts[v].pnbrs[k] = ng[m]; kn = "negative index"; break; }
      case 2: { p->verts[v].pnbrs[k] = v; kn = "self-pointing"; break; }
      case 3: { p->verts[v].pnbrs[k] = p->verts[v].pnbrs[(k + 1 + c.raw(2)) % 3]; kn = "double edge"; break; }
      case 4: { int w = (int)c.raw(n), t = 0; auto bad = [&](int x) { return x == v || x == p->verts[v].pnbrs[0] || x == p->verts[v].pnbrs[1] || x == p->verts[v].pnbrs[2]; }; while (bad(w) && t++ < n) w = (w + 1) % n; if (bad(w)) throw pbt::Discard(); p->verts[v].pnbrs[k] = w; kn = "wrong number of incoming edges"; break; }
      default: { // several random corruptions of the first three kinds
        int m = c.range(1, 4); for (int i = 0; i < m; ++i) { int a = (int)c.raw(n), b = (int)c.raw(3); p->verts[a].pnbrs[b] = c.chance(1, 2) ? n + (int)c.raw(50) : -1 - (int)c.raw(50); } kn = "several bad indices"; }
    }
  } else if (kind >= 9) {
    // every vertex keeps its three outgoing and three incoming links, but one lists a neighbour twice or itself
    p = topoly(c, g, true); n = p->nverts; int v = (int)c.raw(n), k = (int)c.raw(3), w = kind == 9 ? p->verts[v].pnbrs[(k + 1 + c.raw(2)) % 3] : v, z = p->verts[v].pnbrs[k], u = (int)c.raw(n), t = 0, q = -1;
    auto slot = [&](int x) { if (x == v || x == z) return -1; for (int i = 0; i < 3; ++i) if (p->verts[x].pnbrs[i] == z) return -1; for (int i = 0; i < 3; ++i) if (p->verts[x].pnbrs[i] == w) return i; return -1; };
    while ((q = slot(u)) < 0 && t++ < n) u = (u + 1) % n; if (q < 0) throw pbt::Discard();
    p->verts[v].pnbrs[k] = w; p->verts[u].pnbrs[q] = z; kn = kind == 9 ? "double edge with right counts" : "self-pointing with right counts";
  } else if (kind == 6) {
    // symmetric, but separated by two vertices: two graphs joined by two edges
    bool large = MAXV > 300 && c.chance(1, 60); Graph a = cubic(c, 4 + 2 * (int)c.raw(large ? 60 : 10)), b = cubic(c, 4 + 2 * (int)c.raw(large ? 60 : 10)); int o = (int)a.size(); addg(a, b); int a1 = (int)c.raw(o), a2 = a[a1][c.raw(3)], b1 = o + (int)c.raw(b.size()), b2 = a[b1][c.raw(3)]; setnb(a, a1, a2, b1); setnb(a, b1, b2, a1); setnb(a, a2, a1, b2); setnb(a, b2, b1, a2);
    if ((int)(a.size() + g.size()) <= std::min(MAXV, large ? 400 : 80)) { if (c.chance(1, 2)) addg(g, a); else { Graph t = a; addg(t, g); g = t; } } else g = a; if ((int)g.size() > MAXV) throw pbt::Discard(); p = topoly(c, g, c.chance(3, 4)); kn = "separated by two vertices";
  } else if (kind == 7) {
    Graph a = cubic(c, 4 + 2 * (int)c.raw(8)), b = cubic(c, 4 + 2 * (int)c.raw(8)); int o = (int)a.size(); addg(a, b); int a1 = (int)c.raw(o), a2 = a[a1][c.raw(3)], b1 = o + (int)c.raw(b.size()), b2 = a[b1][c.raw(3)]; int x = (int)a.size(), y = x + 1; setnb(a, a1, a2, x); setnb(a, a2, a1, x); setnb(a, b1, b2, y); setnb(a, b2, b1, y); a.push_back({a1, a2, y}); a.push_back({b1, b2, x});
    if ((int)(a.size() + g.size()) <= std::min(MAXV, 80)) addg(g, a); else g = a; if ((int)g.size() > MAXV) throw pbt::Discard(); p = topoly(c, g, c.chance(3, 4)); kn = "separated by one vertex";
  } else {
    // three vertices with loops: every vertex is pointed to three times
    Graph a = {{0, 1, 2}, {1, 0, 2}, {2, 0, 1}}; if ((int)g.size() + 3 <= MAXV && c.chance(2, 3)) addg(g, a); else g = a; p = topoly(c, g, true); kn = "loops";
  }
  c.label(kn); c.note("%s", kn); notegraph(c, p.get()); Poly k = dup(p);
  int rc = r3d_is_good(p.get()); CHECK(c, rc == 0, "%s: r3d_is_good returned %d", kn, rc); CHECK(c, same(p.get(), k.get()), "r3d_is_good changed the polyhedron");
}

// ------------------------------------------------------------------ C10, C11: voxelization
struct Scene { Spec s; double R, r; double d[3]; bool lattice, fine = false, near = false, dense = false; };
static Scene scene(Ctx& c, bool small) {
  Scene z; Opts o; o.cap = std::min(MAXV / 8, 48); o.scales = false; o.offsets = false; o.big = false; z.lattice = c.chance(1, 3);
  if (z.lattice) { o.transforms = false; int m = (int)c.raw(4); Spec s; if (m == 0) { double x = c.sym(4), y = c.sym(4), w = c.sym(4); s = box(x, y, w, x + 1 + c.raw(4), y + 1 + c.raw(4), w + 1 + c.raw(4)); } else if (m == 1) { do { s = Spec(); for (int i = 0; i < 4; ++i) s.v.push_back({{(double)c.sym(3), (double)c.sym(3), (double)c.sym(3)}}); s.f = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {0, 3, 2}}; L v = vol6(s.v[0], s.v[1], s.v[2], s.v[3]); if (v == 0) { s.v = {{{0, 0, 0}}, {{2, 0, 0}}, {{0, 2, 0}}, {{0, 0, 2}}}; } else if (v < 0) std::swap(s.v[1], s.v[2]); } while (0); s.kind = "lattice tet"; } else if (m == 2) { s = basic(c, 8, o.cap); double t[3] = {(double)c.sym(4), (double)c.sym(4), (double)c.sym(4)}; for (auto& p : s.v) for (int k = 0; k < 3; ++k) p.x[k] += t[k]; } else { s.v = {{{0, 0, 2}}, {{2, 0, 0}}, {{0, 2, 0}}, {{-2, 0, 0}}, {{0, -2, 0}}, {{0, 0, -2}}}; s.f = {{1, 2, 0}, {2, 3, 0}, {3, 4, 0}, {4, 1, 0}, {2, 1, 5}, {3, 2, 5}, {4, 3, 5}, {1, 4, 5}}; s.kind = "octahedron"; s.convex = true; double t[3] = {(double)c.sym(3), (double)c.sym(3), (double)c.sym(3)}; for (auto& p : s.v) for (int k = 0; k < 3; ++k) p.x[k] += t[k]; }
    z.s = s; if (c.chance(1, 8)) { flip(z.s); z.s.inverted = true; } }
  else { z.dense = MAXV >= 256 && c.chance(1, 25); if (z.dense) { // many vertices, and only a few cells
      bool cv = c.chance(1, 2); double t[3]; t[0] = c.chance(1, 2) ? 1 : c.uni(0.4, 1.5); t[1] = c.uni(-1, 1) * (t[0] != 1); t[2] = c.uni(-1, 1) * (t[0] != 1); z.s = prism(ring(c, c.range(16, std::min(80, MAXV / 6)), !cv), 0, c.uni(0.2, 2), t[0], t[1], t[2]); z.s.kind = cv ? "dense prism" : "dense starprism"; z.s.exactplanar = false; z.s.convex = false; place(c, z.s, o); }
    else z.s = gen(c, o); if (c.chance(1, 3)) { double far = c.chance(1, 6) ? pow(10, c.uni(1, sizeof(r3d_real) == 4 ? 2 : 5)) : 1; double R, r; extent(z.s, R, r); double t[3]; for (double& q : t) q = r * c.uni(-6, 6) * far; for (auto& p : z.s.v) for (int k = 0; k < 3; ++k) p.x[k] = rnd(p.x[k] + t[k]); z.s.exactplanar = false; } }
  extent(z.s, z.R, z.r); if (z.R < z.r) z.R = z.r;
  int mx = z.dense ? 2 : small ? 4 : 7; double lo[3], hi[3]; for (int k = 0; k < 3; ++k) { lo[k] = 1e300; hi[k] = -1e300; for (auto& p : z.s.v) { lo[k] = std::min(lo[k], p.x[k]); hi[k] = std::max(hi[k], p.x[k]); } }
  bool iso = c.chance(1, 2); double m0 = c.uni(0.6, mx); int fine = !z.dense && c.chance(1, 20) ? (int)c.raw(3) : -1; double fm = fine >= 0 && c.chance(1, 12) ? 1500 : 200; if (z.lattice || small) fine = -1; z.fine = fine >= 0;
  for (int k = 0; k < 3; ++k) { if (z.lattice) { static const double g[] = {1, 0.5, 2, 0.75}; z.d[k] = iso && k ? z.d[0] : g[c.raw(4)]; } else z.d[k] = iso ? z.r / m0 : std::max((hi[k] - lo[k]) / c.uni(0.3, mx), z.r * 0.02); if (fine >= 0) z.d[k] = k == fine ? std::max(hi[k] - lo[k], z.r * 0.1) / c.uni(20, fm) : std::max(hi[k] - lo[k], z.r * 0.1) / c.uni(0.5, 1.9); z.d[k] = rnd(std::max(z.d[k], z.R / 1e9)); } // the indices must fit an int
  if (z.lattice && c.chance(1, 3)) { // nearly aligned: off the grid planes by far less than a cell
    bool tri = true; for (auto& f : z.s.f) if (f.size() > 3) tri = false; double t[3]; for (int k = 0; k < 3; ++k) t[k] = c.chance(1, 4) ? 0 : (c.chance(1, 2) ? -1 : 1) * z.d[k] * pow(10, -c.uni(2, 14)); bool each = tri && c.chance(1, 2); double m = pow(10, -c.uni(2, 14));
    for (auto& p : z.s.v) for (int k = 0; k < 3; ++k) p.x[k] = rnd(p.x[k] + (each ? c.sym(2) * m * z.d[k] : t[k]));
    z.s.exactplanar = false; z.near = true; }
  if (c.chance(1, 5)) { double f = ldexp(1, c.sym(sizeof(r3d_real) == 4 ? 8 : 40)); for (auto& p : z.s.v) for (double& x : p.x) x *= f; for (double& x : z.d) x *= f; }
  extent(z.s, z.R, z.r); if (z.R < z.r) z.R = z.r;
  return z;
}
static void note(Ctx& c, const Scene& z) { describe(c, z.s); c.note("d = (%.17g, %.17g, %.17g)", z.d[0], z.d[1], z.d[2]); c.label(z.near ? "nearly aligned" : z.lattice ? "lattice-aligned" : "general"); if (z.r < 1e-3 || z.r > 1e3) c.label("scaled"); c.label("shape:" + z.s.kind.substr(0, z.s.kind.find('('))); }
// compares one voxelization with the reference; lo/hi give the index box
static void voxel_compare(Ctx& c, const Scene& z, const std::vector<ref::Simplex<3>>& sx, r3d_poly* p, const int* lo, const int* hi, int order) {
  int n[3]; long tot = 1; for (int k = 0; k < 3; ++k) { n[k] = hi[k] - lo[k]; tot *= n[k]; } int nm = R3D_NUM_MOMENTS(order); std::vector<r3d_real> g(tot * nm + 64), g0; bool zero = c.chance(1, 2); uint64_t sd = c.raw(1000);
  for (size_t i = 0; i < g.size(); ++i) g[i] = zero ? 0 : (r3d_real)((double)(pbt::mix(sd + i) % 1000) / 500.0 - 1) * (r3d_real)(z.r * z.r * z.r);
  g0 = g; r3d_real* grid = (r3d_real*)malloc(tot * nm * sizeof(r3d_real)); std::unique_ptr<void, void (*)(void*)> kk(grid, free); memcpy(grid, g.data(), tot * nm * sizeof(r3d_real));
  r3d_dvec3 ib[2]; r3d_rvec3 d; for (int k = 0; k < 3; ++k) { ib[0].ijk[k] = lo[k]; ib[1].ijk[k] = hi[k]; d.xyz[k] = (r3d_real)z.d[k]; }
  Poly keep = newpoly(1); *keep = *p; r3d_dvec3 ib0[2] = {ib[0], ib[1]};
  r3d_voxelize(p, ib, g.data() + 32, d, order); r3d_voxelize(p, ib, grid, d, order);
  CHECK(c, memcmp(p, keep.get(), sizeof(r3d_poly)) == 0, "r3d_voxelize changed the polyhedron"); CHECK(c, memcmp(ib, ib0, sizeof ib) == 0, "r3d_voxelize changed the index box");
  for (int i = 0; i < 32; ++i) { CHECK(c, memcmp(&g[i], &g0[i], sizeof(r3d_real)) == 0, "memory before the grid was changed"); CHECK(c, memcmp(&g[g.size() - 1 - i], &g0[g.size() - 1 - i], sizeof(r3d_real)) == 0, "memory behind the grid was changed"); }
  double blo[3], bhi[3]; for (int k = 0; k < 3; ++k) { blo[k] = 1e300; bhi[k] = -1e300; for (int v = 0; v < p->nverts; ++v) { blo[k] = std::min(blo[k], (double)p->verts[v].pos.xyz[k]); bhi[k] = std::max(bhi[k], (double)p->verts[v].pos.xyz[k]); } }
  double rc = 0; for (int k = 0; k < 3; ++k) rc = std::max(rc, z.d[k]); rc = std::min(rc, z.r); std::vector<L> sum(nm, 0), lib(nm, 0); int met = 0; double mg = 32 * EPS * z.R; long cells = 0;
  ref::cells<3>(sx, lo, hi, z.d, [&](const int* id, const std::vector<ref::Simplex<3>>& part) {
    auto e = ref::moments<3>(part, order); long at = ((long)(id[0] - lo[0]) * n[1] + (id[1] - lo[1])) * n[2] + (id[2] - lo[2]); bool away = p->nverts == 0; ++cells;
    for (int k = 0; k < 3; ++k) if (bhi[k] < z.d[k] * id[k] - mg || blo[k] > z.d[k] * (id[k] + 1) + mg) away = true;
    if (!part.empty()) ++met;
    for (int m = 0; m < nm; ++m) {
      r3d_real a = g0[32 + at * nm + m], b = g[32 + at * nm + m]; L got = (L)b - a; int kk = ref::total_order3(m);
      if (away) { CHECK(c, memcmp(&a, &b, sizeof a) == 0, "cell (%d,%d,%d) does not meet the body, but moment %d changed from %.17g to %.17g", id[0], id[1], id[2], m, (double)a, (double)b); continue; }
      double u = EPS * 8 * z.R * rc * rc * powi(z.R, kk), ua = EPS * fabs((double)a); double err = (double)fabsl(got - e[m]);
      c.measure(fmt("voxel err/unit order %d", kk), std::max(0.0, err - 2 * ua) / u);
      CHECK(c, err <= 150 * u + 2 * ua, "cell (%d,%d,%d): moment %d is %.17Lg, reference %.17Lg (error %.3g, unit %.3g)", id[0], id[1], id[2], m, got, e[m], err, u); sum[m] += e[m]; lib[m] += got;
    }
  });
  // the second grid saw the same initial values in exact-size memory
  for (long i = 0; i < tot * nm; ++i) { r3d_real a = g0[i], b = grid[i], a2 = g0[32 + i], b2 = g[32 + i]; double t = 4 * EPS * (fabs((double)b - (double)a) + fabs((double)a) + fabs((double)a2)); CHECK(c, fabs(((double)b - (double)a) - ((double)b2 - (double)a2)) <= t, "two voxelizations of the same body differ at %ld", i); }
  if (met > 1) { c.nontrivial(); c.label("several cells"); }
  c.measure("cells", (double)cells);
}
PROPERTY(c10_voxel, "C10/cells", 6000, "the body meets more than one cell") {
  Scene z = scene(c, false); note(c, z); Poly p = make(c, z.s); r3d_rvec3 d; for (int k = 0; k < 3; ++k) d.xyz[k] = (r3d_real)z.d[k]; r3d_dvec3 ib[2]; r3d_get_ibox(p.get(), ib, d);
  int lo[3], hi[3]; bool wide = c.chance(1, 2); for (int k = 0; k < 3; ++k) { double a = 1e300, b = -1e300; for (auto& q : z.s.v) { a = std::min(a, q.x[k]); b = std::max(b, q.x[k]); } lo[k] = (int)floor(a / z.d[k]); hi[k] = (int)ceil(b / z.d[k]); if (hi[k] <= lo[k]) hi[k] = lo[k] + 1; if (wide) { lo[k] -= (int)c.raw(3); hi[k] += (int)c.raw(3); } }
  if (wide) c.label("grid larger than the body"); for (int k = 0; k < 3; ++k) if (lo[k] < 0) { c.label("negative indices"); break; }
  if (1.0 * (hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2]) > (z.fine ? 2500 : 700)) throw pbt::Discard(); if (z.fine) c.label("long axis");
  int order = (int)c.raw(z.fine && !c.chance(1, 8) ? 3 : 4); if (c.chance(1, 10) && (hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2]) <= 64) { order = c.range(4, 9); c.label("order above 3"); } order = ref::fitorder<r3d_real>(order, 3, z.R, z.r); c.note("index box (%d,%d,%d)-(%d,%d,%d) order %d", lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], order);
  voxel_compare(c, z, decomp(z.s), p.get(), lo, hi, order);
}
PROPERTY(c10_huge, "C10/huge-grid", 400, "the body's cells lie more than 2^31 entries into the grid") {
  Scene z = scene(c, true); note(c, z); Poly p = make(c, z.s); r3d_rvec3 d; r3d_dvec3 ib[2]; int lo[3], hi[3], n[3], xl[3], xh[3]; long a[3], b[3], N[3]; int order = (int)c.raw(4), nm = R3D_NUM_MOMENTS(order);
  for (int k = 0; k < 3; ++k) { d.xyz[k] = (r3d_real)z.d[k]; double x = 1e300, y = -1e300; for (auto& q : z.s.v) { x = std::min(x, q.x[k]); y = std::max(y, q.x[k]); } lo[k] = (int)floor(x / z.d[k]); hi[k] = (int)ceil(y / z.d[k]); if (hi[k] <= lo[k]) hi[k] = lo[k] + 1; n[k] = hi[k] - lo[k]; if (abs(lo[k]) > 1 << 28 || abs(hi[k]) > 1 << 28) throw pbt::Discard(); }
  if (1.0 * n[0] * n[1] * n[2] > 150) throw pbt::Discard(); pbt::huge_extent(c, 3, n, nm, a, b); size_t tot = nm;
  for (int k = 0; k < 3; ++k) { N[k] = a[k] + n[k] + b[k]; tot *= N[k]; ib[0].ijk[k] = (int)(lo[k] - a[k]); ib[1].ijk[k] = (int)(hi[k] + b[k]); xl[k] = lo[k] - (a[k] > 0); xh[k] = hi[k] + (b[k] > 0); }
  c.note("cells (%d,%d,%d)-(%d,%d,%d) in the index box (%d,%d,%d)-(%d,%d,%d), order %d, %zu entries", lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], ib[0].i, ib[0].j, ib[0].k, ib[1].i, ib[1].j, ib[1].k, order, tot); if (tot > ((size_t)1 << 34)) throw pbt::Discard();
  pbt::HugeGrid g(tot * sizeof(r3d_real)); const r3d_real* v = (const r3d_real*)g.p; r3d_voxelize(p.get(), ib, (r3d_real*)g.p, d, order);
  double blo[3], bhi[3]; for (int k = 0; k < 3; ++k) { blo[k] = 1e300; bhi[k] = -1e300; for (auto& q : z.s.v) { blo[k] = std::min(blo[k], q.x[k]); bhi[k] = std::max(bhi[k], q.x[k]); } }
  double rc = 0, mg = 32 * EPS * z.R; for (int k = 0; k < 3; ++k) rc = std::max(rc, z.d[k]); rc = std::min(rc, z.r);
  ref::cells<3>(decomp(z.s), xl, xh, z.d, [&](const int* id, const std::vector<ref::Simplex<3>>& part) {
    auto e = ref::moments<3>(part, order); size_t at = (((size_t)(id[0] - lo[0] + a[0]) * N[1] + (size_t)(id[1] - lo[1] + a[1])) * N[2] + (size_t)(id[2] - lo[2] + a[2])) * nm; bool away = false; if (at >= (size_t)1 << 31) c.nontrivial();
    for (int k = 0; k < 3; ++k) if (bhi[k] < z.d[k] * id[k] - mg || blo[k] > z.d[k] * (id[k] + 1) + mg) away = true;
    for (int m = 0; m < nm; ++m) { double got = v[at + m]; if (away) { CHECK(c, got == 0, "cell (%d,%d,%d) does not meet the body, but moment %d is %.17g", id[0], id[1], id[2], m, got); continue; } double u = EPS * 8 * z.R * rc * rc * powi(z.R, ref::total_order3(m)); CHECK(c, fabsl(got - e[m]) <= 150 * u, "cell (%d,%d,%d), entry %zu: moment %d is %.17g, reference %.17Lg", id[0], id[1], id[2], at + m, m, got, e[m]); }
  });
}
PROPERTY(c10_none, "C10/nothing-to-do", 400, "always") {
  c.nontrivial(); int order = (int)c.raw(3), nm = R3D_NUM_MOMENTS(order); r3d_dvec3 ib[2]; for (int k = 0; k < 3; ++k) { ib[0].ijk[k] = c.sym(3); ib[1].ijk[k] = ib[0].ijk[k] + c.range(1, 3); } r3d_rvec3 d; for (int k = 0; k < 3; ++k) d.xyz[k] = (r3d_real)c.uni(0.1, 2);
  std::vector<r3d_real> g(27 * nm, (r3d_real)1.25); Poly p = newpoly(c.raw(9)); p->nverts = 0; bool inv = c.chance(1, 2);
  if (inv) { r3d_rvec3 b[2]; for (int k = 0; k < 3; ++k) { b[0].xyz[k] = 0; b[1].xyz[k] = 1; } r3d_init_box(p.get(), b); int k = (int)c.raw(3); ib[1].ijk[k] = ib[0].ijk[k] - (int)c.raw(3); c.note("index box without cells"); } else c.note("empty polyhedron");
  r3d_voxelize(nullptr, ib, g.data(), d, order); { Poly z = newpoly(1); r3d_rvec3 b[2]; r3d_dvec3 zb[2]; for (int k = 0; k < 3; ++k) { b[0].xyz[k] = 0; b[1].xyz[k] = 2 * d.xyz[k]; zb[0].ijk[k] = 0; zb[1].ijk[k] = 2; } r3d_init_box(z.get(), b); r3d_voxelize(z.get(), zb, nullptr, d, order); } r3d_voxelize(p.get(), ib, g.data(), d, order); for (auto x : g) CHECK(c, x == (r3d_real)1.25, "the grid was changed");
}
PROPERTY(c11_ibox, "C11/minimal-box", 30000, "the body spans more than one cell in some direction") {
  Scene z = scene(c, false); note(c, z); Poly p = make(c, z.s); Poly keep = dup(p); r3d_rvec3 d; for (int k = 0; k < 3; ++k) { if (c.chance(1, 3)) z.d[k] = rnd(std::max(z.d[k] * c.uni(0.01, 30), z.R / 1e9)); d.xyz[k] = (r3d_real)z.d[k]; } r3d_dvec3 ib[2]; pbt::poison(ib, sizeof ib, 3); r3d_get_ibox(p.get(), ib, d);
  CHECK(c, same(p.get(), keep.get()), "r3d_get_ibox changed the polyhedron");
  for (int k = 0; k < 3; ++k) { double a = 1e300, b = -1e300; for (auto& q : z.s.v) { a = std::min(a, q.x[k]); b = std::max(b, q.x[k]); } if (b - a > z.d[k]) c.nontrivial(); if (a < 0) c.label("negative coordinates");
    CHECK(c, ref::okfloor(a, z.d[k], ib[0].ijk[k], EPS), "axis %d: lower index %d, but the body starts at %.17g, spacing %.17g", k, ib[0].ijk[k], a, z.d[k]); CHECK(c, ref::okceil(b, z.d[k], ib[1].ijk[k], EPS), "axis %d: upper index %d, but the body ends at %.17g, spacing %.17g", k, ib[1].ijk[k], b, z.d[k]); }
}
PROPERTY(c11_clamp, "C11/clamp", 10000, "the clamp range cuts the body's index box") {
  Scene z = scene(c, true); note(c, z); Poly p = make(c, z.s); Poly orig = dup(p); r3d_rvec3 d; for (int k = 0; k < 3; ++k) d.xyz[k] = (r3d_real)z.d[k]; r3d_dvec3 ib[2], cb[2], cb0[2]; r3d_get_ibox(p.get(), ib, d); r3d_dvec3 ib0[2] = {ib[0], ib[1]};
  bool disjoint = false, cut = false; int lo[3], hi[3];
  for (int k = 0; k < 3; ++k) { int a = ib[0].ijk[k], b = ib[1].ijk[k], n = b - a; switch (c.weighted({3, 3, 3, 3, 1, 1})) { case 0: cb[0].ijk[k] = a - (int)c.raw(3); cb[1].ijk[k] = b + (int)c.raw(3); break; case 1: cb[0].ijk[k] = a + (int)c.raw(std::max(1, n)); cb[1].ijk[k] = b + (int)c.raw(3); break; case 2: cb[0].ijk[k] = a - (int)c.raw(3); cb[1].ijk[k] = b - (int)c.raw(std::max(1, n)); break; case 3: cb[0].ijk[k] = a + (int)c.raw(std::max(1, n)); cb[1].ijk[k] = cb[0].ijk[k] + 1 + (int)c.raw(std::max(1, b - cb[0].ijk[k])); break; case 4: cb[0].ijk[k] = b + (int)c.raw(2); cb[1].ijk[k] = cb[0].ijk[k] + c.range(1, 3); break; default: cb[1].ijk[k] = a - (int)c.raw(2); cb[0].ijk[k] = cb[1].ijk[k] - c.range(1, 3); }
    lo[k] = std::max(a, cb[0].ijk[k]); hi[k] = std::min(b, cb[1].ijk[k]); if (b <= cb[0].ijk[k] || a >= cb[1].ijk[k]) disjoint = true; if (lo[k] > a || hi[k] < b) cut = true; }
  memcpy(cb0, cb, sizeof cb); for (int k = 0; k < 3; ++k) c.note("axis %d: box [%d,%d) clamp [%d,%d)", k, ib[0].ijk[k], ib[1].ijk[k], cb[0].ijk[k], cb[1].ijk[k]);
  r3d_clamp_ibox(p.get(), ib, cb, d); CHECK(c, memcmp(cb, cb0, sizeof cb) == 0, "the clamp range was changed"); (void)ib0;
  if (disjoint) { c.label("disjoint"); CHECK(c, p->nverts == 0, "nothing overlaps, but %d vertices remain", p->nverts); for (int k = 0; k < 3; ++k) CHECK(c, ib[0].ijk[k] == 0 && ib[1].ijk[k] == 0, "nothing overlaps, but the box is not zeroed"); return; }
  for (int k = 0; k < 3; ++k) CHECK(c, ib[0].ijk[k] == lo[k] && ib[1].ijk[k] == hi[k], "axis %d: clamped box [%d,%d), expected [%d,%d)", k, ib[0].ijk[k], ib[1].ijk[k], lo[k], hi[k]);
  if (!cut) { c.label("clamp covers"); CHECK(c, same(p.get(), orig.get()), "a covering clamp range changed the body"); }
  else c.nontrivial();
  std::string e = topo(p.get()); CHECK(c, e.empty(), "clamped body: %s", e.c_str());
  double tol = 64 * EPS * z.R; for (int v = 0; v < p->nverts; ++v) for (int k = 0; k < 3; ++k) { double x = p->verts[v].pos.xyz[k]; CHECK(c, x >= lo[k] * z.d[k] - tol && x <= hi[k] * z.d[k] + tol, "vertex %d outside the clamp range", v); }
  auto sx = decomp(z.s); for (int k = 0; k < 3; ++k) { ref::Plane<3> h; h.n = V3{{0, 0, 0}}; h.n[k] = 1; h.d = -(L)z.d[k] * lo[k]; if (lo[k] > ib0[0].ijk[k]) sx = ref::clip<3>(sx, h); h.n[k] = -1; h.d = (L)z.d[k] * hi[k]; if (hi[k] < ib0[1].ijk[k]) sx = ref::clip<3>(sx, h); }
  auto em = ref::moments<3>(sx, 2); r3d_real m[10]; r3d_reduce(p.get(), m, 2); for (int i = 0; i < 10; ++i) { double u = EPS * 8 * z.R * z.r * z.r * powi(z.R, ref::total_order3(i)); c.measure("clamp err/unit", (double)fabsl(em[i] - m[i]) / u); CHECK(c, fabsl(em[i] - m[i]) <= 150 * u, "clamped body: moment %d is %.17g, reference %.17Lg", i, (double)m[i], em[i]); }
  // voxelizing the clamped body on the clamped box: the original body's cells
  if (1.0 * (hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2]) <= 150 && c.chance(1, 3)) { c.label("voxelized"); voxel_compare(c, z, decomp(z.s), p.get(), lo, hi, (int)c.raw(3)); }
}
