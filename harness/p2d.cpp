// 2D: clipping, splitting, integration, rasterization, index boxes, transformations, initialisation, validity
#include "gen2.hpp"
#include "cells.hpp"
#include <climits>
using namespace g2;
using pbt::fmt;
static const double EPS = REPS2;
static const int MAXV = R2D_MAX_VERTS;
static double powi(double x, int k) { double r = 1; while (k-- > 0) r *= x; return r; }
static const double CC = 60;
template <class F> static void cmp_moments(Ctx& c, const char* what, const r2d_real* m, const std::vector<L>& e, int order, F unit, double C) {
  for (int i = 0; i < R2D_NUM_MOMENTS(order); ++i) {
    int k = ref::total_order2(i); double u = unit(k), err = (double)fabsl((L)m[i] - e[i]);
    CHECK(c, std::isfinite((double)m[i]), "%s: moment %d is not finite", what, i);
    c.measure(fmt("%s err/unit order %d", what, std::min(k, 6)), err / u);
    CHECK(c, err <= C * u, "%s: moment %d is %.17g, reference %.17Lg (error %.3g = %.3g units of %.3g)", what, i, (double)m[i], e[i], err, err / u, u);
  }
}
static int gen_order(Ctx& c, int mx = 5) { static const int w[] = {0, 1, 2, 2, 3, 1, 0, 4, 2, 5}; return std::min(mx, w[c.raw(10)]); }
static std::vector<r2d_plane> genlines(Ctx& c, const std::vector<P2>& v, int n, double R, double r, bool nodrop = false) {
  std::vector<r2d_plane> ps; std::string k;
  for (int i = 0; i < n; ++i) { r2d_plane p = genline(c, v, R, r, ps, &k); if (nodrop && k == "drops-all") { for (int q = 0; q < 2; ++q) p.n.xy[q] = -p.n.xy[q]; p.d = -p.d; } c.label("line:" + k); describe(c, p, k.c_str()); ps.push_back(p); }
  return ps;
}
static void bounds(const std::vector<P2>& v, double* lo, double* hi) { for (int k = 0; k < 2; ++k) { lo[k] = 1e300; hi[k] = -1e300; for (auto& q : v) { lo[k] = std::min(lo[k], q.x[k]); hi[k] = std::max(hi[k], q.x[k]); } } }
static bool isaxis(const r2d_plane& p) { return (fabs((double)p.n.x) == 1.0 && p.n.y == 0) || (fabs((double)p.n.y) == 1.0 && p.n.x == 0); }

PROPERTY(c13_moments, "C13/moments", 30000, "the reference area is strictly between 0 and the input's") {
  Opts o; o.cap = c.chance(1, 10) ? c.chance(1, 2) ? MAXV - 6 : 100 : 36; Spec s = gen(c, o); describe(c, s); c.label("shape:" + s.kind.substr(0, s.kind.find('(')));
  auto v = s.pts(); double R, r; extent(v, R, r); double P = perimeter(s);
  int np = c.chance(1, 12) ? c.range(7, 16) : c.range(1, 6); auto ps = genlines(c, v, np, R, r); int order = ref::fitorder<r2d_real>(gen_order(c), 2, R, r);
  Poly p = make(c, s, c.chance(1, 3)), orig = dup(p);
  if (!fits(c, p.get(), ps, 64 * EPS * R)) { c.label("would not fit"); throw pbt::Discard(); }
  auto pin = ps; pbt::dirty_stack(np * 977 + s.n()); r2d_clip(p.get(), pin.data(), np);
  CHECK(c, memcmp(pin.data(), ps.data(), np * sizeof(r2d_plane)) == 0, "r2d_clip changed the lines");
  std::string te = topo(p.get()); CHECK(c, te.empty(), "after clip: %s", te.c_str()); CHECK(c, r2d_is_good(p.get()) == 1, "r2d_is_good rejects the result");
  double lo[2], hi[2], tol = 64 * EPS * R * (np + 1); bounds(v, lo, hi);
  for (int i = 0; i < p->nverts; ++i) {
    V2 x = tov(p->verts[i].pos); for (int k = 0; k < 2; ++k) CHECK(c, x[k] >= lo[k] - tol && x[k] <= hi[k] + tol, "vertex %d leaves the original bounds", i);
    for (int j = 0; j < np; ++j) { L sd = ref::dot(tov(ps[j]).n, x) + ps[j].d; c.measure("line violation/(eps R)", (double)(-sd) / (EPS * R)); CHECK(c, sd >= -tol, "vertex %d violates line %d by %.3Lg", i, j, -sd); }
  }
  bool allkeep = true, dropped = false;
  for (int i = 0; i < np; ++i) {
    auto h = tov(ps[i]); L mn = 1e4000L, mx = -1e4000L; for (auto& q : v) { L sd = ref::dot(h.n, tov(q)) + h.d; mn = std::min(mn, sd); mx = std::max(mx, sd); }
    bool ax = isaxis(ps[i]); double mg = ax ? 0 : 16 * EPS * R; if (!(mn >= mg)) allkeep = false; if (mx < -16 * EPS * R * (i + 1) || (i == 0 && ax && mx <= 0 && mn < 0)) dropped = true;
  }
  if (allkeep) { c.label("result:all-kept"); CHECK(c, same(p.get(), orig.get()), "no line cuts the polygon, but it was changed"); }
  if (dropped) { c.label("result:all-dropped"); CHECK(c, p->nverts == 0, "one line excludes the whole polygon, but %d vertices remain", p->nverts); }
  auto sx = decomp(s); L a0 = ref::moments<2>(sx, 0)[0]; for (int i = 0; i < np; ++i) { sx = ref::clip<2>(sx, tov(ps[i])); if (sx.size() > 8000) { c.label("reference too large"); return; } }
  auto e = ref::moments<2>(sx, order); std::vector<r2d_real> m(R2D_NUM_MOMENTS(order)); r2d_reduce(p.get(), m.data(), order);
  auto un = [&](int k) { return EPS * (np + 2) * R * P * powi(R, k); };
  if (fabsl(e[0]) > 1e3 * un(0) && fabsl(e[0] - a0) > 1e3 * un(0)) { c.nontrivial(); c.label("result:cut"); }
  cmp_moments(c, "clip", m.data(), e, order, un, CC);
}
PROPERTY(c13_order, "C13/order", 10000, "the common result is a nonempty proper part of the input") {
  Opts o; Spec s = gen(c, o); describe(c, s); auto v = s.pts(); double R, r; extent(v, R, r); double P = perimeter(s); int np = c.range(2, 8); auto ps = genlines(c, v, np, R, r, true);
  Poly a = make(c, s), b = dup(a), d = dup(a), z = dup(a); std::vector<int> perm(np); for (int i = 0; i < np; ++i) perm[i] = i; for (int i = np - 1; i > 0; --i) std::swap(perm[i], perm[c.raw(i + 1)]); std::vector<r2d_plane> q; for (int i : perm) q.push_back(ps[i]);
  if (!fits(c, a.get(), ps, 64 * EPS * R) || !fits(c, a.get(), q, 64 * EPS * R)) throw pbt::Discard();
  r2d_clip(a.get(), ps.data(), np); for (int i = 0; i < np;) { int k = c.range(1, np - i); r2d_clip(b.get(), q.data() + i, k); i += k; } for (int j = 0; j < np; ++j) r2d_clip(d.get(), &ps[j], 1);
  CHECK(c, same(a.get(), d.get()), "one call with %d lines differs from %d calls", np, np);
  r2d_real ma[6], mb[6], mo[6]; r2d_reduce(a.get(), ma, 2); r2d_reduce(b.get(), mb, 2); r2d_reduce(z.get(), mo, 2); auto un = [&](int k) { return 2 * EPS * (np + 2) * R * P * powi(R, k); };
  if (fabs((double)ma[0]) > 1e3 * un(0) && fabs((double)ma[0] - (double)mo[0]) > 1e3 * un(0)) c.nontrivial();
  for (int m = 0; m < 6; ++m) CHECK(c, fabs((double)ma[m] - (double)mb[m]) <= CC * un(ref::total_order2(m)), "moment %d depends on the order of the lines: %.17g vs %.17g", m, (double)ma[m], (double)mb[m]);
}
// arbitrary inside/outside patterns around the loops
PROPERTY(c13_long, "C13/long-list", 1500, "more than 16 lines in one call, and one of the last four cuts") {
  Opts o; o.cap = 36; Spec s = gen(c, o); describe(c, s); auto v = s.pts(); double R, r; extent(v, R, r); double P = perimeter(s);
  static const int lens[6][2] = {{17, 36}, {37, 70}, {71, 140}, {141, 270}, {271, 520}, {521, 1100}}; int w = c.weighted({4, 3, 3, 2, 2, 1}), np = c.range(lens[w][0], lens[w][1]);
  V2 o0{{0, 0}}; for (auto& q : v) o0 = o0 + (1.0L / v.size()) * tov(q);
  int cuts = std::min(np, c.range(1, 30)); std::vector<int> cut(np, 0); for (int i = 0; i < cuts; ++i) cut[i ? c.raw(np) : np - 1 - c.raw(4)] = 1;
  std::vector<r2d_plane> ps, pc; double rho = c.uni(0.3, 0.8), far = 4 * r + 1e-300;
  for (int i = 0; i < np; ++i) { double t = c.uni(0, 6.2831853071795862); r2d_plane h = mkline(V2{{cosl(t), sinl(t)}}, 0); L d = 0; for (int k = 0; k < 2; ++k) d -= (L)h.n.xy[k] * o0[k]; h.d = (r2d_real)(d + (cut[i] ? rho * r : far)); ps.push_back(h); if (cut[i]) pc.push_back(h); }
  c.note("%d lines, %d of them tangent to a circle of %.3g radii, the others beyond the polygon", np, (int)pc.size(), rho); c.label(fmt("lists up to %d", lens[w][1]));
  Poly a = make(c, s, true), b = dup(a); if (!fits(c, a.get(), pc, 64 * EPS * R)) throw pbt::Discard(); auto pin = ps;
  for (int i = 0; i < np; ++i) r2d_clip(b.get(), &pin[i], 1); r2d_clip(a.get(), pin.data(), np); CHECK(c, memcmp(pin.data(), ps.data(), np * sizeof(r2d_plane)) == 0, "r2d_clip changed the lines"); if (a->nverts) c.nontrivial();
  double tol = 64 * EPS * R * (cuts + 2); for (int q = 0; q < a->nverts; ++q) for (int i = 0; i < np; ++i) { L sd = ref::dot(tov(ps[i]).n, tov(a->verts[q].pos)) + ps[i].d; CHECK(c, sd >= -tol, "vertex %d violates line %d of %d by %.3Lg", q, i, np, -sd); }
  std::string t = topo(a.get()); CHECK(c, t.empty(), "%s", t.c_str()); r2d_real ma[3], mb[3]; r2d_reduce(a.get(), ma, 1); r2d_reduce(b.get(), mb, 1);
  for (int m = 0; m < 3; ++m) { double u = 2 * EPS * (cuts + 2) * R * P * powi(R, m ? 1 : 0); CHECK(c, fabs((double)ma[m] - (double)mb[m]) <= CC * u, "%d lines in one call: moment %d is %.17g, line after line %.17g", np, m, (double)ma[m], (double)mb[m]); }
}
PROPERTY(c13_labels, "C13/any-labelling", 20000, "the kept part has at least two loops, or several rounds of mixed labels") {
  Opts o; o.cap = 40; o.transforms = o.scales = o.offsets = false; Spec s = gen(c, o); Poly p = make(c, s, true); describe(c, s); int rounds = c.range(1, 4), mixed = 0;
  for (int t = 0; t < rounds && p->nverts > 0; ++t) {
    int n = p->nverts, mode = (int)c.raw(3), pos = 0, neg = 0, cr = 0; std::string lab; std::vector<int> in(n);
    for (int v = 0; v < n; ++v) { int l = (int)c.raw(mode == 0 ? 2 : mode == 1 ? 3 : 5); p->verts[v].pos.x = (r2d_real)(l == 1 ? -c.uni(1e-3, 1) : l == 2 ? 0 : c.uni(1e-3, 1)); p->verts[v].pos.y = (r2d_real)c.uni(-1, 1); in[v] = l != 1; if (l == 1) ++neg; else ++pos; lab += l == 1 ? '-' : l == 2 ? '0' : '+'; }
    for (int v = 0; v < n; ++v) if (in[v] != in[p->verts[v].pnbrs[0]]) ++cr; if (n + 2 * cr > MAXV) return; c.note("round %d labels %s", t, lab.c_str());
    bool allz = true; for (int v = 0; v < n; ++v) if (p->verts[v].pos.x > 0) allz = false;
    r2d_plane h; memset(&h, 0, sizeof h); h.n.x = 1; int nl = 0; int chains = 0; { int k = 0; for (int v = 0; v < n; ++v) if (in[v] && !in[p->verts[v].pnbrs[0]]) ++k; chains = k; }
    if (c.chance(1, 2)) {
      Poly a = newpoly(1), b = newpoly(2); r2d_split(p.get(), 1, h, a.get(), b.get());
      for (auto* q : {a.get(), b.get()}) { std::string e = topo(q, &nl); CHECK(c, e.empty(), "after split: %s", e.c_str()); CHECK(c, r2d_is_good(q) == 1, "after split: r2d_is_good rejects"); int want = pos == 0 || neg == 0 ? n * (q == a.get() ? pos > 0 : neg > 0) : (q == a.get() ? pos : neg) + cr; CHECK(c, q->nverts == want, "split side has %d vertices, expected %d", q->nverts, want); if (nl > 1) c.nontrivial(); }
      p = c.chance(1, 2) && b->nverts ? std::move(b) : std::move(a);
    } else {
      r2d_clip(p.get(), &h, 1); std::string e = topo(p.get(), &nl); CHECK(c, e.empty(), "after clip: %s", e.c_str()); CHECK(c, r2d_is_good(p.get()) == 1, "after clip: r2d_is_good rejects");
      int want = neg == 0 ? n : allz ? 0 : pos + cr; CHECK(c, p->nverts == want, "clip leaves %d vertices, expected %d", p->nverts, want); if (nl > 1) c.nontrivial(); (void)chains;
    }
    if (pos && neg) ++mixed;
  }
  if (mixed > 1) c.nontrivial();
}
PROPERTY(c13_empty, "C13/empty", 50, "always") { c.nontrivial(); Poly p = newpoly(c.raw(100)); p->nverts = 0; r2d_plane h = mkline(V2{{1, 0}}, c.sym(3)); r2d_clip(p.get(), &h, 1); c.note("empty polygon"); CHECK(c, p->nverts == 0, "an empty polygon got %d vertices", p->nverts); r2d_clip(p.get(), &h, 0); CHECK(c, p->nverts == 0, "changed"); }

PROPERTY(c14_split, "C14/split", 24000, "at least one list entry is really divided by the line") {
  int n = c.weighted({4, 3, 3, 2, 1}) + 1; Opts o; o.scales = false; o.cap = c.chance(1, 10) ? c.chance(1, 2) ? MAXV - 6 : 100 : 36; std::vector<Spec> ss; std::vector<bool> empty; double R = 0, r = 0; std::vector<P2> pts;
  for (int i = 0; i < n; ++i) { bool e = i && c.chance(1, 8); Spec s; if (!e) { s = gen(c, o); double a, b; extent(s.pts(), a, b); R = std::max(R, a); r = std::max(r, b); describe(c, s); auto q = s.pts(); pts.insert(pts.end(), q.begin(), q.end()); } else c.note("(empty entry)"); ss.push_back(s); empty.push_back(e); }
  std::string k; r2d_plane h = genline(c, pts, R, r, {}, &k); describe(c, h, k.c_str()); c.label("line:" + k); int order = ref::fitorder<r2d_real>(gen_order(c, 3), 2, R, r);
  r2d_poly* in = (r2d_poly*)malloc(n * sizeof(r2d_poly)); r2d_poly* op = (r2d_poly*)malloc(n * sizeof(r2d_poly)); r2d_poly* on = (r2d_poly*)malloc(n * sizeof(r2d_poly)); std::unique_ptr<void, void (*)(void*)> k1(in, free), k2(op, free), k3(on, free);
  uint64_t pat = c.raw(1000); pbt::poison(in, n * sizeof(r2d_poly), pat); pbt::stale(op, n * sizeof(r2d_poly), pat + 1); pbt::stale(on, n * sizeof(r2d_poly), pat + 2); std::vector<Poly> orig(n);
  for (int i = 0; i < n; ++i) { if (empty[i]) { in[i].nverts = 0; continue; } orig[i] = make(c, ss[i], c.chance(1, 3)); memcpy(&in[i], orig[i].get(), sizeof(r2d_poly)); if (ss[i].n() + 2 * crossings(&in[i], h, 64 * EPS * R) > MAXV) throw pbt::Discard(); }
  r2d_split(in, n, h, op, on); auto hp = tov(h); ref::Plane<2> hn = hp; hn.n = -1.0L * hn.n; hn.d = -hn.d;
  for (int i = 0; i < n; ++i) {
    if (empty[i]) { CHECK(c, op[i].nverts == 0 && on[i].nverts == 0, "empty entry %d: outputs have %d and %d vertices", i, op[i].nverts, on[i].nverts); continue; }
    std::string tp = topo(&op[i]), tn = topo(&on[i]); CHECK(c, tp.empty(), "positive output %d: %s", i, tp.c_str()); CHECK(c, tn.empty(), "negative output %d: %s", i, tn.c_str());
    auto v = ss[i].pts(); double Ri, ri; extent(v, Ri, ri); double P = perimeter(ss[i]); L mn = 1e4000L, mx = -1e4000L; for (auto& q : v) { L sd = ref::dot(hp.n, tov(q)) + hp.d; mn = std::min(mn, sd); mx = std::max(mx, sd); }
    double mg = isaxis(h) ? 0 : 16 * EPS * (Ri + fabs((double)h.d));
    if (mn >= mg) { c.label("entry:positive"); CHECK(c, on[i].nverts == 0 && same(&op[i], orig[i].get()), "entry %d lies on the positive side but was not passed on unchanged", i); }
    if (mx < -mg) { c.label("entry:negative"); CHECK(c, op[i].nverts == 0 && same(&on[i], orig[i].get()), "entry %d lies on the negative side but was not passed on unchanged", i); }
    double Rt = std::max(Ri, R), tol = 128 * EPS * Rt;
    for (int q = 0; q < op[i].nverts; ++q) { L sd = ref::dot(hp.n, tov(op[i].verts[q].pos)) + hp.d; CHECK(c, sd >= -tol, "positive output %d: vertex %d at signed distance %.3Lg", i, q, sd); }
    for (int q = 0; q < on[i].nverts; ++q) { L sd = ref::dot(hp.n, tov(on[i].verts[q].pos)) + hp.d; CHECK(c, sd <= tol, "negative output %d: vertex %d at signed distance %.3Lg", i, q, sd); }
    auto sx = decomp(ss[i]); auto ep = ref::moments<2>(ref::clip<2>(sx, hp), order), en = ref::moments<2>(ref::clip<2>(sx, hn), order), et = ref::moments<2>(sx, order); std::vector<r2d_real> mp(R2D_NUM_MOMENTS(order)), mm(mp), sum(mp); r2d_reduce(&op[i], mp.data(), order); r2d_reduce(&on[i], mm.data(), order);
    auto un = [&](int kk) { return EPS * 3 * Rt * P * powi(Rt, kk); }; if (fabsl(ep[0]) > 1e3 * un(0) && fabsl(en[0]) > 1e3 * un(0)) { c.nontrivial(); c.label("entry:divided"); }
    cmp_moments(c, "split+", mp.data(), ep, order, un, CC); cmp_moments(c, "split-", mm.data(), en, order, un, CC); for (size_t q = 0; q < sum.size(); ++q) sum[q] = mp[q] + mm[q]; cmp_moments(c, "split sum", sum.data(), et, order, un, CC);
    if (n > 1) { Poly a = newpoly(5), b = newpoly(6), d = dup(orig[i]); r2d_split(d.get(), 1, h, a.get(), b.get()); CHECK(c, same(a.get(), &op[i]) && same(b.get(), &on[i]), "entry %d differs from splitting it alone", i); }
  }
}
PROPERTY(c14_long, "C14/long-list", 400, "more than five entries, one of the last ones divided") {
  static const int lens[5][2] = {{6, 36}, {37, 70}, {71, 140}, {141, 270}, {271, 600}}; int w = c.weighted({3, 3, 3, 2, 1}), n = c.range(lens[w][0], lens[w][1]); c.label(fmt("lists up to %d", lens[w][1]));
  r2d_poly* in = (r2d_poly*)malloc(n * sizeof(r2d_poly)); r2d_poly* op = (r2d_poly*)malloc(n * sizeof(r2d_poly)); r2d_poly* on = (r2d_poly*)malloc(n * sizeof(r2d_poly)); std::unique_ptr<void, void (*)(void*)> k1(in, free), k2(op, free), k3(on, free);
  uint64_t pat = c.raw(1000); pbt::stale(op, n * sizeof(r2d_poly), pat + 1); pbt::stale(on, n * sizeof(r2d_poly), pat + 2); double t = c.uni(0, 6.2831853071795862); r2d_plane h = mkline(V2{{cosl(t), sinl(t)}}, c.uni(-0.3, 0.3)); std::vector<Poly> orig(n); bool late = false;
  c.note("%d boxes and triangles in [-1,2]^2, line (%.17g, %.17g) %.17g", n, (double)h.n.x, (double)h.n.y, (double)h.d);
  for (int i = 0; i < n; ++i) {
    switch (c.weighted({4, 4, 1})) {
      case 0: { r2d_rvec2 b[2]; for (int k = 0; k < 2; ++k) { double x = c.uni(-1, 0.9); b[0].xy[k] = (r2d_real)x; b[1].xy[k] = (r2d_real)(x + c.uni(0.05, 1)); } r2d_init_box(&in[i], b); break; }
      case 1: { r2d_rvec2 v[3]; for (auto& q : v) for (int k = 0; k < 2; ++k) q.xy[k] = (r2d_real)c.uni(-1, 1); r2d_init_poly(&in[i], v, 3); break; }
      default: in[i].nverts = 0; }
    orig[i] = newpoly(3); orig[i]->nverts = in[i].nverts; if (in[i].nverts) memcpy(orig[i]->verts, in[i].verts, in[i].nverts * sizeof in[i].verts[0]);
  }
  r2d_split(in, n, h, op, on);
  for (int i = 0; i < n; ++i) { Poly a = newpoly(5), b = newpoly(6), d = dup(orig[i]); r2d_split(d.get(), 1, h, a.get(), b.get()); CHECK(c, same(a.get(), &op[i]) && same(b.get(), &on[i]), "entry %d of %d differs from splitting it alone", i, n); if (a->nverts && b->nverts && i >= n - 4) late = true; }
  if (late) c.nontrivial();
}

PROPERTY(c15_reduce, "C15/reduce", 30000, "order at least 1 and more than 3 vertices, or a polygon away from the origin") {
  Opts o; o.cap = c.chance(1, 10) ? MAXV : 40; Spec s = gen(c, o); describe(c, s); auto v = s.pts(); double R, r; extent(v, R, r); double P = perimeter(s); int order = c.chance(1, 8) ? c.chance(1, 5) ? c.chance(1, 4) ? c.range(17, 40) : c.range(10, 16) : c.range(5, 9) : (int)c.raw(5); if (order > 16 && s.n() > 40) order = 16; order = ref::fitorder<r2d_real>(order, 2, R, r); c.label(fmt("order:%d", order)); c.note("order %d", order);
  Poly p = make(c, s, c.chance(1, 2)), keep = dup(p); int nm = R2D_NUM_MOMENTS(order); std::vector<r2d_real> buf(nm + 8); pbt::poison(buf.data(), buf.size() * sizeof(r2d_real), 99); std::vector<r2d_real> can(buf.begin() + nm, buf.end()); r2d_real* mm = (r2d_real*)malloc(nm * sizeof(r2d_real)); std::unique_ptr<void, void (*)(void*)> k1(mm, free); pbt::poison(mm, nm * sizeof(r2d_real), 7);
  pbt::dirty_stack(order * 31 + nm); r2d_reduce(p.get(), mm, order); r2d_reduce(p.get(), buf.data(), order); CHECK(c, memcmp(can.data(), buf.data() + nm, 8 * sizeof(r2d_real)) == 0, "r2d_reduce wrote past the documented %d moments", nm); CHECK(c, memcmp(mm, buf.data(), nm * sizeof(r2d_real)) == 0, "different results on repeat"); CHECK(c, same(p.get(), keep.get()), "r2d_reduce changed the polygon");
  auto sx = decomp(s); auto e = ref::moments<2>(sx, order); double nf = 1 + s.n() / 40.0; cmp_moments(c, "reduce", mm, e, order, [&](int k) { return EPS * nf * r * P * powi(R + r / 2, k); }, 40); if ((order >= 1 && s.n() > 3) || R > 3 * r) c.nontrivial();
  r2d_rvec2 vc = r2d_poly_center(p.get()); L sum[2] = {0, 0}; for (int i = 0; i < p->nverts; ++i) for (int k = 0; k < 2; ++k) sum[k] += p->verts[i].pos.xy[k]; for (int k = 0; k < 2; ++k) CHECK(c, fabsl(sum[k] / p->nverts - vc.xy[k]) <= 4 * EPS * R * (1 + p->nverts / 8.0), "centre component %d is %.17g, vertex average %.17Lg", k, (double)vc.xy[k], sum[k] / p->nverts);
  r2d_rvec2 sh; for (int k = 0; k < 2; ++k) sh.xy[k] = (r2d_real)(c.chance(1, 6) ? 0 : r * c.uni(-3, 3)); std::vector<r2d_real> m2(nm + 4); for (int i = 0; i < nm; ++i) m2[i] = (r2d_real)e[i]; for (int i = 0; i < 4; ++i) m2[nm + i] = (r2d_real)(i + 12345); r2d_shift_moments(m2.data(), order, sh); for (int i = 0; i < 4; ++i) CHECK(c, m2[nm + i] == (r2d_real)(i + 12345), "r2d_shift_moments wrote past the moments");
  for (auto& t : sx) for (auto& q : t.v) for (int k = 0; k < 2; ++k) q[k] += sh.xy[k]; auto es = ref::moments<2>(sx, order); L av = 0; for (auto& t : sx) av += fabsl(t.w) / 2; double avd = std::max((double)av, r * r * 1e-3); cmp_moments(c, "shift", m2.data(), es, order, [&](int k) { return EPS * avd * powi(2 * R + 4 * r, k); }, 40);
}
PROPERTY(c15_empty, "C15/empty", 60, "order above 0") { int order = (int)c.raw(8); Poly p = newpoly(c.raw(100)); p->nverts = 0; int nm = R2D_NUM_MOMENTS(order); std::vector<r2d_real> b(nm + 2, (r2d_real)3.5); c.note("empty polygon, order %d", order); if (order) c.nontrivial(); r2d_reduce(p.get(), b.data(), order); for (int i = 0; i < nm; ++i) CHECK(c, b[i] == 0, "moment %d of an empty polygon is %g", i, (double)b[i]); CHECK(c, b[nm] == (r2d_real)3.5 && b[nm + 1] == (r2d_real)3.5, "wrote past the moments"); }

// ---- C16, C17
struct Scene { Spec s; double R, r, P, d[2]; bool lattice, near = false, dense = false; };
static Scene scene(Ctx& c, int mx) {
  Scene z; Opts o; o.cap = 30; o.scales = o.offsets = false; z.lattice = c.chance(1, 3);
  if (z.lattice) { int m = (int)c.raw(3); if (m == 0) { double x = c.sym(4), y = c.sym(4); z.s.l = {rect(x, y, x + 1 + c.raw(5), y + 1 + c.raw(5))}; z.s.kind = "lattice box"; } else if (m == 1) { Loop q; for (int i = 0; i < 3; ++i) q.push_back({{(double)c.sym(4), (double)c.sym(4)}}); L a = area2(q[0], q[1], q[2]); if (a == 0) q = {{{0, 0}}, {{3, 0}}, {{0, 3}}}; else if (a < 0) std::swap(q[0], q[1]); z.s.l = {q}; z.s.kind = "lattice triangle"; } else { o.transforms = false; do z.s = basic(c, 24); while (0); each(z.s, [](P2& p) { for (double& x : p.x) x = rint(4 * x) / 2; }); z.s.kind = "snapped " + z.s.kind; L a = 0; for (size_t i = 2; i < z.s.l[0].size(); ++i) a += area2(z.s.l[0][0], z.s.l[0][i - 1], z.s.l[0][i]); if (fabsl(a) < 0.2L) { z.s.l = {rect(0, 0, 2, 3)}; } } if (c.chance(1, 8)) { flip(z.s); z.s.inverted = true; } }
  else { z.dense = c.chance(1, 12); if (z.dense) { // most of the buffer in use, and only a few cells
      bool cv = c.chance(2, 3); z.s.l = {ring(c, cv ? c.range(40, MAXV - 16) : c.range(30, MAXV / 5), !cv)}; z.s.convex = false; z.s.kind = "dense ring"; double f = c.uni(0.2, 2), g = c.uni(-1, 1), u = c.uni(-1, 1), w = c.uni(-1, 1); each(z.s, [&](P2& p) { double x = p.x[0]; p.x[0] = rnd(f * x + g * p.x[1] + u); p.x[1] = rnd(p.x[1] + w); }); mx = 4; }
    else z.s = gen(c, o); if (c.chance(1, 3)) { double far = c.chance(1, 6) ? pow(10, c.uni(1, sizeof(r2d_real) == 4 ? 2 : 5)) : 1; double R, r; extent(z.s.pts(), R, r); double t[2]; for (double& q : t) q = r * c.uni(-6, 6) * far; each(z.s, [&](P2& p) { for (int k = 0; k < 2; ++k) p.x[k] = rnd(p.x[k] + t[k]); }); } }
  auto v = z.s.pts(); extent(v, z.R, z.r); z.R = std::max(z.R, z.r); z.P = perimeter(z.s); double lo[2], hi[2]; bounds(v, lo, hi); bool iso = c.chance(1, 2); double m0 = c.uni(0.6, mx); int fine = !z.dense && c.chance(1, 6) ? (int)c.raw(2) : -1; double fm = fine >= 0 && c.chance(1, 12) ? 3000 : 200;
  for (int k = 0; k < 2; ++k) { if (z.lattice) { static const double g[] = {1, 0.5, 2, 0.75, 0.25}; z.d[k] = iso && k ? z.d[0] : g[c.raw(5)]; } else z.d[k] = iso ? z.r / m0 : std::max((hi[k] - lo[k]) / c.uni(0.3, mx), z.r * 0.02); if (fine >= 0 && !z.lattice) z.d[k] = k == fine ? std::max(hi[k] - lo[k], z.r * 0.1) / c.uni(20, fm) : std::max(hi[k] - lo[k], z.r * 0.1) / c.uni(0.5, 3); z.d[k] = rnd(std::max(z.d[k], z.R / 1e9)); } // the indices must fit an int
  if (z.lattice && c.chance(1, 3)) { // nearly aligned: off the grid lines by far less than a cell
    double t[2]; for (int k = 0; k < 2; ++k) t[k] = c.chance(1, 4) ? 0 : (c.chance(1, 2) ? -1 : 1) * z.d[k] * pow(10, -c.uni(2, 14)); bool each_ = c.chance(1, 2); double m = pow(10, -c.uni(2, 14)); each(z.s, [&](P2& p) { for (int k = 0; k < 2; ++k) p.x[k] = rnd(p.x[k] + (each_ ? c.sym(2) * m * z.d[k] : t[k])); }); z.near = true; }
  if (c.chance(1, 5)) { double f = ldexp(1, c.sym(sizeof(r2d_real) == 4 ? 8 : 40)); each(z.s, [&](P2& p) { for (double& x : p.x) x *= f; }); for (double& x : z.d) x *= f; }
  v = z.s.pts(); extent(v, z.R, z.r); z.R = std::max(z.R, z.r); z.P = perimeter(z.s);
  return z;
}
static void note(Ctx& c, const Scene& z) { describe(c, z.s); c.note("d = (%.17g, %.17g)", z.d[0], z.d[1]); c.label(z.near ? "nearly aligned" : z.lattice ? "lattice-aligned" : "general"); if (z.r < 1e-3 || z.r > 1e3) c.label("scaled"); c.label("shape:" + z.s.kind.substr(0, z.s.kind.find('('))); }
static void raster_compare(Ctx& c, const Scene& z, const std::vector<ref::Simplex<2>>& sx, r2d_poly* p, const int* lo, const int* hi, int order) {
  int n[2] = {hi[0] - lo[0], hi[1] - lo[1]}; long tot = (long)n[0] * n[1]; int nm = R2D_NUM_MOMENTS(order); std::vector<r2d_real> g(tot * nm + 64), g0; bool zero = c.chance(1, 2); uint64_t sd = c.raw(1000);
  for (size_t i = 0; i < g.size(); ++i) g[i] = zero ? 0 : (r2d_real)((double)(pbt::mix(sd + i) % 1000) / 500.0 - 1) * (r2d_real)(z.r * z.r);
  g0 = g; r2d_real* grid = (r2d_real*)malloc(tot * nm * sizeof(r2d_real)); std::unique_ptr<void, void (*)(void*)> kk(grid, free); memcpy(grid, g.data(), tot * nm * sizeof(r2d_real));
  r2d_dvec2 ib[2]; r2d_rvec2 d; for (int k = 0; k < 2; ++k) { ib[0].ij[k] = lo[k]; ib[1].ij[k] = hi[k]; d.xy[k] = (r2d_real)z.d[k]; } Poly keep = newpoly(1); *keep = *p; r2d_dvec2 ib0[2] = {ib[0], ib[1]};
  r2d_rasterize(p, ib, g.data() + 32, d, order); r2d_rasterize(p, ib, grid, d, order);
  CHECK(c, memcmp(p, keep.get(), sizeof(r2d_poly)) == 0, "r2d_rasterize changed the polygon"); CHECK(c, memcmp(ib, ib0, sizeof ib) == 0, "r2d_rasterize changed the index box");
  for (int i = 0; i < 32; ++i) { CHECK(c, memcmp(&g[i], &g0[i], sizeof(r2d_real)) == 0, "memory before the grid was changed"); CHECK(c, memcmp(&g[g.size() - 1 - i], &g0[g.size() - 1 - i], sizeof(r2d_real)) == 0, "memory behind the grid was changed"); }
  double blo[2], bhi[2]; for (int k = 0; k < 2; ++k) { blo[k] = 1e300; bhi[k] = -1e300; for (int v = 0; v < p->nverts; ++v) { blo[k] = std::min(blo[k], (double)p->verts[v].pos.xy[k]); bhi[k] = std::max(bhi[k], (double)p->verts[v].pos.xy[k]); } }
  int met = 0; double mg = 32 * EPS * z.R, rc = std::min(z.P, 2 * (z.d[0] + z.d[1]) * (1 + z.s.n() / 4.0));
  ref::cells<2>(sx, lo, hi, z.d, [&](const int* id, const std::vector<ref::Simplex<2>>& part) {
    auto e = ref::moments<2>(part, order); long at = (long)(id[0] - lo[0]) * n[1] + (id[1] - lo[1]); bool away = p->nverts == 0; for (int k = 0; k < 2; ++k) if (bhi[k] < z.d[k] * id[k] - mg || blo[k] > z.d[k] * (id[k] + 1) + mg) away = true; if (!part.empty()) ++met;
    for (int m = 0; m < nm; ++m) {
      r2d_real a = g0[32 + at * nm + m], b = g[32 + at * nm + m]; L got = (L)b - a; int q = ref::total_order2(m);
      if (away) { CHECK(c, memcmp(&a, &b, sizeof a) == 0, "cell (%d,%d) does not meet the polygon, but moment %d changed from %.17g to %.17g", id[0], id[1], m, (double)a, (double)b); continue; }
      double u = EPS * 6 * z.R * rc * powi(z.R, q), ua = EPS * fabs((double)a), err = (double)fabsl(got - e[m]); c.measure(fmt("raster err/unit order %d", q), std::max(0.0, err - 2 * ua) / u);
      CHECK(c, err <= CC * u + 2 * ua, "cell (%d,%d): moment %d is %.17Lg, reference %.17Lg (error %.3g, unit %.3g)", id[0], id[1], m, got, e[m], err, u);
    }
  });
  for (long i = 0; i < tot * nm; ++i) { r2d_real a = g0[i], b = grid[i], a2 = g0[32 + i], b2 = g[32 + i]; double t = 4 * EPS * (fabs((double)b - (double)a) + fabs((double)a) + fabs((double)a2)); CHECK(c, fabs(((double)b - (double)a) - ((double)b2 - (double)a2)) <= t, "two rasterizations of the same polygon differ at %ld", i); }
  if (met > 1) { c.nontrivial(); c.label("several cells"); } c.measure("cells", (double)tot);
}
PROPERTY(c16_raster, "C16/cells", 12000, "the polygon meets more than one cell") {
  Scene z = scene(c, 12); note(c, z); Poly p = make(c, z.s, c.chance(1, 3)); int lo[2], hi[2]; double a[2], b[2]; bounds(z.s.pts(), a, b); bool wide = c.chance(1, 2);
  for (int k = 0; k < 2; ++k) { lo[k] = (int)floor(a[k] / z.d[k]); hi[k] = (int)ceil(b[k] / z.d[k]); if (hi[k] <= lo[k]) hi[k] = lo[k] + 1; if (wide) { lo[k] -= (int)c.raw(c.chance(1, 8) ? 40 : 4); hi[k] += (int)c.raw(c.chance(1, 8) ? 40 : 4); } if (lo[k] < 0) c.label("negative indices"); }
  if (wide) c.label("grid larger than the polygon"); if (1.0 * (hi[0] - lo[0]) * (hi[1] - lo[1]) > 3000) throw pbt::Discard(); if (hi[0] - lo[0] > 30 || hi[1] - lo[1] > 30) c.label("long grid");
  int order = (int)c.raw(5); if (c.chance(1, 10) && (hi[0] - lo[0]) * (hi[1] - lo[1]) <= 100) { order = c.range(5, 12); c.label("order above 4"); } order = ref::fitorder<r2d_real>(order, 2, z.R, z.r); c.note("index box (%d,%d)-(%d,%d) order %d", lo[0], lo[1], hi[0], hi[1], order); raster_compare(c, z, decomp(z.s), p.get(), lo, hi, order);
}
PROPERTY(c16_huge, "C16/huge-grid", 1000, "the polygon's cells lie more than 2^31 entries into the grid") {
  Scene z = scene(c, 6); note(c, z); Poly p = make(c, z.s, c.chance(1, 3)); r2d_rvec2 d; r2d_dvec2 ib[2]; int lo[2], hi[2], n[2], xl[2], xh[2]; long a[2], b[2], N[2]; int order = (int)c.raw(5), nm = R2D_NUM_MOMENTS(order); double blo[2], bhi[2]; bounds(z.s.pts(), blo, bhi);
  for (int k = 0; k < 2; ++k) { d.xy[k] = (r2d_real)z.d[k]; lo[k] = (int)floor(blo[k] / z.d[k]); hi[k] = (int)ceil(bhi[k] / z.d[k]); if (hi[k] <= lo[k]) hi[k] = lo[k] + 1; n[k] = hi[k] - lo[k]; if (abs(lo[k]) > 1 << 28 || abs(hi[k]) > 1 << 28) throw pbt::Discard(); }
  if (1.0 * n[0] * n[1] > 150) throw pbt::Discard(); pbt::huge_extent(c, 2, n, nm, a, b); size_t tot = nm;
  for (int k = 0; k < 2; ++k) { N[k] = a[k] + n[k] + b[k]; tot *= N[k]; ib[0].ij[k] = (int)(lo[k] - a[k]); ib[1].ij[k] = (int)(hi[k] + b[k]); xl[k] = lo[k] - (a[k] > 0); xh[k] = hi[k] + (b[k] > 0); }
  c.note("cells (%d,%d)-(%d,%d) in the index box (%d,%d)-(%d,%d), order %d, %zu entries", lo[0], lo[1], hi[0], hi[1], ib[0].i, ib[0].j, ib[1].i, ib[1].j, order, tot); if (tot > ((size_t)1 << 34)) throw pbt::Discard();
  pbt::HugeGrid g(tot * sizeof(r2d_real)); const r2d_real* v = (const r2d_real*)g.p; r2d_rasterize(p.get(), ib, (r2d_real*)g.p, d, order);
  double mg = 32 * EPS * z.R, rc = std::min(z.P, 2 * (z.d[0] + z.d[1]) * (1 + z.s.n() / 4.0));
  ref::cells<2>(decomp(z.s), xl, xh, z.d, [&](const int* id, const std::vector<ref::Simplex<2>>& part) {
    auto e = ref::moments<2>(part, order); size_t at = ((size_t)(id[0] - lo[0] + a[0]) * N[1] + (size_t)(id[1] - lo[1] + a[1])) * nm; bool away = false; if (at >= (size_t)1 << 31) c.nontrivial();
    for (int k = 0; k < 2; ++k) if (bhi[k] < z.d[k] * id[k] - mg || blo[k] > z.d[k] * (id[k] + 1) + mg) away = true;
    for (int m = 0; m < nm; ++m) { double got = v[at + m]; if (away) { CHECK(c, got == 0, "cell (%d,%d) does not meet the polygon, but moment %d is %.17g", id[0], id[1], m, got); continue; } double u = EPS * 6 * z.R * rc * powi(z.R, ref::total_order2(m)); CHECK(c, fabsl(got - e[m]) <= CC * u, "cell (%d,%d), entry %zu: moment %d is %.17g, reference %.17Lg", id[0], id[1], at + m, m, got, e[m]); }
  });
}
PROPERTY(c16_none, "C16/nothing-to-do", 400, "always") {
  c.nontrivial(); int order = (int)c.raw(3), nm = R2D_NUM_MOMENTS(order); r2d_dvec2 ib[2]; for (int k = 0; k < 2; ++k) { ib[0].ij[k] = c.sym(3); ib[1].ij[k] = ib[0].ij[k] + c.range(1, 3); } r2d_rvec2 d; for (int k = 0; k < 2; ++k) d.xy[k] = (r2d_real)c.uni(0.1, 2); std::vector<r2d_real> g(9 * nm, (r2d_real)1.25); Poly p = newpoly(c.raw(9)); p->nverts = 0;
  if (c.chance(1, 2)) { r2d_rvec2 b[2]; for (int k = 0; k < 2; ++k) { b[0].xy[k] = 0; b[1].xy[k] = 1; } r2d_init_box(p.get(), b); int k = (int)c.raw(2); ib[1].ij[k] = ib[0].ij[k] - (int)c.raw(3); c.note("index box without cells"); } else c.note("empty polygon");
  r2d_rasterize(nullptr, ib, g.data(), d, order); { Poly z = newpoly(1); r2d_rvec2 b[2]; r2d_dvec2 zb[2]; for (int k = 0; k < 2; ++k) { b[0].xy[k] = 0; b[1].xy[k] = 2 * d.xy[k]; zb[0].ij[k] = 0; zb[1].ij[k] = 2; } r2d_init_box(z.get(), b); r2d_rasterize(z.get(), zb, nullptr, d, order); } r2d_rasterize(p.get(), ib, g.data(), d, order); for (auto x : g) CHECK(c, x == (r2d_real)1.25, "the grid was changed");
}
PROPERTY(c17_ibox, "C17/minimal-box", 60000, "the polygon spans more than one cell in some direction") {
  Scene z = scene(c, 8); note(c, z); Poly p = make(c, z.s, c.chance(1, 2)), keep = dup(p); r2d_rvec2 d; for (int k = 0; k < 2; ++k) { if (c.chance(1, 3)) z.d[k] = rnd(std::max(z.d[k] * c.uni(0.01, 30), z.R / 1e9)); d.xy[k] = (r2d_real)z.d[k]; } r2d_dvec2 ib[2]; pbt::poison(ib, sizeof ib, 3); r2d_get_ibox(p.get(), ib, d); CHECK(c, same(p.get(), keep.get()), "r2d_get_ibox changed the polygon"); double a[2], b[2]; bounds(z.s.pts(), a, b);
  for (int k = 0; k < 2; ++k) { if (b[k] - a[k] > z.d[k]) c.nontrivial(); if (a[k] < 0) c.label("negative coordinates"); CHECK(c, ref::okfloor(a[k], z.d[k], ib[0].ij[k], EPS), "axis %d: lower index %d, but the polygon starts at %.17g, spacing %.17g", k, ib[0].ij[k], a[k], z.d[k]); CHECK(c, ref::okceil(b[k], z.d[k], ib[1].ij[k], EPS), "axis %d: upper index %d, but the polygon ends at %.17g, spacing %.17g", k, ib[1].ij[k], b[k], z.d[k]); }
}
PROPERTY(c17_clamp, "C17/clamp", 24000, "the clamp range cuts the polygon's index box") {
  Scene z = scene(c, 6); note(c, z); Poly p = make(c, z.s, c.chance(1, 3)), orig = dup(p); r2d_rvec2 d; for (int k = 0; k < 2; ++k) d.xy[k] = (r2d_real)z.d[k]; r2d_dvec2 ib[2], cb[2], cb0[2]; r2d_get_ibox(p.get(), ib, d); r2d_dvec2 ib0[2] = {ib[0], ib[1]}; bool disjoint = false, cut = false; int lo[2], hi[2];
  for (int k = 0; k < 2; ++k) { int a = ib[0].ij[k], b = ib[1].ij[k], n = std::max(1, b - a); switch (c.weighted({3, 3, 3, 3, 1, 1})) { case 0: cb[0].ij[k] = a - (int)c.raw(3); cb[1].ij[k] = b + (int)c.raw(3); break; case 1: cb[0].ij[k] = a + (int)c.raw(n); cb[1].ij[k] = b + (int)c.raw(3); break; case 2: cb[0].ij[k] = a - (int)c.raw(3); cb[1].ij[k] = b - (int)c.raw(n); break; case 3: cb[0].ij[k] = a + (int)c.raw(n); cb[1].ij[k] = cb[0].ij[k] + 1 + (int)c.raw(std::max(1, b - cb[0].ij[k])); break; case 4: cb[0].ij[k] = b + (int)c.raw(2); cb[1].ij[k] = cb[0].ij[k] + c.range(1, 3); break; default: cb[1].ij[k] = a - (int)c.raw(2); cb[0].ij[k] = cb[1].ij[k] - c.range(1, 3); }
    lo[k] = std::max(a, cb[0].ij[k]); hi[k] = std::min(b, cb[1].ij[k]); if (b <= cb[0].ij[k] || a >= cb[1].ij[k]) disjoint = true; if (lo[k] > a || hi[k] < b) cut = true; c.note("axis %d: box [%d,%d) clamp [%d,%d)", k, a, b, cb[0].ij[k], cb[1].ij[k]); }
  memcpy(cb0, cb, sizeof cb); r2d_clamp_ibox(p.get(), ib, cb, d); CHECK(c, memcmp(cb, cb0, sizeof cb) == 0, "the clamp range was changed");
  if (disjoint) { c.label("disjoint"); CHECK(c, p->nverts == 0, "nothing overlaps, but %d vertices remain", p->nverts); for (int k = 0; k < 2; ++k) CHECK(c, ib[0].ij[k] == 0 && ib[1].ij[k] == 0, "nothing overlaps, but the box is not zeroed"); return; }
  for (int k = 0; k < 2; ++k) CHECK(c, ib[0].ij[k] == lo[k] && ib[1].ij[k] == hi[k], "axis %d: clamped box [%d,%d), expected [%d,%d)", k, ib[0].ij[k], ib[1].ij[k], lo[k], hi[k]);
  if (!cut) { c.label("clamp covers"); CHECK(c, same(p.get(), orig.get()), "a covering clamp range changed the polygon"); } else c.nontrivial();
  std::string e = topo(p.get()); CHECK(c, e.empty(), "clamped polygon: %s", e.c_str()); double tol = 64 * EPS * z.R; for (int v = 0; v < p->nverts; ++v) for (int k = 0; k < 2; ++k) { double x = p->verts[v].pos.xy[k]; CHECK(c, x >= lo[k] * z.d[k] - tol && x <= hi[k] * z.d[k] + tol, "vertex %d outside the clamp range", v); }
  auto sx = decomp(z.s); for (int k = 0; k < 2; ++k) { ref::Plane<2> h; h.n = V2{{0, 0}}; h.n[k] = 1; h.d = -(L)z.d[k] * lo[k]; if (lo[k] > ib0[0].ij[k]) sx = ref::clip<2>(sx, h); h.n[k] = -1; h.d = (L)z.d[k] * hi[k]; if (hi[k] < ib0[1].ij[k]) sx = ref::clip<2>(sx, h); }
  auto em = ref::moments<2>(sx, 2); r2d_real m[6]; r2d_reduce(p.get(), m, 2); cmp_moments(c, "clamp", m, em, 2, [&](int k) { return EPS * 6 * z.R * z.P * powi(z.R, k); }, CC);
  if (1.0 * (hi[0] - lo[0]) * (hi[1] - lo[1]) <= 300 && c.chance(1, 3)) { c.label("rasterized"); raster_compare(c, z, decomp(z.s), p.get(), lo, hi, (int)c.raw(3)); }
}

// ---- C18
PROPERTY(c18_transform, "C18/formula", 40000, "the transformation moves some vertex") {
  Opts o; o.cap = c.chance(1, 10) ? MAXV : 30; Spec s = gen(c, o); if (c.chance(1, 60)) { s = Spec(); s.l = {ring(c, MAXV, false)}; s.kind = "full ring"; c.label("full buffer"); } describe(c, s); Poly p = make(c, s), b = dup(p); double R, r; extent(s.pts(), R, r); int n = p->nverts; std::vector<V2> e(n); std::vector<L> un(n, (L)EPS * R); const char* what = "";
  switch (c.raw(6)) {
    case 0: { what = "translate"; r2d_rvec2 t; for (int k = 0; k < 2; ++k) t.xy[k] = (r2d_real)(c.chance(1, 5) ? 0 : R * pbt::wide(c, c.uni(-3, 3))); c.note("translate %.17g %.17g", (double)t.x, (double)t.y); r2d_translate(p.get(), t); double T = fabs((double)t.x) + fabs((double)t.y); for (int v = 0; v < n; ++v) { e[v] = tov(b->verts[v].pos) + tov(t); un[v] = (L)EPS * (R + T); } break; }
    case 1: { what = "scale"; r2d_real f = (r2d_real)(c.chance(1, 3) ? c.sym(4) : c.chance(1, 6) ? 1 + c.uni(-1, 1) * pow(10, c.uni(-12, -2)) : pbt::wide(c, c.uni(-3, 3))); c.note("scale %.17g", (double)f); r2d_scale(p.get(), f); for (int v = 0; v < n; ++v) { e[v] = (L)f * tov(b->verts[v].pos); un[v] = (L)EPS * R * fabsl((L)f); } break; }
    case 2: { what = "rotate"; r2d_real th = (r2d_real)pbt::angle(c); c.note("rotate %.17g", (double)th); r2d_rotate(p.get(), th); L cs = cosl((L)th), sn = sinl((L)th); for (int v = 0; v < n; ++v) { V2 x = tov(b->verts[v].pos); e[v] = V2{{cs * x[0] - sn * x[1], sn * x[0] + cs * x[1]}}; un[v] = (L)EPS * R * 2; } break; }
    case 3: { what = "shear"; r2d_real f = (r2d_real)(c.chance(1, 3) ? c.sym(4) : pbt::wide(c, c.uni(-3, 3))); int a = (int)c.raw(2); c.note("shear %.17g axb %d axs %d", (double)f, a, 1 - a); r2d_shear(p.get(), f, a, 1 - a); for (int v = 0; v < n; ++v) { V2 x = tov(b->verts[v].pos); e[v] = x; e[v][a] += (L)f * x[1 - a]; un[v] = (L)EPS * R * (1 + fabsl((L)f)); } break; }
    default: {
      what = "affine"; bool persp = c.chance(1, 2); r2d_real M[3][3], M0[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) M[i][j] = (r2d_real)(c.chance(1, 3) ? (i == j) : c.uni(-2, 2)); for (int i = 0; i < 2; ++i) M[i][2] = (r2d_real)(c.uni(-2, 2) * R);
      if (!persp) { M[2][0] = M[2][1] = 0; M[2][2] = 1; if (c.chance(1, 3)) M[2][2] = (r2d_real)c.uni(0.5, 2); } else { for (int j = 0; j < 2; ++j) M[2][j] = (r2d_real)(c.uni(-0.4, 0.4) / R); M[2][2] = (r2d_real)c.uni(1.2, 2); }
      double wf = pbt::wfactor(c); for (int j = 0; j < 3; ++j) M[2][j] = (r2d_real)(M[2][j] * wf); if (wf < 0) c.label("negative w");
      memcpy(M0, M, sizeof M); for (int i = 0; i < 3; ++i) c.note("  [%.17g %.17g %.17g]", (double)M[i][0], (double)M[i][1], (double)M[i][2]); r2d_affine(p.get(), M); CHECK(c, memcmp(M, M0, sizeof M) == 0, "r2d_affine changed the matrix");
      for (int v = 0; v < n; ++v) { V2 x = tov(b->verts[v].pos); L w = (L)M[2][0] * x[0] + (L)M[2][1] * x[1] + M[2][2], wa = fabsl((L)M[2][0] * x[0]) + fabsl((L)M[2][1] * x[1]) + fabsl((L)M[2][2]), mx = 0; for (int i = 0; i < 2; ++i) { e[v][i] = ((L)M[i][0] * x[0] + (L)M[i][1] * x[1] + M[i][2]) / w; mx = std::max(mx, (fabsl(M[i][0] * x[0]) + fabsl(M[i][1] * x[1]) + fabsl((L)M[i][2])) / fabsl(w)); } un[v] = (L)EPS * mx * (2 + wa / fabsl(w)); }
    }
  }
  c.label(what); CHECK(c, p->nverts == n, "%s changed the vertex count", what);
  for (int v = 0; v < n; ++v) for (int k = 0; k < 2; ++k) { CHECK(c, p->verts[v].pnbrs[k] == b->verts[v].pnbrs[k], "%s changed the connectivity of vertex %d", what, v); L err = fabsl(e[v][k] - p->verts[v].pos.xy[k]); if (e[v][k] != b->verts[v].pos.xy[k]) c.nontrivial(); if (un[v] > 0) c.measure(fmt("%s err/unit", what), (double)(err / un[v])); CHECK(c, err <= 8 * un[v], "%s: vertex %d component %d is %.17g, expected %.17Lg", what, v, k, (double)p->verts[v].pos.xy[k], e[v][k]); }
}
PROPERTY(c18_inverse, "C18/inverse", 10000, "always: every case applies a transformation and its inverse") {
  Opts o; o.scales = false; Spec s = gen(c, o); describe(c, s); Poly p = make(c, s), b = dup(p); double R, r; extent(s.pts(), R, r); double g = 1; c.nontrivial();
  switch (c.raw(4)) {
    case 0: { r2d_rvec2 t, u; for (int k = 0; k < 2; ++k) { t.xy[k] = (r2d_real)(R * c.uni(-3, 3)); u.xy[k] = -t.xy[k]; } r2d_translate(p.get(), t); r2d_translate(p.get(), u); g = 4; c.note("translate"); break; }
    case 1: { double f = c.uni(0.2, 4); r2d_scale(p.get(), (r2d_real)f); r2d_scale(p.get(), (r2d_real)(1 / f)); g = 2; c.note("scale %g", f); break; }
    case 2: { double th = c.uni(-7, 7); r2d_rotate(p.get(), (r2d_real)th); r2d_rotate(p.get(), (r2d_real)-th); g = 4; c.note("rotate %g", th); break; }
    default: { double f = c.uni(-3, 3); int a = (int)c.raw(2); r2d_shear(p.get(), (r2d_real)f, a, 1 - a); r2d_shear(p.get(), (r2d_real)-f, a, 1 - a); g = 5; c.note("shear %g %d", f, a); }
  }
  for (int v = 0; v < p->nverts; ++v) for (int k = 0; k < 2; ++k) CHECK(c, fabs((double)p->verts[v].pos.xy[k] - (double)b->verts[v].pos.xy[k]) <= 8 * g * EPS * R, "inverse does not restore vertex %d", v);
}

// ---- C19
PROPERTY(c19_init, "C19/init", 24000, "more than three vertices, or a polygon away from the origin") {
  Opts o; o.multi = false; o.cap = c.chance(1, 8) ? MAXV : 40; o.inverted = c.chance(1, 3); Spec s = gen(c, o); bool bx = c.chance(1, 3); auto v = s.pts(); double R, r; extent(v, R, r); Poly p = newpoly(c.raw(100)); pbt::dirty_stack(c.raw(1 << 20));
  if (bx) { r2d_rvec2 b[2]; double lo[2], hi[2]; bounds(v, lo, hi); for (int k = 0; k < 2; ++k) { b[0].xy[k] = (r2d_real)lo[k]; b[1].xy[k] = (r2d_real)hi[k]; } s.l = {rect(lo[0], lo[1], hi[0], hi[1])}; s.kind = "box"; pbt::Exact<r2d_rvec2> xb(b, 2); r2d_init_box(p.get(), xb); CHECK(c, xb.same(), "bounds changed"); }
  else { std::vector<r2d_rvec2> l; for (auto& q : v) { r2d_rvec2 t; for (int k = 0; k < 2; ++k) t.xy[k] = (r2d_real)q.x[k]; l.push_back(t); } pbt::Exact<r2d_rvec2> xl(l.data(), l.size()); r2d_init_poly(p.get(), xl, (int)l.size()); CHECK(c, xl.same(), "vertex list changed"); }
  describe(c, s); c.label(bx ? "box" : "poly"); auto& lp = s.l[0]; int n = (int)lp.size(); if (n > 3 || R > 3 * r) c.nontrivial(); if (n == MAXV) c.label("full buffer");
  CHECK(c, p->nverts == n, "%d vertices, expected %d", p->nverts, n); std::string e = topo(p.get()); CHECK(c, e.empty(), "%s", e.c_str()); CHECK(c, r2d_is_good(p.get()) == 1, "r2d_is_good rejects it");
  // the loop, read through the links from any vertex, is the given cyclic list
  std::vector<P2> w; int u = 0; for (int i = 0; i < n; ++i) { w.push_back({{(double)p->verts[u].pos.x, (double)p->verts[u].pos.y}}); u = p->verts[u].pnbrs[0]; } CHECK(c, u == 0, "not one loop");
  bool found = false; for (int sft = 0; sft < n && !found; ++sft) { found = true; for (int i = 0; i < n && found; ++i) for (int k = 0; k < 2; ++k) if (w[i].x[k] != lp[(i + sft) % n].x[k]) found = false; } CHECK(c, found, "the loop does not run through the given vertices in order");
  double P = perimeter(s); extent(s.pts(), R, r); auto em = ref::moments<2>(decomp(s), 2); r2d_real m[6]; r2d_reduce(p.get(), m, 2); cmp_moments(c, "init", m, em, 2, [&](int k) { return EPS * (1 + n / 40.0) * r * P * powi(R, k); }, 40);
}
PROPERTY(c19_lines, "C19/lines", 24000, "any convex polygon or box") {
  bool bx = c.chance(1, 3); Opts o; o.inverted = false; o.multi = false; Spec s; double scl = 1; s.l = {c.chance(1, 4) ? Loop{{{0, 0}}, {{(double)(1 + c.raw(3)), 0}}, {{0, (double)(1 + c.raw(3))}}} : ring(c, c.range(3, 12), false)}; s.kind = "convex"; (void)scl; place(c, s, o);
  if (bx) { double lo[2], hi[2]; bounds(s.pts(), lo, hi); s.l = {rect(lo[0], lo[1], hi[0], hi[1])}; s.kind = "box"; } describe(c, s); c.nontrivial(); auto& lp = s.l[0]; int n = (int)lp.size(); double R, r; extent(lp, R, r); double P = perimeter(s), emin = 1e300; std::vector<r2d_plane> f(n + 1); pbt::poison(f.data(), f.size() * sizeof(r2d_plane), c.raw(1000)); r2d_plane can = f[n];
  if (bx) { r2d_rvec2 b[2]; for (int k = 0; k < 2; ++k) { b[0].xy[k] = (r2d_real)lp[0].x[k]; b[1].xy[k] = (r2d_real)lp[2].x[k]; } pbt::Exact<r2d_rvec2> xb(b, 2); r2d_box_faces_from_verts(f.data(), xb); CHECK(c, xb.same(), "bounds changed"); }
  else { std::vector<r2d_rvec2> l; for (auto& q : lp) { r2d_rvec2 t; for (int k = 0; k < 2; ++k) t.xy[k] = (r2d_real)q.x[k]; l.push_back(t); } pbt::Exact<r2d_rvec2> xl(l.data(), l.size()); r2d_poly_faces_from_verts(f.data(), xl, n); CHECK(c, xl.same(), "vertex list changed"); }
  CHECK(c, memcmp(&can, &f[n], sizeof can) == 0, "wrote past the lines");
  std::vector<char> used(n, 0);
  for (int i = 0; i < n; ++i) {
    const P2 &a = lp[i], &b = lp[(i + 1) % n]; double len = hypot(a.x[0] - b.x[0], a.x[1] - b.x[1]); emin = std::min(emin, len); double tol = 32 * EPS * (R + r);
    // the documented order is not part of the property: find the line of this edge
    int best = -1; L br = 1e4000L; for (int q = 0; q < n; ++q) if (!used[q]) { L m = std::max(fabsl(ref::dot(tov(f[q].n), tov(a)) + f[q].d), fabsl(ref::dot(tov(f[q].n), tov(b)) + f[q].d)); if (m < br) { br = m; best = q; } }
    c.measure("line residual/(eps(R+r))", (double)br / (EPS * (R + r))); CHECK(c, best >= 0 && br <= tol, "no line contains edge %d: best residual %.3Lg", i, br); used[best] = 1;
    L n2 = ref::dot(tov(f[best].n), tov(f[best].n)); CHECK(c, fabsl(n2 - 1) <= 16 * EPS, "line of edge %d: normal has length %.17Lg", i, sqrtl(n2));
    for (auto& q : lp) { L sd = ref::dot(tov(f[best].n), tov(q)) + f[best].d; CHECK(c, sd >= -tol * (1 + r / len), "line of edge %d does not point inward: a vertex lies at %.3Lg", i, sd); }
  }
  r2d_rvec2 bb[2]; double lo[2], hi[2]; bounds(lp, lo, hi); for (int k = 0; k < 2; ++k) { bb[0].xy[k] = (r2d_real)(lo[k] - r * c.uni(0.01, 1)); bb[1].xy[k] = (r2d_real)(hi[k] + r * c.uni(0.01, 1)); } Poly p = newpoly(1); r2d_init_box(p.get(), bb); r2d_clip(p.get(), f.data(), n); r2d_real m[6]; r2d_reduce(p.get(), m, 2); auto em = ref::moments<2>(decomp(s), 2); double cond = std::min(r / emin, 1e3); cmp_moments(c, bx ? "clip by box lines" : "clip by lines", m, em, 2, [&](int k) { return EPS * (n + 2) * (2 * R + 2 * r) * (P + r) * (1 + cond * 0.05) * powi(R + 2 * r, k); }, 40);
}
PROPERTY(c19_orient, "C19/orient", 40000, "the three points are not collinear") {
  P2 p[3]; bool lat = c.chance(1, 2); double sc = c.chance(1, 6) ? ldexp(1, c.sym(sizeof(r2d_real) == 4 ? 10 : 80)) : 1, off[2]; for (double& x : off) x = c.chance(1, 4) ? c.uni(-1e5, 1e5) : 0; for (auto& q : p) for (int k = 0; k < 2; ++k) q.x[k] = rnd(sc * ((lat ? c.sym(6) : c.uni(-1, 1)) + off[k])); for (auto& q : p) c.note("(%.17g, %.17g)", q.x[0], q.x[1]);
  auto tp = [&](int i) { r2d_rvec2 t; for (int k = 0; k < 2; ++k) t.xy[k] = (r2d_real)p[i].x[k]; return t; }; double r = 0; for (auto& q : p) for (int k = 0; k < 2; ++k) r = std::max(r, fabs(q.x[k] - p[0].x[k])); L e = area2(p[0], p[1], p[2]) / 2; double v = r2d_orient(tp(0), tp(1), tp(2)), tol = 16 * EPS * r * r; if (r > 0) c.measure("orient err/(eps r^2)", (double)fabsl(e - v) / (EPS * r * r)); CHECK(c, fabsl(e - v) <= tol, "signed area %.17g, exact %.17Lg", v, e);
  if (fabsl(e) > tol) { c.nontrivial(); CHECK(c, (v > 0) == (e > 0), "wrong sign"); } CHECK(c, fabs(v - (double)r2d_orient(tp(1), tp(2), tp(0))) <= 2 * tol && fabs(v + (double)r2d_orient(tp(1), tp(0), tp(2))) <= 2 * tol, "permuting the points changes the magnitude");
}

// ---- C20
static void notegraph(Ctx& c, const r2d_poly* p) { if (!c.wantdesc) return; std::string s; for (int v = 0; v < p->nverts && v < 40; ++v) s += fmt(" %d:[%d %d]", v, p->verts[v].pnbrs[0], p->verts[v].pnbrs[1]); c.note("%d vertices%s", p->nverts, s.c_str()); }
static Poly loops(Ctx& c, int cap, int* n) {
  Poly p = newpoly(c.raw(50)); std::vector<std::vector<int>> l; int left = cap, tot = 0, m = c.chance(1, 8) ? 80 : c.range(1, 5); for (int i = 0; i < m && left >= 3; ++i) { int k = 3 + (int)c.raw(std::max(1, std::min(left - 2, c.chance(1, 6) ? left - 2 : 12))); k = std::min(k, left); if (left - k > 0 && left - k < 3 && c.chance(1, 2)) k = left; l.push_back(std::vector<int>(k)); left -= k; tot += k; }
  std::vector<int> pm(tot); for (int i = 0; i < tot; ++i) pm[i] = i; for (int i = tot - 1; i > 0; --i) std::swap(pm[i], pm[c.raw(i + 1)]); int o = 0; p->nverts = tot; for (auto& q : l) { int k = (int)q.size(); for (int i = 0; i < k; ++i) { auto& v = p->verts[pm[o + i]]; v.pnbrs[0] = pm[o + (i + 1) % k]; v.pnbrs[1] = pm[o + (i + k - 1) % k]; v.pos.x = i; v.pos.y = (r2d_real)c.unit(); } o += k; } *n = tot; return p;
}
PROPERTY(c20_accept, "C20/accepts", 30000, "more than one loop or more than three vertices") { int n; Poly p = loops(c, c.chance(1, 3) ? MAXV : 60, &n); notegraph(c, p.get()); if (n > 3) c.nontrivial(); if (n == MAXV) c.label("full buffer"); Poly k = dup(p); pbt::dirty_stack(n); CHECK(c, r2d_is_good(p.get()) == 1, "a valid polygon with %d vertices is rejected", n); CHECK(c, same(p.get(), k.get()), "r2d_is_good changed the polygon"); }
PROPERTY(c20_reject, "C20/rejects", 40000, "always: every case is broken in a documented way") {
  int n; Poly p = loops(c, c.chance(1, 5) ? MAXV : 30, &n); c.nontrivial(); int v = (int)c.raw(n), k = (int)c.raw(2); const char* kn = "";
  switch (c.raw(9)) {
    case 7: case 8: { // every vertex is still pointed to twice
      bool dbl = c.chance(1, 2); int w = dbl ? p->verts[v].pnbrs[1 - k] : v, z = p->verts[v].pnbrs[k], u = (int)c.raw(n), t = 0, q = -1; auto slot = [&](int x) { if (x == v || x == z) return -1; for (int i = 0; i < 2; ++i) if (p->verts[x].pnbrs[i] == z) return -1; for (int i = 0; i < 2; ++i) if (p->verts[x].pnbrs[i] == w) return i; return -1; };
      while ((q = slot(u)) < 0 && t++ < n) u = (u + 1) % n; if (q < 0) throw pbt::Discard(); p->verts[v].pnbrs[k] = w; p->verts[u].pnbrs[q] = z; kn = dbl ? "double edge with right counts" : "self-pointing with right counts"; break; }
    case 0: { static const int off[] = {0, 1, 2, 7, 100}; int m = (int)c.raw(7); p->verts[v].pnbrs[k] = m < 5 ? n + off[m] : m == 5 ? INT_MAX : std::max(n, MAXV); kn = "index too large"; break; }
    case 1: { static const int ng[] = {-1, -2, -3, -17, -1000000, INT_MIN}; p->verts[v].pnbrs[k] = ng[c.raw(6)]; kn = "negative index"; break; }
    case 2: { p->verts[v].pnbrs[k] = v; kn = "self-pointing"; break; }
    case 3: { p->verts[v].pnbrs[k] = p->verts[v].pnbrs[1 - k]; kn = "double edge"; break; }
    case 4: { int w = (int)c.raw(n), t = 0; auto bad = [&](int x) { return x == v || x == p->verts[v].pnbrs[0] || x == p->verts[v].pnbrs[1]; }; while (bad(w) && t++ < n) w = (w + 1) % n; if (bad(w)) throw pbt::Discard(); p->verts[v].pnbrs[k] = w; kn = "wrong number of incoming links"; break; }
    case 5: { // two vertices that list themselves and each other: every vertex is pointed to twice
      if (n + 2 > MAXV) throw pbt::Discard(); int a = n, b = n + 1; p->nverts = n + 2; for (int q : {a, b}) { p->verts[q].pos.x = p->verts[q].pos.y = 0; } p->verts[a].pnbrs[0] = a; p->verts[a].pnbrs[1] = b; p->verts[b].pnbrs[0] = b; p->verts[b].pnbrs[1] = a; kn = "two-vertex self loops"; break; }
    default: { if (n + 2 > MAXV) throw pbt::Discard(); int a = n, b = n + 1; p->nverts = n + 2; for (int q : {a, b}) { p->verts[q].pos.x = p->verts[q].pos.y = 0; } p->verts[a].pnbrs[0] = p->verts[a].pnbrs[1] = b; p->verts[b].pnbrs[0] = p->verts[b].pnbrs[1] = a; kn = "two-vertex loop"; }
  }
  c.label(kn); c.note("%s", kn); notegraph(c, p.get()); Poly q = dup(p); int rc = r2d_is_good(p.get()); CHECK(c, rc == 0, "%s: r2d_is_good returned %d", kn, rc); CHECK(c, same(p.get(), q.get()), "r2d_is_good changed the polygon");
}
