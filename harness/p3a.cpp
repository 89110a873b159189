// 3D: clipping, splitting, topology, integration, initialisation, brep, transformations, planes
#include "gen3.hpp"
using namespace g3;
using pbt::fmt;

static const double EPS = REPS;
static double powi(double x, int k) { double r = 1; while (k-- > 0) r *= x; return r; }
#define FACC 1

// compare library moments with reference moments; unit(k) is the error unit of order k
template <class F> static void cmp_moments(Ctx& c, const char* what, const r3d_real* m, const std::vector<L>& e, int order, F unit, double C) {
  for (int i = 0; i < R3D_NUM_MOMENTS(order); ++i) {
    int k = ref::total_order3(i); double u = unit(k), err = (double)fabsl((L)m[i] - e[i]);
    CHECK(c, std::isfinite((double)m[i]), "%s: moment %d is not finite", what, i);
    c.measure(fmt("%s err/unit order %d", what, std::min(k, 6)), err / u);
    CHECK(c, err <= C * u, "%s: moment %d is %.17g, reference %.17Lg (error %.3g = %.3g units of %.3g)", what, i, (double)m[i], e[i], err, err / u, u);
  }
}
static double clipunit(double R, double r, int np, int k) { return EPS * (np + 2) * R * r * r * powi(R, k); }
static const double CCLIP = 200;

static int gen_order(Ctx& c, int mx = 5) { static const int w[] = {0, 1, 2, 2, 3, 1, 0, 4, 2, 5}; return std::min(mx, w[c.raw(10)]); }

static V3 rdir(Ctx& c) { for (int t = 0; t < 8; ++t) { V3 q; for (int k = 0; k < 3; ++k) q[k] = c.uni(-1, 1); L l = ref::norm(q); if (l > 0.1L && l <= 1) return (1 / l) * q; } return V3{{1, 0, 0}}; }
static std::vector<r3d_plane> genplanes(Ctx& c, const Spec& s, int n, double R, double r, bool nodrop = false) {
  std::vector<r3d_plane> ps; std::string k;
  for (int i = 0; i < n; ++i) {
    r3d_plane p = genplane(c, s.v, R, r, ps, &k);
    if (nodrop && k == "drops-all") { for (int q = 0; q < 3; ++q) p.n.xyz[q] = -p.n.xyz[q]; p.d = -p.d; }
    c.label("plane:" + k); describe(c, p, k.c_str()); ps.push_back(p);
  }
  return ps;
}

PROPERTY(c01_moments, "C01/moments", 30000, "at least one plane really cuts: the reference volume is strictly between 0 and the input's") {
  Opts o; o.cap = std::min(R3D_MAX_VERTS, c.chance(1, 12) ? R3D_MAX_VERTS - 8 : 300);
  Spec s = gen(c, o); describe(c, s); c.label("shape:" + s.kind.substr(0, s.kind.find('(')));
  double R, r; extent(s, R, r);
  int np = c.chance(1, 12) ? c.range(7, 20) : c.range(1, 6);
  auto ps = genplanes(c, s, np, R, r);
  int order = ref::fitorder<r3d_real>(gen_order(c), 3, R, r);
  Poly p = make(c, s); Poly orig = dup(p);
  std::vector<r3d_plane> pin = ps;
  int rc = r3d_clip(p.get(), pin.data(), np);
  if (rc == 0 && need(s) + 3 * (int)orig->nverts / 2 > R3D_MAX_VERTS) { c.label("overflow"); return; }
  CHECK(c, rc == 1, "r3d_clip returned %d although the buffer (%d) suffices for %d vertices", rc, R3D_MAX_VERTS, orig->nverts);
  CHECK(c, memcmp(pin.data(), ps.data(), np * sizeof(r3d_plane)) == 0, "r3d_clip changed the planes");
  // every remaining vertex satisfies every plane and lies in the original bounds
  double lo[3], hi[3]; for (int k = 0; k < 3; ++k) { lo[k] = 1e300; hi[k] = -1e300; for (auto& q : s.v) { lo[k] = std::min(lo[k], q.x[k]); hi[k] = std::max(hi[k], q.x[k]); } }
  double tol = 64 * EPS * R * (np + 1);
  CHECK(c, p->nverts >= 0 && p->nverts <= R3D_MAX_VERTS, "nverts = %d", p->nverts);
  for (int v = 0; v < p->nverts; ++v) {
    V3 x = tov(p->verts[v].pos);
    for (int k = 0; k < 3; ++k) CHECK(c, x[k] >= lo[k] - tol && x[k] <= hi[k] + tol, "vertex %d leaves the original bounds: %.17Lg not in [%.17g, %.17g]", v, x[k], lo[k], hi[k]);
    for (int i = 0; i < np; ++i) { L sd = ref::dot(tov(ps[i]).n, x) + ps[i].d; c.measure("plane violation/(eps R)", (double)(-sd) / (EPS * R)); CHECK(c, sd >= -tol, "vertex %d violates plane %d by %.3Lg", v, i, -sd); }
  }
  // extreme positions of the vertices decide exact expectations
  bool allkeep = true, dropped = false;
  for (int i = 0; i < np; ++i) {
    auto h = tov(ps[i]); L mn = 1e4000L, mx = -1e4000L; for (auto& q : s.v) { L sd = ref::dot(h.n, tov(q)) + h.d; mn = std::min(mn, sd); mx = std::max(mx, sd); }
    bool axis = false; for (int k = 0; k < 3; ++k) if (fabs((double)ps[i].n.xyz[k]) == 1.0 && ps[i].n.xyz[(k + 1) % 3] == 0 && ps[i].n.xyz[(k + 2) % 3] == 0) axis = true;
    double mg = axis ? 0 : 16 * EPS * R;
    if (!(mn >= mg)) allkeep = false;
    if (mx < -16 * EPS * R * (i + 1) || (i == 0 && axis && mx <= 0 && mn < 0)) dropped = true;
  }
  if (allkeep) { c.label("result:all-kept"); CHECK(c, same(p.get(), orig.get()), "no plane cuts the body, but it was changed"); }
  if (dropped) { c.label("result:all-dropped"); CHECK(c, p->nverts == 0, "one plane excludes the whole body, but %d vertices remain", p->nverts); }
  // moments
  auto sx = decomp(s); L v0 = ref::moments<3>(sx, 0)[0];
  for (int i = 0; i < np; ++i) { sx = ref::clip<3>(sx, tov(ps[i])); if (sx.size() > 6000) { c.label("reference too large"); return; } }
  if (order > 3 && sx.size() > 600) order = 2;
  auto e = ref::moments<3>(sx, order);
  std::vector<r3d_real> m(R3D_NUM_MOMENTS(order));
  r3d_reduce(p.get(), m.data(), order);
  double vt = clipunit(R, r, np, 0);
  if (fabsl(e[0]) > 1e3 * vt && fabsl(e[0] - v0) > 1e3 * vt) { c.nontrivial(); c.label("result:cut"); }
  cmp_moments(c, "clip", m.data(), e, order, [&](int k) { return clipunit(R, r, np, k); }, CCLIP);
}

PROPERTY(c01_order, "C01/order", 6000, "the common result is a nonempty proper part of the input") {
  Opts o; o.cap = std::min(R3D_MAX_VERTS, 200); o.big = false;
  Spec s = gen(c, o); describe(c, s); double R, r; extent(s, R, r);
  int np = c.range(2, 8); auto ps = genplanes(c, s, np, R, r, true);
  Poly a = make(c, s); Poly b = dup(a), d = dup(a); int on = a->nverts;
  int r1 = r3d_clip(a.get(), ps.data(), np);
  std::vector<int> perm(np); for (int i = 0; i < np; ++i) perm[i] = i; for (int i = np - 1; i > 0; --i) std::swap(perm[i], perm[c.raw(i + 1)]);
  std::vector<r3d_plane> q; for (int i : perm) q.push_back(ps[i]);
  // once nothing is left the status of further calls is not specified (it is 0), but nothing must come back
  int r2 = 1, r3 = 1;
  for (int i = 0; i < np;) { int k = c.range(1, np - i); bool e = b->nverts == 0; int rc = r3d_clip(b.get(), q.data() + i, k); i += k; if (e) CHECK(c, b->nverts == 0, "clipping an empty polyhedron gave %d vertices", b->nverts); else r2 &= rc; }
  for (int j = 0; j < np; ++j) { bool e = d->nverts == 0; int rc = r3d_clip(d.get(), &ps[j], 1); if (e) CHECK(c, d->nverts == 0, "clipping an empty polyhedron gave %d vertices", d->nverts); else r3 &= rc; }
  if (!(r1 && r2 && r3) && on * 5 / 2 > R3D_MAX_VERTS) return;
  CHECK(c, r1 == 1 && r2 == 1 && r3 == 1, "clip failed: %d %d %d", r1, r2, r3);
  const int order = 2; r3d_real ma[10], mb[10], md[10], mo[10];
  r3d_reduce(a.get(), ma, order); r3d_reduce(b.get(), mb, order); r3d_reduce(d.get(), md, order);
  Poly z = make(c, s); r3d_reduce(z.get(), mo, order);
  double vt = clipunit(R, r, np, 0); if (fabs((double)ma[0]) > 1e3 * vt && fabs((double)ma[0] - (double)mo[0]) > 1e3 * vt) c.nontrivial();
  for (int m = 0; m < 10; ++m) {
    double u = clipunit(R, r, np, ref::total_order3(m)) * 2;
    CHECK(c, fabs((double)ma[m] - (double)mb[m]) <= CCLIP * u, "moment %d depends on plane order/grouping: %.17g vs %.17g", m, (double)ma[m], (double)mb[m]);
    CHECK(c, fabs((double)ma[m] - (double)md[m]) <= CCLIP * u, "moment %d depends on one call vs several: %.17g vs %.17g", m, (double)ma[m], (double)md[m]);
  }
}

// a list far longer than any body has faces: random planes tangent to a sphere in the body (each
// cuts something off) between planes beyond it that cut nothing
PROPERTY(c01_long, "C01/long-list", 700, "more than 16 planes in one call, and one of the last four cuts") {
  Opts o; o.cap = 60; o.big = false; o.multi = c.chance(1, 4); Spec s = gen(c, o); describe(c, s); double R, r; extent(s, R, r);
  static const int lens[6][2] = {{17, 36}, {37, 70}, {71, 140}, {141, 270}, {271, 520}, {521, 1100}}; int w = c.weighted({4, 3, 3, 2, 2, 1}), np = c.range(lens[w][0], lens[w][1]);
  V3 o0{{0, 0, 0}}; for (auto& q : s.v) o0 = o0 + (1.0L / s.v.size()) * tov(q);
  int cuts = std::min(np, c.range(1, 40)); std::vector<int> cut(np, 0); for (int i = 0; i < cuts; ++i) cut[i ? c.raw(np) : np - 1 - c.raw(4)] = 1;
  std::vector<r3d_plane> ps; double rho = c.uni(0.3, 0.8), far = 4 * r + 1e-300;
  for (int i = 0; i < np; ++i) { V3 n = rdir(c); r3d_plane h = mkplane(n, 0); L d = 0; for (int k = 0; k < 3; ++k) d -= (L)h.n.xyz[k] * o0[k]; h.d = (r3d_real)(d + (cut[i] ? rho * r : far)); ps.push_back(h); }
  c.note("%d planes, %d of them tangent to a sphere of %.3g radii, the others beyond the body", np, cuts, rho); c.label(fmt("lists up to %d", lens[w][1]));
  Poly a = make(c, s), b = dup(a); std::vector<r3d_plane> pin = ps; int on = a->nverts; bool ok = true;
  for (int i = 0; i < np && ok && b->nverts; ++i) ok = r3d_clip(b.get(), &pin[i], 1) == 1;
  if (!ok) { c.label("overflow"); return; }
  int rc = r3d_clip(a.get(), pin.data(), np); CHECK(c, rc == 1, "r3d_clip with %d planes returned %d on %d vertices although plane after plane it succeeds", np, rc, on);
  CHECK(c, memcmp(pin.data(), ps.data(), np * sizeof(r3d_plane)) == 0, "r3d_clip changed the planes");
  if (a->nverts) c.nontrivial();
  double tol = 64 * EPS * R * (cuts + 2);
  for (int v = 0; v < a->nverts; ++v) for (int i = 0; i < np; ++i) { L sd = ref::dot(tov(ps[i]).n, tov(a->verts[v].pos)) + ps[i].d; CHECK(c, sd >= -tol, "vertex %d violates plane %d of %d by %.3Lg", v, i, np, -sd); }
  std::string t = topo(a.get()); CHECK(c, t.empty(), "%s", t.c_str());
  r3d_real ma[4], mb[4]; r3d_reduce(a.get(), ma, 1); r3d_reduce(b.get(), mb, 1);
  for (int m = 0; m < 4; ++m) { double u = 2 * clipunit(R, r, cuts, m ? 1 : 0); CHECK(c, fabs((double)ma[m] - (double)mb[m]) <= CCLIP * u, "%d planes in one call: moment %d is %.17g, plane after plane %.17g", np, m, (double)ma[m], (double)mb[m]); }
}
PROPERTY(c02_split, "C02/split", 16000, "at least one list entry is really divided by the plane") {
  int n = c.weighted({4, 3, 3, 2, 1}) + 1;
  Opts o; o.cap = std::min(R3D_MAX_VERTS, 200); o.scales = false; o.big = c.chance(1, 10);
  std::vector<Spec> ss; std::vector<bool> empty; double R = 0, r = 0; std::vector<P3> pts; Spec first;
  for (int i = 0; i < n; ++i) {
    bool e = i && c.chance(1, 8); Spec s; if (!e) { if (c.chance(1, 30)) { s = basic(c, K_BIG, R3D_MAX_VERTS - 12); place(c, s, o); c.label("big body"); } else s = gen(c, o); double a, b; extent(s, a, b); R = std::max(R, a); r = std::max(r, b); describe(c, s); pts.insert(pts.end(), s.v.begin(), s.v.end()); }
    else c.note("(empty entry)");
    ss.push_back(s); empty.push_back(e);
  }
  std::string k; r3d_plane pl = genplane(c, pts, R, r, {}, &k); describe(c, pl, k.c_str()); c.label("plane:" + k);
  int order = ref::fitorder<r3d_real>(gen_order(c, 3), 3, R, r);
  r3d_poly* in = (r3d_poly*)malloc(n * sizeof(r3d_poly)); r3d_poly* op = (r3d_poly*)malloc(n * sizeof(r3d_poly)); r3d_poly* on = (r3d_poly*)malloc(n * sizeof(r3d_poly));
  std::unique_ptr<void, void (*)(void*)> k1(in, free), k2(op, free), k3(on, free);
  uint64_t pat = c.raw(1000); pbt::poison(in, n * sizeof(r3d_poly), pat); pbt::stale(op, n * sizeof(r3d_poly), pat + 1); pbt::stale(on, n * sizeof(r3d_poly), pat + 2);
  std::vector<Poly> orig(n); bool fits = true;
  for (int i = 0; i < n; ++i) {
    orig[i] = newpoly(3); orig[i]->nverts = 0;
    if (empty[i]) { in[i].nverts = 0; continue; }
    CHECK(c, init(ss[i], &in[i]) == 1, "init failed"); memcpy(orig[i].get(), &in[i], sizeof(r3d_poly));
    if (in[i].nverts * 4 > R3D_MAX_VERTS) fits = false;
  }
  int rc = r3d_split(in, n, pl, op, on);
  if (rc == 0 && !fits) return;
  CHECK(c, rc == 1, "r3d_split returned %d", rc);
  auto h = tov(pl); ref::Plane<3> g = h; g.n = -1.0L * g.n; g.d = -g.d;
  for (int i = 0; i < n; ++i) {
    if (empty[i]) { CHECK(c, op[i].nverts == 0 && on[i].nverts == 0, "empty entry %d: outputs have %d and %d vertices", i, op[i].nverts, on[i].nverts); continue; }
    std::string tp = topo(&op[i]), tn = topo(&on[i]);
    CHECK(c, tp.empty(), "positive output %d: %s", i, tp.c_str()); CHECK(c, tn.empty(), "negative output %d: %s", i, tn.c_str());
    bool axis = false; for (int q = 0; q < 3; ++q) if (fabs((double)pl.n.xyz[q]) == 1.0 && pl.n.xyz[(q + 1) % 3] == 0 && pl.n.xyz[(q + 2) % 3] == 0) axis = true;
    double Ri, ri; extent(ss[i], Ri, ri);
    L mn = 1e4000L, mx = -1e4000L; for (auto& q : ss[i].v) { L sd = ref::dot(h.n, tov(q)) + h.d; mn = std::min(mn, sd); mx = std::max(mx, sd); }
    double mg = axis ? 0 : 16 * EPS * (Ri + fabs((double)pl.d));
    if (mn >= mg) { c.label("entry:positive"); CHECK(c, on[i].nverts == 0 && same(&op[i], orig[i].get()), "entry %d lies on the positive side but was not passed on unchanged", i); }
    if (mx < -mg) { c.label("entry:negative"); CHECK(c, op[i].nverts == 0 && same(&on[i], orig[i].get()), "entry %d lies on the negative side but was not passed on unchanged", i); }
    double Rt = std::max(Ri, R), tol = 128 * EPS * Rt;
    for (int v = 0; v < op[i].nverts; ++v) { L sd = ref::dot(h.n, tov(op[i].verts[v].pos)) + h.d; CHECK(c, sd >= -tol, "positive output %d: vertex %d at signed distance %.3Lg", i, v, sd); }
    for (int v = 0; v < on[i].nverts; ++v) { L sd = ref::dot(h.n, tov(on[i].verts[v].pos)) + h.d; CHECK(c, sd <= tol, "negative output %d: vertex %d at signed distance %.3Lg", i, v, sd); }
    auto sx = decomp(ss[i]); auto ep = ref::moments<3>(ref::clip<3>(sx, h), order), en = ref::moments<3>(ref::clip<3>(sx, g), order), et = ref::moments<3>(sx, order);
    std::vector<r3d_real> mp(R3D_NUM_MOMENTS(order)), mn2(R3D_NUM_MOMENTS(order)), sum(R3D_NUM_MOMENTS(order));
    r3d_reduce(&op[i], mp.data(), order); r3d_reduce(&on[i], mn2.data(), order);
    double vt = 1e3 * clipunit(Rt, ri, 1, 0); if (fabsl(ep[0]) > vt && fabsl(en[0]) > vt) { c.nontrivial(); c.label("entry:divided"); }
    auto un = [&](int kk) { return clipunit(Rt, ri, 1, kk); };
    cmp_moments(c, "split+", mp.data(), ep, order, un, CCLIP); cmp_moments(c, "split-", mn2.data(), en, order, un, CCLIP);
    for (size_t m = 0; m < sum.size(); ++m) sum[m] = mp[m] + mn2[m];
    cmp_moments(c, "split sum", sum.data(), et, order, un, CCLIP);
    // independent of the neighbours in the list
    if (n > 1) { Poly a = newpoly(5), b = newpoly(6), d = dup(orig[i]); CHECK(c, r3d_split(d.get(), 1, pl, a.get(), b.get()) == 1, "single split failed"); CHECK(c, same(a.get(), &op[i]) && same(b.get(), &on[i]), "entry %d differs from splitting it alone", i); }
  }
}
PROPERTY(c02_long, "C02/long-list", 150, "more than five entries, one of the last ones divided") {
  static const int lens[5][2] = {{6, 36}, {37, 70}, {71, 140}, {141, 270}, {271, 600}}; int w = c.weighted({3, 3, 3, 2, 1}), n = c.range(lens[w][0], lens[w][1]); c.label(fmt("lists up to %d", lens[w][1]));
  r3d_poly* in = (r3d_poly*)malloc(n * sizeof(r3d_poly)); r3d_poly* op = (r3d_poly*)malloc(n * sizeof(r3d_poly)); r3d_poly* on = (r3d_poly*)malloc(n * sizeof(r3d_poly));
  std::unique_ptr<void, void (*)(void*)> k1(in, free), k2(op, free), k3(on, free); uint64_t pat = c.raw(1000); pbt::stale(op, n * sizeof(r3d_poly), pat + 1); pbt::stale(on, n * sizeof(r3d_poly), pat + 2);
  r3d_plane pl = mkplane(rdir(c), (r3d_real)c.uni(-0.3, 0.3)); std::vector<Poly> orig(n); c.note("%d boxes and tetrahedra in [-1,1]^3, plane (%.17g, %.17g, %.17g) %.17g", n, (double)pl.n.x, (double)pl.n.y, (double)pl.n.z, (double)pl.d); bool late = false;
  for (int i = 0; i < n; ++i) {
    switch (c.weighted({4, 4, 1})) {
      case 0: { r3d_rvec3 b[2]; for (int k = 0; k < 3; ++k) { double x = c.uni(-1, 0.9); b[0].xyz[k] = (r3d_real)x; b[1].xyz[k] = (r3d_real)(x + c.uni(0.05, 1)); } r3d_init_box(&in[i], b); break; }
      case 1: { r3d_rvec3 v[4]; for (auto& q : v) for (int k = 0; k < 3; ++k) q.xyz[k] = (r3d_real)c.uni(-1, 1); r3d_init_tet(&in[i], v); break; }
      default: in[i].nverts = 0; }
    orig[i] = newpoly(3); orig[i]->nverts = in[i].nverts; if (in[i].nverts) memcpy(orig[i]->verts, in[i].verts, in[i].nverts * sizeof in[i].verts[0]);
  }
  int rc = r3d_split(in, n, pl, op, on); CHECK(c, rc == 1, "r3d_split of %d entries returned %d", n, rc);
  for (int i = 0; i < n; ++i) {
    Poly a = newpoly(5), b = newpoly(6), d = dup(orig[i]); CHECK(c, r3d_split(d.get(), 1, pl, a.get(), b.get()) == 1, "single split failed");
    CHECK(c, same(a.get(), &op[i]) && same(b.get(), &on[i]), "entry %d of %d differs from splitting it alone", i, n); if (a->nverts && b->nverts && i >= n - 4) late = true;
  }
  if (late) c.nontrivial();
}

PROPERTY(c03_history, "C03/history", 14000, "at least two operations changed the connectivity and the final body is not empty") {
  Opts o; o.cap = std::min(R3D_MAX_VERTS, 120); o.offsets = c.chance(1, 4);
  Spec s = gen(c, o); describe(c, s); Poly p = make(c, s); bool sphere = s.sphere; int changes = 0;
  auto verify = [&](const r3d_poly* q, const char* op) {
    Topo t; std::string e = topo(q, &t); CHECK(c, e.empty(), "after %s: %s", op, e.c_str());
    if (sphere) { CHECK(c, t.euler, "after %s: a component violates V-E+F=2 (%d vertices, %d faces, %d components)", op, q->nverts, t.nfaces, t.ncomp);
      if (q->nverts <= 90) CHECK(c, r3d_is_good(const_cast<r3d_poly*>(q)) == 1, "after %s: r3d_is_good rejects the body (%d vertices)", op, q->nverts); }
  };
  verify(p.get(), "init");
  std::vector<r3d_plane> prev; int nops = c.range(1, 10);
  for (int i = 0; i < nops && p->nverts > 0; ++i) {
    auto pts = positions(p.get()); double R = 0, r = 0; { Spec t; t.v = pts; extent(t, R, r); } if (!(r > 1e-280 && R < 1e150)) break; if (r <= 0) break;
    std::string k; int n0 = p->nverts; Poly before = dup(p);
    switch (c.weighted({6, 4, 1, 1, 1, 1, 1, 1})) {
      case 0: { int np = c.chance(1, 8) ? c.range(4, c.chance(1, 4) ? 80 : 12) : c.range(1, 3); if (np > 3) c.label("more than three planes in one call"); std::vector<r3d_plane> ps; for (int j = 0; j < np; ++j) { r3d_plane q = genplane(c, pts, R, r, prev, &k); if (k == "drops-all") { q.d = (r3d_real)(q.d + 1.5 * r); } if (np > 3 && c.chance(1, 2)) q.d = (r3d_real)(q.d + c.uni(0.1, 1) * r); ps.push_back(q); prev.push_back(q); describe(c, q, k.c_str()); }
        int rc = r3d_clip(p.get(), ps.data(), np); if (!rc) { CHECK(c, n0 * 5 / 2 * np > R3D_MAX_VERTS, "clip returned 0 with %d vertices", n0); return; } c.note("clip %d -> %d verts", np, p->nverts); break; }
      case 1: { r3d_plane q = genplane(c, pts, R, r, prev, &k); if (k == "drops-all" ) continue; describe(c, q, k.c_str()); Poly a = newpoly(9), b = newpoly(10);
        int rc = r3d_split(p.get(), 1, q, a.get(), b.get()); if (!rc) { CHECK(c, n0 * 4 > R3D_MAX_VERTS, "split returned 0 with %d vertices", n0); return; }
        verify(a.get(), "split (positive)"); verify(b.get(), "split (negative)"); c.note("split -> %d + %d", a->nverts, b->nverts); bool neg = c.chance(1, 2); if (neg ? b->nverts > 0 : a->nverts <= 0) p = std::move(b); else p = std::move(a); break; }
      case 2: { r3d_rvec3 t; for (int q = 0; q < 3; ++q) t.xyz[q] = (r3d_real)(r * c.uni(-2, 2)); r3d_translate(p.get(), t); prev.clear(); break; }
      case 3: { r3d_scale(p.get(), (r3d_real)(c.chance(1, 3) ? -c.uni(0.3, 2) : c.uni(0.3, 2))); prev.clear(); break; }
      case 4: { r3d_rotate(p.get(), (r3d_real)c.uni(-4, 4), (int)c.raw(3)); prev.clear(); break; }
      case 5: { int a = (int)c.raw(3), b = (a + 1 + (int)c.raw(2)) % 3; r3d_shear(p.get(), (r3d_real)c.uni(-1, 1), a, b); prev.clear(); break; }
      case 6: { r3d_real M[4][4] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}}; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) M[a][b] += (r3d_real)c.uni(-0.3, 0.3); r3d_affine(p.get(), M); prev.clear(); break; }
      default: { // close the loop through the boundary representation when it is one component
        r3d_brep* br = nullptr; r3d_int nc = 0; r3d_init_brep(p.get(), &br, &nc); c.note("brep %d components", nc);
        CHECK(c, nc >= 1, "brep of a nonempty body has %d components", nc); r3d_free_brep(&br, nc); break; }
    }
    verify(p.get(), "operation");
    bool ch = p->nverts != n0; if (!ch) for (int v = 0; v < n0; ++v) for (int q = 0; q < 3; ++q) if (p->verts[v].pnbrs[q] != before->verts[v].pnbrs[q]) ch = true;
    if (ch) ++changes;
  }
  if (changes >= 2 && p->nverts > 0) c.nontrivial();
}

// arbitrary inside/outside patterns: vertices get unrelated coordinates, so that a plane produces any labelling
PROPERTY(c03_labels, "C03/any-labelling", 12000, "both sides occupied by at least two vertices and the kept part is not connected or has several caps") {
  Opts o; o.cap = std::min(R3D_MAX_VERTS, 100); o.torus = c.chance(1, 6); o.scales = o.offsets = o.transforms = false; o.inverted = false;
  Spec s = gen(c, o); Poly p = make(c, s); describe(c, s);
  int rounds = c.range(1, 4);
  for (int t = 0; t < rounds && p->nverts > 0; ++t) {
    int n = p->nverts, mode = (int)c.raw(3); int pos = 0, neg = 0;
    std::string lab;
    for (int v = 0; v < n; ++v) {
      int l = (int)c.raw(mode == 0 ? 2 : mode == 1 ? 3 : 5);   // 0: on/inside, 1: outside, 2: exactly on the plane
      p->verts[v].pos.x = (r3d_real)(l == 1 ? -c.uni(1e-3, 1) : l == 2 ? 0 : c.uni(1e-3, 1));
      p->verts[v].pos.y = (r3d_real)c.uni(-1, 1); p->verts[v].pos.z = (r3d_real)c.uni(-1, 1);
      if (l == 1) ++neg; else ++pos; lab += l == 1 ? '-' : l == 2 ? '0' : '+';
    }
    c.note("round %d labels %s", t, lab.c_str());
    r3d_plane pl; memset(&pl, 0, sizeof pl); pl.n.x = 1;
    bool split = c.chance(1, 2); Topo tp;
    if (split) {
      Poly a = newpoly(1), b = newpoly(2); int rc = r3d_split(p.get(), 1, pl, a.get(), b.get()); if (!rc) { CHECK(c, n * 4 > R3D_MAX_VERTS, "split returned 0 for %d vertices", n); return; }
      for (auto* q : {a.get(), b.get()}) { std::string e = topo(q, &tp); CHECK(c, e.empty(), "after split: %s", e.c_str()); if (s.sphere) { CHECK(c, tp.euler, "after split: Euler relation broken"); if (q->nverts <= 90) CHECK(c, r3d_is_good(q) == 1, "after split: r3d_is_good rejects"); } if (tp.ncomp > 1) c.nontrivial(); }
      p = c.chance(1, 2) && b->nverts ? std::move(b) : std::move(a);
    } else {
      std::vector<r3d_plane> ps = {pl}; if (c.chance(1, 5)) { for (int i = c.range(1, 9); i > 0; --i) { r3d_plane q; memset(&q, 0, sizeof q); q.n.xyz[c.raw(3)] = (r3d_real)(c.chance(1, 2) ? 1 : -1); q.d = (r3d_real)c.uni(-0.2, 1.2); ps.push_back(q); } c.note("%zu planes in one call", ps.size()); c.label("several planes in one call"); }
      int rc = r3d_clip(p.get(), ps.data(), (int)ps.size()); if (!rc) { CHECK(c, ps.size() > 1 || n * 5 / 2 > R3D_MAX_VERTS, "clip returned 0 for %d vertices", n); return; }
      std::string e = topo(p.get(), &tp); CHECK(c, e.empty(), "after clip: %s", e.c_str());
      if (s.sphere) { CHECK(c, tp.euler, "after clip: Euler relation broken"); if (p->nverts <= 90) CHECK(c, r3d_is_good(p.get()) == 1, "after clip: r3d_is_good rejects"); }
      if (tp.ncomp > 1) c.nontrivial();
    }
    if (pos > 1 && neg > 1) c.label("mixed round");
    if (p->nverts > 120) break;
  }
}

PROPERTY(c04_reduce, "C04/reduce", 20000, "order at least 1 and more than 4 vertices, or a body away from the origin") {
  Opts o; o.cap = R3D_MAX_VERTS; Spec s = gen(c, o); describe(c, s); double R, r; extent(s, R, r);
  int order = c.chance(1, 8) ? c.chance(1, 5) ? c.chance(1, 12) ? c.range(15, 22) : c.range(9, 14) : c.range(5, 8) : (int)c.raw(5); if (s.f.size() > 60 && order > 5) order = 5; if (s.f.size() > 16 && order > 8) order = 8; order = ref::fitorder<r3d_real>(order, 3, R, r);
  c.label(fmt("order:%d", order)); c.label(s.exactplanar ? "exactly planar faces" : "faces planar to rounding");
  c.note("order %d", order);
  Poly p = make(c, s); Poly keep = dup(p);
  int nm = R3D_NUM_MOMENTS(order); std::vector<r3d_real> buf(nm + 8); pbt::poison(buf.data(), buf.size() * sizeof(r3d_real), 99); std::vector<r3d_real> can(buf.begin() + nm, buf.end());
  r3d_real* mm = (r3d_real*)malloc(nm * sizeof(r3d_real)); std::unique_ptr<void, void (*)(void*)> k1(mm, free); pbt::poison(mm, nm * sizeof(r3d_real), 7);
  r3d_reduce(p.get(), mm, order); r3d_reduce(p.get(), buf.data(), order);
  CHECK(c, memcmp(can.data(), buf.data() + nm, 8 * sizeof(r3d_real)) == 0, "r3d_reduce wrote past the documented %d moments", nm);
  CHECK(c, memcmp(mm, buf.data(), nm * sizeof(r3d_real)) == 0, "r3d_reduce gives different results on repeat");
  CHECK(c, same(p.get(), keep.get()), "r3d_reduce changed the polyhedron");
  auto sx = decomp(s); auto e = ref::moments<3>(sx, order);
  double nf = 1 + s.v.size() / 40.0;
  auto un = [&](int k) { return EPS * nf * (s.exactplanar ? r : r + R) * r * r * powi(R + r / 2, k); }; // any point in the body may be the reference point
  cmp_moments(c, s.exactplanar ? "reduce(strict)" : "reduce", mm, e, order, un, 60);
  if ((order >= 1 && s.v.size() > 4) || R > 3 * r) c.nontrivial();
  // centre
  r3d_rvec3 vc = r3d_poly_center(p.get()); L sum[3] = {0, 0, 0}; for (int v = 0; v < p->nverts; ++v) for (int k = 0; k < 3; ++k) sum[k] += p->verts[v].pos.xyz[k];
  for (int k = 0; k < 3; ++k) CHECK(c, fabsl(sum[k] / p->nverts - vc.xyz[k]) <= 4 * EPS * R * (1 + p->nverts / 8.0), "centre component %d is %.17g, vertex average %.17Lg", k, (double)vc.xyz[k], sum[k] / p->nverts);
  // shifting
  r3d_rvec3 sh; for (int k = 0; k < 3; ++k) sh.xyz[k] = (r3d_real)(c.chance(1, 6) ? 0 : r * c.uni(-3, 3));
  std::vector<r3d_real> m2(nm + 4); for (int i = 0; i < nm; ++i) m2[i] = (r3d_real)e[i]; for (int i = 0; i < 4; ++i) m2[nm + i] = (r3d_real)(i + 12345);
  r3d_shift_moments(m2.data(), order, sh);
  for (int i = 0; i < 4; ++i) CHECK(c, m2[nm + i] == (r3d_real)(i + 12345), "r3d_shift_moments wrote past the moments");
  for (auto& t : sx) for (auto& q : t.v) for (int k = 0; k < 3; ++k) q[k] += sh.xyz[k];
  auto es = ref::moments<3>(sx, order);
  L av = 0; for (auto& t : sx) av += fabsl(t.w) / 6; double avd = (double)av; if (avd < r * r * r * 1e-3) avd = r * r * r * 1e-3;
  cmp_moments(c, "shift", m2.data(), es, order, [&](int k) { return EPS * avd * powi(2 * R + 4 * r, k); }, 40);
}
PROPERTY(c04_empty, "C04/empty", 60, "order above 0") {
  int order = (int)c.raw(8); Poly p = newpoly(c.raw(100)); p->nverts = 0; int nm = R3D_NUM_MOMENTS(order); std::vector<r3d_real> b(nm + 2, (r3d_real)3.5);
  c.note("empty polyhedron, order %d", order);
  if (order) c.nontrivial();
  r3d_reduce(p.get(), b.data(), order); for (int i = 0; i < nm; ++i) CHECK(c, b[i] == 0, "moment %d of an empty polyhedron is %g", i, (double)b[i]);
  CHECK(c, b[nm] == (r3d_real)3.5 && b[nm + 1] == (r3d_real)3.5, "wrote past the moments");
}
// the integrals do not depend on vertex numbering, and hold for clipped bodies whose vertices coincide
PROPERTY(c04_additive, "C04/additive", 5000, "both parts have positive volume") {
  Opts o; o.cap = std::min(R3D_MAX_VERTS, 120); o.scales = false; Spec s = gen(c, o); describe(c, s); double R, r; extent(s, R, r); int order = ref::fitorder<r3d_real>(gen_order(c, 4), 3, R, r); Poly p = make(c, s); if (p->nverts * 4 > R3D_MAX_VERTS) return;
  // renumber the vertices at random and rotate the neighbour lists: same solid
  int n = p->nverts; std::vector<int> pm(n); for (int i = 0; i < n; ++i) pm[i] = i; for (int i = n - 1; i > 0; --i) std::swap(pm[i], pm[c.raw(i + 1)]);
  Poly q = newpoly(4); q->nverts = n; for (int v = 0; v < n; ++v) { int t = (int)c.raw(3); q->verts[pm[v]].pos = p->verts[v].pos; for (int k = 0; k < 3; ++k) q->verts[pm[v]].pnbrs[k] = pm[p->verts[v].pnbrs[(k + t) % 3]]; }
  std::vector<r3d_real> a(R3D_NUM_MOMENTS(order)), b(a), x(a), y(a); r3d_reduce(p.get(), a.data(), order); r3d_reduce(q.get(), b.data(), order);
  std::string k; r3d_plane pl = genplane(c, s.v, R, r, {}, &k); describe(c, pl, k.c_str()); Poly u = newpoly(1), w = newpoly(2); CHECK(c, r3d_split(q.get(), 1, pl, u.get(), w.get()) == 1, "split failed"); r3d_reduce(u.get(), x.data(), order); r3d_reduce(w.get(), y.data(), order);
  if (u->nverts && w->nverts) c.nontrivial();
  for (size_t i = 0; i < a.size(); ++i) { double t = CCLIP * clipunit(std::max(R, r), r, 1, ref::total_order3((int)i)); CHECK(c, fabs((double)a[i] - (double)b[i]) <= t, "moment %zu depends on vertex numbering: %.17g vs %.17g", i, (double)a[i], (double)b[i]); CHECK(c, fabs((double)a[i] - (double)x[i] - (double)y[i]) <= t, "moment %zu is not additive over a split", i); }
}

// ---- faces of a polyhedron as cyclic lists of position ids, coincident runs merged
typedef std::vector<int> Cyc;
static Cyc canon(Cyc f) { Cyc g; for (size_t i = 0; i < f.size(); ++i) if (f[i] != f[(i + 1) % f.size()]) g.push_back(f[i]); if (g.empty()) return g; Cyc best = g; for (size_t i = 1; i < g.size(); ++i) { std::rotate(g.begin(), g.begin() + 1, g.end()); if (g < best) best = g; } return best; }
struct PosId { std::map<std::array<double, 3>, int> m; int id(const P3& p) { std::array<double, 3> k{{p.x[0] + 0.0, p.x[1] + 0.0, p.x[2] + 0.0}}; return m.emplace(k, (int)m.size()).first->second; } int id(const r3d_rvec3& p) { P3 q = {{(double)p.x, (double)p.y, (double)p.z}}; return id(q); } };
static std::vector<Cyc> polyfaces(const r3d_poly* p, PosId& ids) {
  std::vector<Cyc> out; int n = p->nverts; std::vector<char> mark(3 * n, 0);
  for (int s = 0; s < n; ++s) for (int k0 = 0; k0 < 3; ++k0) if (!mark[3 * s + k0]) {
    int v = s, k = k0; Cyc f;
    do { mark[3 * v + k] = 1; f.push_back(ids.id(p->verts[v].pos)); int u = p->verts[v].pnbrs[k], q = 0; while (q < 2 && p->verts[u].pnbrs[q] != v) ++q; v = u; k = (q + 2) % 3; } while (!(v == s && k == k0));
    out.push_back(canon(f));
  }
  std::sort(out.begin(), out.end()); return out;
}
static std::vector<Cyc> specfaces(const Spec& s, PosId& ids) { std::vector<Cyc> out; for (auto& f : s.f) { Cyc g; for (int i : f) g.push_back(ids.id(s.v[i])); out.push_back(canon(g)); } std::sort(out.begin(), out.end()); return out; }
static void check_described(Ctx& c, const r3d_poly* p, const Spec& s, const char* what) {
  Topo t; std::string e = topo(p, &t); CHECK(c, e.empty(), "%s: %s", what, e.c_str());
  CHECK(c, t.ncomp == s.ncomp, "%s: %d components instead of %d", what, t.ncomp, s.ncomp);
  if (s.sphere) { CHECK(c, t.euler, "%s: Euler relation broken", what); if (p->nverts <= 80) CHECK(c, r3d_is_good(const_cast<r3d_poly*>(p)) == 1, "%s: r3d_is_good rejects", what); }
  PosId ids; std::map<int, int> want, got; std::vector<int> deg(s.v.size(), 0); for (auto& f : s.f) for (int i : f) ++deg[i];
  for (size_t i = 0; i < s.v.size(); ++i) want[ids.id(s.v[i])] += std::max(1, deg[i] - 2);
  for (int v = 0; v < p->nverts; ++v) got[ids.id(p->verts[v].pos)]++;
  CHECK(c, want == got, "%s: vertex positions (with multiplicity) differ from the description", what);
  auto a = polyfaces(p, ids), b = specfaces(s, ids);
  CHECK(c, a == b, "%s: the faces differ from the description (%zu faces, expected %zu)", what, a.size(), b.size());
}
PROPERTY(c05_poly, "C05/init_poly", 20000, "more than one component, a vertex of degree above 3, or a nonconvex body") {
  Opts o; Spec s = gen(c, o); describe(c, s); double R, r; extent(s, R, r); int order = ref::fitorder<r3d_real>(gen_order(c, 3), 3, R, r);
  if (s.ncomp > 1 || maxdeg(s) > 3 || !s.convex) c.nontrivial();
  c.label(maxdeg(s) > 3 ? "degree>3" : "degree 3"); c.label("shape:" + s.kind.substr(0, s.kind.find('(')));
  // same description, other order of faces / starting vertices / vertices
  Spec t = s;
  for (auto& f : t.f) std::rotate(f.begin(), f.begin() + c.raw(f.size()), f.end());
  for (int i = (int)t.f.size() - 1; i > 0; --i) std::swap(t.f[i], t.f[c.raw(i + 1)]);
  if (c.chance(1, 2)) { int n = (int)t.v.size(); std::vector<int> pm(n); for (int i = 0; i < n; ++i) pm[i] = i; for (int i = n - 1; i > 0; --i) std::swap(pm[i], pm[c.raw(i + 1)]); Spec u = t; for (int i = 0; i < n; ++i) u.v[pm[i]] = t.v[i]; for (auto& f : u.f) for (int& i : f) i = pm[i]; t = u; }
  Lists l; lists(t, l); Lists l0 = l;
  Poly a = newpoly(c.raw(50)), b = newpoly(c.raw(50) + 100); pbt::dirty_stack(c.raw(1u << 30));
  CHECK(c, init(s, a.get()) == 1, "r3d_init_poly refused a valid description (%zu vertices, %d slots needed)", s.v.size(), need(s));
  { // the same description again, into an output that held the same body with its links in another order
    Poly z = newpoly(c.raw(50)); if (c.chance(1, 2)) { int k = 1 + (int)c.raw(5); z = dup(a); for (int v = 0; v < z->nverts; ++v) { r3d_int* w = z->verts[v].pnbrs; if (k & 1) std::swap(w[0], w[2]); if (k & 2) std::swap(w[0], w[1]); if (k & 4) std::swap(w[1], w[2]); } z->nverts = (r3d_int)c.raw(R3D_MAX_VERTS); }
    CHECK(c, init(s, z.get()) == 1 && same(a.get(), z.get()), "the result depends on what the output held before"); }
  pbt::dirty_stack(c.raw(1u << 30));
  CHECK(c, r3d_init_poly(b.get(), l.v.data(), (int)l.v.size(), l.fp.data(), l.nf.data(), (int)l.nf.size()) == 1, "r3d_init_poly refused a reordered description");
  for (size_t i = 0; i < l.f.size(); ++i) CHECK(c, l.f[i] == l0.f[i] && l.nf[i] == l0.nf[i], "face list changed");
  CHECK(c, memcmp(l.v.data(), l0.v.data(), l.v.size() * sizeof(r3d_rvec3)) == 0, "vertex list changed");
  check_described(c, a.get(), s, "init_poly"); check_described(c, b.get(), t, "init_poly(reordered)");
  auto e = ref::moments<3>(decomp(s), order); std::vector<r3d_real> m(R3D_NUM_MOMENTS(order));
  auto un = [&](int k) { return clipunit(R, r, 0, k) * (1 + s.v.size() / 40.0); };
  r3d_reduce(a.get(), m.data(), order); cmp_moments(c, "init", m.data(), e, order, un, 60);
  r3d_reduce(b.get(), m.data(), order); cmp_moments(c, "init(reordered)", m.data(), e, order, un, 60);
}
PROPERTY(c05_refuse, "C05/refuse", 4000, "always: every case is an invalid description") {
  Opts o; o.cap = std::min(R3D_MAX_VERTS, 200); Spec s = gen(c, o); c.nontrivial();
  int m = (int)c.raw(3);
  if (m == 0) { s.v.insert(s.v.begin() + c.raw(s.v.size() + 1), P3{{0.5, 0.25, 0}}); int k = 0; for (size_t i = 0; i < s.v.size(); ++i) if (s.v[i].x[0] == 0.5 && s.v[i].x[1] == 0.25) k = (int)i; for (auto& f : s.f) for (int& i : f) if (i >= k) ++i; }
  else if (m == 1) { // remove faces around one vertex until it lies on fewer than three
    int v = (int)c.raw(s.v.size()), keep = (int)c.raw(3), seen = 0; std::vector<std::vector<int>> g; for (auto& f : s.f) { bool has = std::find(f.begin(), f.end(), v) != f.end(); if (has && seen++ >= keep) continue; g.push_back(f); } s.f = g; }
  else { // keep only a few faces
    s.f.resize(1 + c.raw(2)); }
  if ((int)s.v.size() > R3D_MAX_VERTS) return;
  describe(c, s); Poly p = newpoly(c.raw(50)); if (c.chance(1, 2)) p->nverts = 4;
  int rc = init(s, p.get()); CHECK(c, rc == 0, "an invalid description (vertex on fewer than 3 faces) was accepted (status %d)", rc); CHECK(c, p->nverts == 0, "refused description leaves nverts = %d", p->nverts);
}
PROPERTY(c05_tetbox, "C05/tet-box", 12000, "any nondegenerate tetrahedron or box") {
  Poly p = newpoly(c.raw(99)); pbt::dirty_stack(c.raw(1u << 30)); Spec s; bool tet = c.chance(1, 2);
  Opts o; o.multi = o.torus = o.big = false; o.transforms = tet; o.inverted = false;
  s = basic(c, tet ? K_TET : K_BOX, R3D_MAX_VERTS); place(c, s, o); describe(c, s); c.nontrivial();
  if (tet) {
    if (vol6(s.v[0], s.v[1], s.v[2], s.v[3]) < 0) std::swap(s.v[2], s.v[3]); s.f = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {0, 3, 2}};
    if (c.chance(1, 4)) { std::swap(s.v[0], s.v[1]); }   // negative orientation: the faces as listed are then clockwise
    r3d_rvec3 v[4], w[4]; for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) v[i].xyz[k] = w[i].xyz[k] = (r3d_real)s.v[i].x[k];
    pbt::Exact<r3d_rvec3> xv(v, 4); r3d_init_tet(p.get(), xv); CHECK(c, memcmp(xv.p, w, sizeof v) == 0, "input changed"); CHECK(c, p->nverts == 4, "tet has %d vertices", p->nverts);
    for (int i = 0; i < 4; ++i) CHECK(c, memcmp(&p->verts[i].pos, &v[i], sizeof(r3d_rvec3)) == 0, "tet vertex %d is not the given one", i);
  } else {
    r3d_rvec3 v[2]; for (int k = 0; k < 3; ++k) { v[0].xyz[k] = (r3d_real)s.v[0].x[k]; v[1].xyz[k] = (r3d_real)s.v[7].x[k]; } pbt::Exact<r3d_rvec3> xv(v, 2); r3d_init_box(p.get(), xv); CHECK(c, xv.same(), "bounds changed"); CHECK(c, p->nverts == 8, "box has %d vertices", p->nverts);
  }
  check_described(c, p.get(), s, tet ? "init_tet" : "init_box");
  double R, r; extent(s, R, r); int order = ref::fitorder<r3d_real>(gen_order(c, 3), 3, R, r); auto e = ref::moments<3>(decomp(s), order); std::vector<r3d_real> m(R3D_NUM_MOMENTS(order)); r3d_reduce(p.get(), m.data(), order);
  cmp_moments(c, "tet/box", m.data(), e, order, [&](int k) { return EPS * r * r * r * powi(R, k); }, 60);
}

// bytes in use, known exactly only when the allocator of AddressSanitizer is linked in
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static long inuse() { return __sanitizer_get_current_allocated_bytes ? (long)__sanitizer_get_current_allocated_bytes() : 0; }

PROPERTY(c06_brep, "C06/brep", 16000, "several components, merged duplicates, or a clipped body") {
  Opts o; o.cap = c.chance(1, 6) ? R3D_MAX_VERTS - 8 : std::min(R3D_MAX_VERTS, 150); Spec s = gen(c, o); describe(c, s); double R, r; extent(s, R, r); Poly p = make(c, s); bool clipped = c.chance(2, 3); int np = 0;
  if (clipped) { np = c.range(1, 5); auto ps = genplanes(c, s, np, R, r, true); if (!r3d_clip(p.get(), ps.data(), np)) return; }
  Topo t; std::string te = topo(p.get(), &t); CHECK(c, te.empty(), "%s", te.c_str());
  Poly keep = dup(p); r3d_brep* br = (r3d_brep*)(uintptr_t)0x10; r3d_int nc = -7; pbt::dirty_stack(c.raw(1u << 30));
  r3d_init_brep(p.get(), &br, &nc);
  CHECK(c, same(p.get(), keep.get()), "r3d_init_brep changed the polyhedron");
  CHECK(c, nc == t.ncomp, "%d entries for %d connected components", nc, t.ncomp);
  if (nc > 1 || maxdeg(s) > 3 || clipped) c.nontrivial(); c.label(fmt("components:%d", std::min(nc, 5))); if (p->nverts == 0) c.label("empty");
  PosId ids; std::vector<ref::Simplex<3>> sx; std::set<int> have; for (int v = 0; v < p->nverts; ++v) have.insert(ids.id(p->verts[v].pos)); int npos = (int)ids.m.size(); std::vector<Cyc> faces; int tv = 0, tf = 0;
  V3 apex = p->nverts ? tov(p->verts[0].pos) : V3{{0, 0, 0}};
  for (int i = 0; i < nc; ++i) {
    const r3d_brep& b = br[i]; CHECK(c, b.numvertices > 0 && b.numfaces > 0, "entry %d has %d vertices, %d faces", i, b.numvertices, b.numfaces); tv += b.numvertices; tf += b.numfaces;
    std::map<std::pair<int, int>, int> edges;
    for (int v = 0; v < b.numvertices; ++v) ids.id(b.vertices[v]);
    CHECK(c, (int)ids.m.size() == npos, "entry %d has a vertex that is not a vertex of the polyhedron", i);
    for (int f = 0; f < b.numfaces; ++f) {
      int n = b.numvertsperface[f]; CHECK(c, n >= 0 && n <= p->nverts, "face with %d vertices", n); Cyc g;
      for (int k = 0; k < n; ++k) { int u = b.faceinds[f][k], w = b.faceinds[f][(k + 1) % n]; CHECK(c, u >= 0 && u < b.numvertices, "entry %d face %d: index %d out of range", i, f, u); g.push_back(ids.id(b.vertices[u])); if (n > 1) edges[{u, w}]++; }
      for (int k = 2; k < n; ++k) { V3 v[4] = {apex, tov(b.vertices[b.faceinds[f][0]]), tov(b.vertices[b.faceinds[f][k - 1]]), tov(b.vertices[b.faceinds[f][k]])}; auto q = ref::make<3>(v); if (q.w != 0) sx.push_back(q); }
      faces.push_back(canon(g));
    }
    for (auto& e : edges) { auto it = edges.find({e.first.second, e.first.first}); CHECK(c, it != edges.end() && it->second == e.second, "entry %d: directed edge %d->%d is not matched by its reverse", i, e.first.first, e.first.second); }
  }
  // the faces are those of the graph
  auto want = polyfaces(p.get(), ids); std::sort(faces.begin(), faces.end()); CHECK(c, faces == want, "the faces are not the polyhedron's faces (%zu vs %zu)", faces.size(), want.size());
  CHECK(c, tf == t.nfaces, "face count %d, expected %d", tf, t.nfaces);
  if (p->nverts) {
    const int order = 2; r3d_real m[10]; r3d_reduce(p.get(), m, order); auto e = ref::moments<3>(sx, order); cmp_moments(c, "brep", m, e, order, [&](int k) { return clipunit(R, r, np, k); }, CCLIP);
  }
  // a body straight from a description comes back as that description
  if (!clipped) {
    std::set<std::array<double, 3>> pos; std::set<int> posid; for (auto& q : s.v) pos.insert({{q.x[0], q.x[1], q.x[2]}});
    if (pos.size() == s.v.size()) CHECK(c, tv == (int)s.v.size(), "round trip has %d vertices, described with %zu", tv, s.v.size());
    PosId id2; auto sf = specfaces(s, ids); CHECK(c, faces == sf, "round trip does not give back the described faces");
    // re-initialising each component reproduces the body
    r3d_real mt[10] = {0}, m1[10], m0[10]; r3d_reduce(p.get(), m0, 2);
    for (int i = 0; i < nc; ++i) { Poly q = newpoly(i); int rc = r3d_init_poly(q.get(), br[i].vertices, br[i].numvertices, br[i].faceinds, br[i].numvertsperface, br[i].numfaces); CHECK(c, rc == 1, "re-initialising from the extracted boundary failed"); r3d_reduce(q.get(), m1, 2); for (int k = 0; k < 10; ++k) mt[k] += m1[k]; }
    for (int k = 0; k < 10; ++k) CHECK(c, fabs((double)mt[k] - (double)m0[k]) <= CCLIP * clipunit(R, r, 1, ref::total_order3(k)), "re-initialised components have other moments");
  }
  r3d_free_brep(&br, nc);
  long u0 = inuse(); r3d_init_brep(p.get(), &br, &nc); long u1 = inuse(); r3d_free_brep(&br, nc); long u2 = inuse();
  if (u1 > u0) c.label("allocation balance checked");
  CHECK(c, u2 == u0, "extracting and freeing leaves %ld bytes allocated (%ld while in use)", u2 - u0, u1 - u0);
}
PROPERTY(c06_empty, "C06/empty", 40, "always") {
  Poly p = newpoly(c.raw(1000)); p->nverts = 0; r3d_brep* br = nullptr; r3d_int nc = 55; c.nontrivial(); c.note("empty polyhedron");
  pbt::dirty_stack(c.raw(1u << 30));
  r3d_init_brep(p.get(), &br, &nc); CHECK(c, nc == 0, "empty polyhedron gives %d components", nc); CHECK(c, p->nverts == 0, "changed"); r3d_free_brep(&br, nc);
}

// ---- transformations
static void c08_cmp(Ctx& c, const char* what, const r3d_poly* a, const r3d_poly* b, const std::vector<V3>& e, const std::vector<L>& unit) {
  CHECK(c, a->nverts == b->nverts, "%s changed the vertex count %d -> %d", what, b->nverts, a->nverts);
  for (int v = 0; v < a->nverts; ++v) for (int k = 0; k < 3; ++k) {
    CHECK(c, a->verts[v].pnbrs[k] == b->verts[v].pnbrs[k], "%s changed the connectivity of vertex %d", what, v);
    L err = fabsl(e[v][k] - a->verts[v].pos.xyz[k]); c.measure(fmt("%s err/unit", what), unit[v] > 0 ? (double)(err / unit[v]) : (err > 0 ? 1e9 : 0));
    CHECK(c, err <= 8 * unit[v], "%s: vertex %d component %d is %.17g, expected %.17Lg", what, v, k, (double)a->verts[v].pos.xyz[k], e[v][k]);
  }
}
PROPERTY(c08_transform, "C08/formula", 24000, "the transformation moves some vertex") {
  Opts o; o.cap = std::min(R3D_MAX_VERTS, 512); Spec s = gen(c, o); if (c.chance(1, 150)) { s = prism(ring(c, R3D_MAX_VERTS / 2, false), 0, 1, 1, 0, 0); s.kind = "full prism"; c.label("full buffer"); } describe(c, s); Poly p = make(c, s), b = dup(p); double R, r; extent(s, R, r); int n = p->nverts; std::vector<V3> e(n); std::vector<L> un(n, (L)EPS * R);
  const char* what = ""; bool moved = false; L det = 1; bool linear = true; double newR = R;
  switch (c.raw(6)) {
    case 0: { what = "translate"; r3d_rvec3 t; for (int k = 0; k < 3; ++k) t.xyz[k] = (r3d_real)(c.chance(1, 5) ? 0 : R * pbt::wide(c, c.uni(-3, 3))); c.note("translate %.17g %.17g %.17g", (double)t.x, (double)t.y, (double)t.z); r3d_translate(p.get(), t); double T = fabs((double)t.x) + fabs((double)t.y) + fabs((double)t.z); for (int v = 0; v < n; ++v) { e[v] = tov(b->verts[v].pos) + tov(t); un[v] = (L)EPS * (R + T); } newR = R + T; break; }
    case 1: { what = "scale"; r3d_real f = (r3d_real)(c.chance(1, 3) ? c.sym(4) : c.chance(1, 6) ? 1 + c.uni(-1, 1) * pow(10, c.uni(-12, -2)) : pbt::wide(c, c.uni(-3, 3))); c.note("scale %.17g", (double)f); r3d_scale(p.get(), f); for (int v = 0; v < n; ++v) { e[v] = (L)f * tov(b->verts[v].pos); un[v] = (L)EPS * R * fabsl((L)f); } det = (L)f * f * f; newR = R * fabs((double)f); break; }
    case 2: { what = "rotate"; r3d_real th = (r3d_real)pbt::angle(c); int ax = (int)c.raw(3); c.note("rotate %.17g about axis %d", (double)th, ax); r3d_rotate(p.get(), th, ax);
      L cs = cosl((L)th), sn = sinl((L)th); for (int v = 0; v < n; ++v) { V3 x = tov(b->verts[v].pos); e[v] = x; int i = (ax + 1) % 3, j = (ax + 2) % 3; e[v][i] = cs * x[i] - sn * x[j]; e[v][j] = sn * x[i] + cs * x[j]; un[v] = (L)EPS * R * 2; } newR = 2 * R; break; }
    case 3: { what = "shear"; r3d_real f = (r3d_real)(c.chance(1, 3) ? c.sym(4) : pbt::wide(c, c.uni(-3, 3))); int a = (int)c.raw(3), q = (a + 1 + (int)c.raw(2)) % 3; c.note("shear %.17g axb %d axs %d", (double)f, a, q); r3d_shear(p.get(), f, a, q); for (int v = 0; v < n; ++v) { V3 x = tov(b->verts[v].pos); e[v] = x; e[v][a] += (L)f * x[q]; un[v] = (L)EPS * R * (1 + fabsl((L)f)); } newR = R * (1 + fabs((double)f)); break; }
    default: {
      what = "affine"; bool persp = c.chance(1, 2); r3d_real M[4][4], M0[4][4]; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) M[i][j] = (r3d_real)(c.chance(1, 3) ? (i == j) : c.uni(-2, 2));
      for (int i = 0; i < 3; ++i) M[i][3] = (r3d_real)(c.uni(-2, 2) * R);
      if (!persp) { M[3][0] = M[3][1] = M[3][2] = 0; M[3][3] = 1; if (c.chance(1, 3)) M[3][3] = (r3d_real)c.uni(0.5, 2); }
      else { for (int j = 0; j < 3; ++j) M[3][j] = (r3d_real)(c.uni(-0.3, 0.3) / R); M[3][3] = (r3d_real)c.uni(1.2, 2); linear = false; }
      double wf = pbt::wfactor(c); for (int j = 0; j < 4; ++j) M[3][j] = (r3d_real)(M[3][j] * wf); if (wf < 0) c.label("negative w");
      memcpy(M0, M, sizeof M); for (int i = 0; i < 4; ++i) c.note("  [%.17g %.17g %.17g %.17g]", (double)M[i][0], (double)M[i][1], (double)M[i][2], (double)M[i][3]);
      r3d_affine(p.get(), M); CHECK(c, memcmp(M, M0, sizeof M) == 0, "r3d_affine changed the matrix");
      for (int v = 0; v < n; ++v) { V3 x = tov(b->verts[v].pos); L w = (L)M[3][0] * x[0] + (L)M[3][1] * x[1] + (L)M[3][2] * x[2] + M[3][3], mx = 0; for (int i = 0; i < 3; ++i) { e[v][i] = ((L)M[i][0] * x[0] + (L)M[i][1] * x[1] + (L)M[i][2] * x[2] + M[i][3]) / w; mx = std::max(mx, (fabsl(M[i][0] * x[0]) + fabsl(M[i][1] * x[1]) + fabsl(M[i][2] * x[2]) + fabsl((L)M[i][3])) / fabsl(w)); } un[v] = (L)EPS * (3 + 3 * 2 * fabs(wf) / fabsl(w)) * mx; }
      if (linear) { std::array<std::array<L, 3>, 3> A; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) A[i][j] = (L)M[i][j] / M[3][3]; det = ref::det<3>(A); newR = 20 * R / fabs(wf); }
    }
  }
  for (int v = 0; v < n; ++v) for (int k = 0; k < 3; ++k) if (e[v][k] != b->verts[v].pos.xyz[k]) moved = true;
  if (moved) c.nontrivial(); c.label(what);
  c08_cmp(c, what, p.get(), b.get(), e, un);
  if (linear) { r3d_real m0, m1; r3d_reduce(b.get(), &m0, 0); r3d_reduce(p.get(), &m1, 0); double rr = std::max((double)r, newR); CHECK(c, fabsl((L)m1 - det * m0) <= 2000 * EPS * rr * rr * rr * (1 + n / 40.0), "%s: volume %.17g, expected %.17Lg", what, (double)m1, det * m0); }
}
PROPERTY(c08_inverse, "C08/inverse", 6000, "always: every case applies a transformation and its inverse") {
  Opts o; o.cap = 200; o.scales = false; Spec s = gen(c, o); describe(c, s); Poly p = make(c, s), b = dup(p); double R, r; extent(s, R, r); double g = 1; c.nontrivial();
  switch (c.raw(4)) {
    case 0: { r3d_rvec3 t, u; for (int k = 0; k < 3; ++k) { t.xyz[k] = (r3d_real)(R * c.uni(-3, 3)); u.xyz[k] = -t.xyz[k]; } r3d_translate(p.get(), t); r3d_translate(p.get(), u); g = 4; c.note("translate"); break; }
    case 1: { double f = c.uni(0.2, 4); r3d_scale(p.get(), (r3d_real)f); r3d_scale(p.get(), (r3d_real)(1 / f)); g = 2; c.note("scale %g", f); break; }
    case 2: { double th = c.uni(-7, 7); int ax = (int)c.raw(3); r3d_rotate(p.get(), (r3d_real)th, ax); r3d_rotate(p.get(), (r3d_real)-th, ax); g = 4; c.note("rotate %g axis %d", th, ax); break; }
    default: { double f = c.uni(-3, 3); int a = (int)c.raw(3), q = (a + 1 + (int)c.raw(2)) % 3; r3d_shear(p.get(), (r3d_real)f, a, q); r3d_shear(p.get(), (r3d_real)-f, a, q); g = 5; c.note("shear %g %d %d", f, a, q); }
  }
  for (int v = 0; v < p->nverts; ++v) for (int k = 0; k < 3; ++k) CHECK(c, fabs((double)p->verts[v].pos.xyz[k] - (double)b->verts[v].pos.xyz[k]) <= 8 * g * EPS * R, "inverse does not restore vertex %d", v);
}

// ---- planes and signed volumes
static void plane_contains(Ctx& c, const char* what, const r3d_plane& f, const std::vector<V3>& vs, double R, double r, double cond) {
  L n2 = ref::dot(tov(f.n), tov(f.n)); CHECK(c, fabsl(n2 - 1) <= 32 * EPS, "%s: normal has length %.17Lg", what, sqrtl(n2));
  for (auto& v : vs) { L sd = ref::dot(tov(f.n), v) + f.d; c.measure(fmt("%s plane residual", what), (double)(fabsl(sd) / (EPS * (R + r * cond)))); CHECK(c, fabsl(sd) <= 32 * EPS * (R + r * cond), "%s: a vertex of the face is %.3Lg off its plane", what, sd); }
}
PROPERTY(c09_tet, "C09/tet-box-faces", 12000, "any nondegenerate tetrahedron or box") {
  bool tet = c.chance(2, 3); Opts o; o.inverted = false; o.transforms = tet; Spec s = basic(c, tet ? K_TET : K_BOX, R3D_MAX_VERTS); place(c, s, o); describe(c, s); double R, r; extent(s, R, r); c.nontrivial();
  std::vector<r3d_plane> f(6); int nf; pbt::poison(f.data(), 6 * sizeof(r3d_plane), c.raw(1000));
  double cond = 1;
  if (tet) {
    if (vol6(s.v[0], s.v[1], s.v[2], s.v[3]) < 0) std::swap(s.v[2], s.v[3]); s.f = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {0, 3, 2}};
    r3d_rvec3 v[4], v0[4]; for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) v[i].xyz[k] = v0[i].xyz[k] = (r3d_real)s.v[i].x[k];
    pbt::Exact<r3d_rvec3> xv(v, 4); r3d_tet_faces_from_verts(f.data(), xv); nf = 4; CHECK(c, memcmp(xv.p, v0, sizeof v) == 0, "input changed");
    double used = 0;
    for (int i = 0; i < 4; ++i) { // face i is opposite to some vertex: find which three vertices it contains; vertex i by documentation of use
      std::vector<V3> on; for (int j = 0; j < 4; ++j) if (j != i) on.push_back(tov(v[j]));
      L ar = ref::norm(ref::cross(on[1] - on[0], on[2] - on[0])); double cd = ar > 0 ? (double)((L)r * r / ar) : 1e18; used = std::max(used, cd);
      // the four planes may come in any order: match by residual
      int best = -1; L br = 1e4000L; for (int q = 0; q < 4; ++q) { L m = 0; for (auto& x : on) m = std::max(m, fabsl(ref::dot(tov(f[q].n), x) + f[q].d)); if (m < br) { br = m; best = q; } }
      plane_contains(c, "tet", f[best], on, R, r, cd);
      L h = ref::dot(tov(f[best].n), tov(v[i])) + f[best].d; L vol = fabsl(vol6(s.v[0], s.v[1], s.v[2], s.v[3]));
      if (vol / ar > 1e3 * EPS * (R + r * cd)) CHECK(c, h > 0, "tet: face opposite vertex %d does not point inward (distance %.3Lg)", i, h);
    }
    cond = used;
  } else {
    r3d_rvec3 v[2]; for (int k = 0; k < 3; ++k) { v[0].xyz[k] = (r3d_real)s.v[0].x[k]; v[1].xyz[k] = (r3d_real)s.v[7].x[k]; } pbt::Exact<r3d_rvec3> xv(v, 2); r3d_box_faces_from_verts(f.data(), xv); nf = 6; CHECK(c, xv.same(), "bounds changed");
    for (int i = 0; i < 6; ++i) { int zeros = 0, ones = 0, on = 0; for (int k = 0; k < 3; ++k) { if (f[i].n.xyz[k] == 0) ++zeros; if (fabs((double)f[i].n.xyz[k]) == 1) ++ones; } CHECK(c, zeros == 2 && ones == 1, "box: face %d is not axis-aligned", i);
      for (auto& q : s.v) { L sd = ref::dot(tov(f[i].n), tov(q)) + f[i].d; CHECK(c, sd >= 0, "box: corner outside face %d by %.3Lg", i, -sd); if (sd == 0) ++on; } CHECK(c, on == 4, "box: face %d contains %d corners", i, on); }
  }
  // clipping a larger body by the faces gives exactly that solid
  r3d_rvec3 bb[2]; for (int k = 0; k < 3; ++k) { double lo = 1e300, hi = -1e300; for (auto& q : s.v) { lo = std::min(lo, q.x[k]); hi = std::max(hi, q.x[k]); } bb[0].xyz[k] = (r3d_real)(lo - r * c.uni(0.01, 1)); bb[1].xyz[k] = (r3d_real)(hi + r * c.uni(0.01, 1)); }
  Poly p = newpoly(1); r3d_init_box(p.get(), bb); CHECK(c, r3d_clip(p.get(), f.data(), nf) == 1, "clip failed");
  const int order = 2; r3d_real m[10]; r3d_reduce(p.get(), m, order); auto e = ref::moments<3>(decomp(s), order);
  cmp_moments(c, tet ? "clip by tet faces" : "clip by box faces", m, e, order, [&](int k) { return EPS * 6 * (2 * R + 2 * r + r * cond) * r * r * powi(R + 2 * r, k); }, 60);
}
PROPERTY(c09_poly, "C09/poly-faces", 10000, "some face has more than three vertices or the body is away from the origin") {
  Opts o; o.inverted = false; Spec s = gen(c, o); describe(c, s); double R, r; extent(s, R, r); Lists l; lists(s, l); int nf = (int)l.nf.size(); std::vector<r3d_plane> f(nf + 1); pbt::poison(f.data(), f.size() * sizeof(r3d_plane), 9); r3d_plane can = f[nf];
  r3d_poly_faces_from_verts(f.data(), l.v.data(), (int)l.v.size(), l.fp.data(), l.nf.data(), nf); CHECK(c, memcmp(&can, &f[nf], sizeof can) == 0, "wrote past the faces");
  bool solid = s.convex && s.ncomp == 1; if (s.kind == "pyramid" || s.kind == "bipyramid") solid = false;
  for (int i = 0; i < nf; ++i) {
    std::vector<V3> vs; for (int k : s.f[i]) vs.push_back(tov(s.v[k])); int n = (int)vs.size(); if (n > 3) c.nontrivial();
    // skip nonconvex faces (their corner cross products need not add up to the face normal)
    V3 nn{{0, 0, 0}}; for (int k = 2; k < n; ++k) nn = nn + ref::cross(vs[k - 1] - vs[0], vs[k] - vs[0]); L area = ref::norm(nn); if (area == 0) continue; nn = (1 / area) * nn;
    bool cv = true; L csum = 0; for (int k = 0; k < n; ++k) { L t = ref::dot(nn, ref::cross(vs[(k + 1) % n] - vs[k], vs[(k + 2) % n] - vs[k])); csum += fabsl(t); if (t <= 0) cv = false; } if (!cv) { c.label("nonconvex face skipped"); continue; }
    L sz = 0; for (auto& x : vs) sz = std::max(sz, ref::norm(x - vs[0]));
    // csum is the length of the vector the library normalises: its rounding error is about EPS * sz * sz * n
    double cd = (double)((L)n * sz * (sz + (s.exactplanar ? 0 : R)) / csum);
    plane_contains(c, "poly", f[i], vs, R, (double)sz, cd);
    L al = ref::dot(tov(f[i].n), nn); if (cd * EPS < 1e-3) CHECK(c, al > 0.99L, "face %d: plane normal does not point outward (cos %.3Lg)", i, al);
    if (solid && cd * EPS < 1e-6) for (auto& q : s.v) { L sd = ref::dot(tov(f[i].n), tov(q)) + f[i].d; CHECK(c, sd <= 64 * EPS * (R + (double)sz * cd + r * cd), "convex body: vertex outside face %d by %.3Lg", i, sd); }
  }
  if (R > 3 * r) c.nontrivial();
  // clipping a larger box by the inverted planes of a convex body gives that body
  bool hullish = s.kind == "hull" || s.kind == "box" || s.kind == "tet" || s.kind == "prism";
  if (hullish && nf <= 30 && s.ncomp == 1) {
    double cmax = 0; for (int i = 0; i < nf; ++i) { std::vector<V3> vs; for (int k : s.f[i]) vs.push_back(tov(s.v[k])); L cs = 0; int n = (int)vs.size(); V3 t{{0, 0, 0}}; for (int k = 0; k < n; ++k) t = t + ref::cross(vs[(k + 1) % n] - vs[k], vs[(k + 2) % n] - vs[k]); cs = ref::norm(t); L sz = 0; for (auto& x : vs) sz = std::max(sz, ref::norm(x - vs[0])); cmax = std::max(cmax, (double)(n * sz * (sz + (s.exactplanar ? 0 : R)) / cs)); }
    std::vector<r3d_plane> g(f.begin(), f.begin() + nf); for (auto& q : g) { for (int k = 0; k < 3; ++k) q.n.xyz[k] = -q.n.xyz[k]; q.d = -q.d; }
    r3d_rvec3 bb[2]; for (int k = 0; k < 3; ++k) { double lo = 1e300, hi = -1e300; for (auto& q : s.v) { lo = std::min(lo, q.x[k]); hi = std::max(hi, q.x[k]); } bb[0].xyz[k] = (r3d_real)(lo - r * 0.3); bb[1].xyz[k] = (r3d_real)(hi + r * 0.4); }
    if (cmax * EPS < 1e-7) { Poly p = newpoly(1); r3d_init_box(p.get(), bb); CHECK(c, r3d_clip(p.get(), g.data(), nf) == 1, "clip failed"); r3d_real m[4]; r3d_reduce(p.get(), m, 1); auto e = ref::moments<3>(decomp(s), 1); c.label("clip-by-faces"); cmp_moments(c, "clip by poly faces", m, e, 1, [&](int k) { return EPS * (nf + 2) * (2 * R + 2 * r + r * cmax) * r * r * powi(R + r, k); }, 60); }
  }
}
// faces with vertices in the middle of a straight edge: exactly planar because their coordinates are small integers
PROPERTY(c09_collinear, "C09/straight-corners", 6000, "some corner of the face is straight") {
  static const int B[][2] = {{0, 0}, {4, 0}, {6, 2}, {6, 5}, {4, 6}, {1, 6}, {-1, 4}, {-1, 2}}; int off[3], U[3], W[3]; for (int k = 0; k < 3; ++k) { off[k] = c.chance(1, 3) ? c.sym(1000) : c.sym(3); U[k] = c.sym(3); W[k] = c.sym(3); }
  V3 nn{{(L)U[1] * W[2] - (L)U[2] * W[1], (L)U[2] * W[0] - (L)U[0] * W[2], (L)U[0] * W[1] - (L)U[1] * W[0]}}; L nl = ref::norm(nn); if (nl == 0) throw pbt::Discard(); nn = (1 / nl) * nn;
  double sc = ldexp(1, c.chance(1, 4) ? c.sym(sizeof(r3d_real) == 4 ? 8 : 40) : 0); int nf = c.range(1, 3); std::vector<r3d_rvec3> vs; std::vector<std::vector<r3d_int>> fs;
  for (int f = 0; f < nf; ++f) {
    std::vector<std::array<int, 2>> ring; int keep = 0; for (int i = 0; i < 8; ++i) if (c.chance(2, 3)) { ring.push_back({B[i][0] * 12, B[i][1] * 12}); ++keep; } if (ring.size() < 3) { ring.clear(); for (int i : {0, 3, 5}) ring.push_back({B[i][0] * 12, B[i][1] * 12}); }
    std::vector<std::array<int, 2>> full; int n = (int)ring.size(); bool straight = false; for (int i = 0; i < n; ++i) { full.push_back(ring[i]); int k = c.chance(1, 2) ? c.range(1, 3) : 0; auto& e = ring[(i + 1) % n]; for (int j = 1; j <= k; ++j) { full.push_back({ring[i][0] + (e[0] - ring[i][0]) * j / (k + 1), ring[i][1] + (e[1] - ring[i][1]) * j / (k + 1)}); straight = true; } }
    if (straight) c.nontrivial(); std::rotate(full.begin(), full.begin() + c.raw(full.size()), full.end()); fs.emplace_back();
    for (auto& q : full) { r3d_rvec3 x; for (int k = 0; k < 3; ++k) x.xyz[k] = (r3d_real)(sc * (off[k] + U[k] * q[0] + W[k] * q[1])); fs.back().push_back((r3d_int)vs.size()); vs.push_back(x); c.note("face %d: (%.17g, %.17g, %.17g)", f, (double)x.x, (double)x.y, (double)x.z); }
  }
  std::vector<r3d_int*> fp; std::vector<r3d_int> nv; for (auto& f : fs) { fp.push_back(f.data()); nv.push_back((r3d_int)f.size()); } std::vector<r3d_plane> pl(nf); pbt::poison(pl.data(), nf * sizeof(r3d_plane), 5);
  r3d_poly_faces_from_verts(pl.data(), vs.data(), (int)vs.size(), fp.data(), nv.data(), nf); double R = 0; for (auto& x : vs) for (int k = 0; k < 3; ++k) R = std::max(R, fabs((double)x.xyz[k]));
  for (int f = 0; f < nf; ++f) { std::vector<V3> x; L sz = 0; for (int i : fs[f]) { x.push_back(tov(vs[i])); sz = std::max(sz, ref::norm(x.back() - x[0])); } int n = (int)x.size(); L cs = 0; for (int k = 0; k < n; ++k) cs += ref::dot(nn, ref::cross(x[(k + 1) % n] - x[k], x[(k + 2) % n] - x[k])); double cd = (double)(n * sz * sz / cs);
    plane_contains(c, "face", pl[f], x, R, (double)sz, cd); CHECK(c, ref::dot(tov(pl[f].n), nn) > 0.999999L, "face %d: plane normal does not point outward", f); }
}
PROPERTY(c09_orient, "C09/orient", 20000, "the four points are not coplanar") {
  P3 p[4]; bool lat = c.chance(1, 2); double sc = c.chance(1, 6) ? ldexp(1, c.sym(sizeof(r3d_real) == 4 ? 10 : 80)) : 1, off[3]; for (double& x : off) x = c.chance(1, 4) ? c.uni(-1e5, 1e5) : 0;
  for (auto& q : p) for (int k = 0; k < 3; ++k) q.x[k] = rnd(sc * ((lat ? c.sym(6) : c.uni(-1, 1)) + off[k]));
  for (auto& q : p) c.note("(%.17g, %.17g, %.17g)", q.x[0], q.x[1], q.x[2]);
  auto call = [&](const int* o) { r3d_rvec3 v[4], w[4]; for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) v[i].xyz[k] = w[i].xyz[k] = (r3d_real)p[o[i]].x[k]; pbt::Exact<r3d_rvec3> xv(v, 4); r3d_real r = r3d_orient(xv); CHECK(c, memcmp(xv.p, w, sizeof v) == 0, "input changed"); return r; };
  double r = 0, R = 0; for (auto& q : p) for (int k = 0; k < 3; ++k) { R = std::max(R, fabs(q.x[k])); r = std::max(r, fabs(q.x[k] - p[0].x[k])); }
  L e = vol6(p[0], p[1], p[2], p[3]) / 6; int id[4] = {0, 1, 2, 3}; r3d_real v = call(id); double tol = 16 * EPS * 8 * r * r * r;
  if (r > 0) c.measure("orient err/(eps r^3)", (double)fabsl(e - v) / (EPS * r * r * r));
  CHECK(c, fabsl(e - v) <= tol, "signed volume %.17g, exact %.17Lg", (double)v, e);
  if (fabsl(e) > tol) { c.nontrivial(); CHECK(c, (v > 0) == (e > 0), "wrong sign");
    Poly q = newpoly(2); r3d_rvec3 w[4]; for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) w[i].xyz[k] = (r3d_real)p[i].x[k]; r3d_init_tet(q.get(), w); r3d_real m; r3d_reduce(q.get(), &m, 0); CHECK(c, fabs((double)m - (double)v) <= 4 * tol && (m > 0) == (v > 0), "signed volume %.17g but the initialised tetrahedron has volume %.17g", (double)v, (double)m); }
  int pr[4] = {0, 1, 2, 3}; int sg = 1; for (int i = 3; i > 0; --i) { int j = (int)c.raw(i + 1); if (i != j) { std::swap(pr[i], pr[j]); sg = -sg; } }
  r3d_real vp = call(pr); CHECK(c, fabs((double)vp - sg * (double)v) <= 2 * tol, "permutation of parity %d: %.17g vs %.17g", sg, (double)vp, (double)v);
}
