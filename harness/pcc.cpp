// Every public operation as a closure: the same call must give the same bytes whatever happened before,
// whatever garbage lies around, wherever the data is (C26), and whatever other threads do (C27).
#include "gen3.hpp"
#include "v3d.h"
#include "gen2.hpp"
#include "gen4.hpp"
#include <thread>
#include <atomic>
#include <mutex>
using pbt::Ctx; using pbt::fmt;
namespace {
struct Env { uint64_t pat; bool shared; bool dirty; };
struct Out { std::vector<uint8_t> b; template <class T> void put(const T& x) { const uint8_t* p = (const uint8_t*)&x; b.insert(b.end(), p, p + sizeof x); } template <class T> void arr(const T* p, size_t n) { for (size_t i = 0; i < n; ++i) put(p[i]); } };
struct Op { std::string name; std::function<Out(const Env&)> run; bool prints = false; };
__attribute__((noinline)) void deep(uint64_t pat) {
#if !defined(__SANITIZE_THREAD__)
  volatile uint64_t buf[300000]; for (int i = 0; i < 300000; i += 1) buf[i] = pat * (2 * i + 1) + (pat << 13);
#else
  (void)pat;
#endif
}
void before(const Env& e) { if (e.dirty) { if (e.pat % 4 == 0) deep(e.pat); else pbt::dirty_stack(e.pat); } }
// a copy of an input array at a varying address, with garbage after it, or the shared original
template <class T> struct In {
  std::vector<unsigned char> mem; T* p; const T* orig; size_t n; bool shared;
  In(const Env& e, const T* o, size_t cnt) : orig(o), n(cnt), shared(e.shared) { if (shared) { p = const_cast<T*>(o); return; } size_t off = 8 * (e.pat % 37); mem.resize(off + (n + 2) * sizeof(T) + 64); pbt::poison(mem.data(), mem.size(), e.pat); p = (T*)(mem.data() + off); memcpy(p, o, n * sizeof(T)); }
  void check(const char* what) { if (!shared && memcmp(p, orig, n * sizeof(T))) throw pbt::Fail{fmt("%s was modified", what)}; }
};
template <class P> struct Dir;
template <> struct Dir<r3d_poly> { static void put(Out& o, const r3d_poly* p) { o.put(p->nverts); for (int v = 0; v < p->nverts; ++v) { o.arr(p->verts[v].pnbrs, 3); o.arr(p->verts[v].pos.xyz, 3); } } };
template <> struct Dir<r2d_poly> { static void put(Out& o, const r2d_poly* p) { o.put(p->nverts); for (int v = 0; v < p->nverts; ++v) { o.arr(p->verts[v].pnbrs, 2); o.arr(p->verts[v].pos.xy, 2); } } };
template <> struct Dir<rNd_poly> { static void put(Out& o, const rNd_poly* p) { o.put(p->nverts); if (p->nverts) o.put(p->nfaces); for (int v = 0; v < p->nverts; ++v) { o.arr(p->verts[v].pnbrs, 4); o.arr(p->verts[v].pos.xyz, 4); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (i != j) o.put(p->verts[v].finds[i][j]); } } };
// a copy of a polyhedron with garbage beyond its vertices, at a varying address
template <class P> struct Cp {
  std::vector<unsigned char> mem; P* p; Out before;
  Cp(const Env& e, const P* a, size_t cnt = 1) { size_t off = 8 * (e.pat % 29); mem.resize(off + cnt * sizeof(P)); pbt::stale(mem.data(), mem.size(), e.pat); p = (P*)(mem.data() + off); if (!a) return; for (size_t i = 0; i < cnt; ++i) { copy(p + i, a + i); Dir<P>::put(before, p + i); } }
  static void copy(P* d, const P* s) { if (s->nverts > 0) memcpy(d->verts, s->verts, s->nverts * sizeof s->verts[0]); d->nverts = s->nverts; faces(d, s); }
  static void faces(rNd_poly* d, const rNd_poly* s) { d->nfaces = s->nfaces; }
  template <class Q> static void faces(Q*, const Q*) {}
  void check(const char* what) { Out o; Dir<P>::put(o, p); if (o.b != before.b) throw pbt::Fail{fmt("%s modified the polyhedron", what)}; }
};
template <class T> struct Outv { // an output array full of garbage, with guards
  std::vector<T> v; size_t n; std::vector<T> g; Outv(const Env& e, size_t cnt) : v(cnt + 8), n(cnt) { pbt::poison(v.data(), v.size() * sizeof(T), e.pat + 5); g = v; } T* p() { return v.data() + 4; }
  void check(const char* w) { if (memcmp(v.data(), g.data(), 4 * sizeof(T)) || memcmp(v.data() + n + 4, g.data() + n + 4, 4 * sizeof(T))) throw pbt::Fail{fmt("%s wrote outside its output", w)}; }
};
template <class P> std::shared_ptr<P> keep(const P* a) { std::shared_ptr<P> s((P*)malloc(sizeof(P)), free); memset((void*)s.get(), 0x33, sizeof(P)); Cp<P>::copy(s.get(), a); return s; }

Op op3(Ctx& c, int force = -1) {
  using namespace g3; Opts o; o.cap = 40; Spec s = gen(c, o); Poly p0 = make(c, s); bool none = c.chance(1, 12); auto P = keep(p0.get()); if (none) { P->nverts = 0; c.label("empty polyhedron"); } double R, r; extent(s, R, r); auto L_ = std::make_shared<Lists>(); lists(s, *L_); auto F0 = std::make_shared<std::vector<std::vector<r3d_int>>>(L_->f); std::vector<r3d_plane> ps; auto pts = positions(p0.get()); int np = c.range(1, 4); for (int i = 0; i < np; ++i) { std::string k; ps.push_back(genplane(c, pts, R, r, ps, &k)); }
  auto rv = std::make_shared<std::vector<r3d_rvec3>>(); for (int i = 0; i < 4; ++i) { r3d_rvec3 v; for (int k = 0; k < 3; ++k) v.xyz[k] = (r3d_real)c.uni(-2, 2); rv->push_back(v); } auto PS = std::make_shared<std::vector<r3d_plane>>(ps); r3d_real f = (r3d_real)c.uni(-2, 2); int ax = (int)c.raw(3), ax2 = (ax + 1 + (int)c.raw(2)) % 3, order = (int)c.raw(c.chance(1, 6) ? 7 : 4);
  auto M = std::make_shared<std::array<std::array<r3d_real, 4>, 4>>(); for (auto& q : *M) for (auto& x : q) x = (r3d_real)c.uni(-1, 1); (*M)[3] = {0, 0, 0, 1};
  double lo[3], hi[3]; for (int k = 0; k < 3; ++k) { lo[k] = 1e300; hi[k] = -1e300; for (auto& q : pts) { lo[k] = std::min(lo[k], q.x[k]); hi[k] = std::max(hi[k], q.x[k]); } } r3d_rvec3 d; for (int k = 0; k < 3; ++k) d.xyz[k] = (r3d_real)(std::max(hi[k] - lo[k], 1e-3 * R + 1e-300) / (c.range(1, 4) - 0.3)); bool big = false; for (int k = 0; k < 3; ++k) if (std::max(fabs(lo[k]), fabs(hi[k])) / d.xyz[k] > 1e8) big = true;
  Op q; if (force >= 0 && (big || none)) throw pbt::Discard(); int kind = force >= 0 ? force : (int)c.raw(big || none ? 17 : 20); bool solid = s.f.size() >= 4;
  (void)solid;
  switch (kind) {
    case 0: q.name = "r3d_clip"; q.run = [=](const Env& e) { Cp<r3d_poly> w(e, P.get()); In<r3d_plane> a(e, PS->data(), PS->size()); before(e); int rc = r3d_clip(w.p, a.p, (int)PS->size()); a.check("the plane list of r3d_clip"); Out o; o.put(rc); Dir<r3d_poly>::put(o, w.p); return o; }; break;
    case 1: { int n = c.range(1, 3); std::vector<r3d_poly> tmp(n); for (int i = 0; i < n; ++i) { Spec t = gen(c, o); Poly z = make(c, t); Cp<r3d_poly>::copy(&tmp[i], z.get()); if (c.chance(1, 8)) tmp[i].nverts = 0; } auto T = std::make_shared<std::vector<r3d_poly>>(std::move(tmp)); r3d_plane h = ps[0]; q.name = "r3d_split"; q.run = [=](const Env& e) { Cp<r3d_poly> w(e, T->data(), n), a(Env{e.pat + 1, false, false}, nullptr, n), b(Env{e.pat + 2, false, false}, nullptr, n); before(e); int rc = r3d_split(w.p, n, h, a.p, b.p); Out o; o.put(rc); for (int i = 0; i < n; ++i) { Dir<r3d_poly>::put(o, a.p + i); Dir<r3d_poly>::put(o, b.p + i); } return o; }; break; }
    case 2: case 3: case 4: q.name = fmt("r3d_reduce"); q.run = [=](const Env& e) { Cp<r3d_poly> w(e, P.get()); Outv<r3d_real> m(e, R3D_NUM_MOMENTS(order)); before(e); r3d_reduce(w.p, m.p(), order); w.check("r3d_reduce"); m.check("r3d_reduce"); Out o; o.arr(m.p(), m.n); return o; }; break;
    case 5: q.name = "r3d_is_good"; q.run = [=](const Env& e) { Cp<r3d_poly> w(e, P.get()); before(e); int rc = r3d_is_good(w.p); w.check("r3d_is_good"); Out o; o.put(rc); return o; }; break;
    case 6: q.name = "r3d_orient"; q.run = [=](const Env& e) { In<r3d_rvec3> a(e, rv->data(), 4); before(e); r3d_real x = r3d_orient(a.p); a.check("the points of r3d_orient"); Out o; o.put(x); return o; }; break;
    case 7: { int w_ = (int)c.raw(5); q.name = fmt("r3d transform %d", w_); q.run = [=](const Env& e) { Cp<r3d_poly> w(e, P.get()); auto m = *M; before(e); switch (w_) { case 0: r3d_rotate(w.p, f, ax); break; case 1: r3d_translate(w.p, (*rv)[0]); break; case 2: r3d_scale(w.p, f); break; case 3: r3d_shear(w.p, f, ax, ax2); break; default: { r3d_real A[4][4]; memcpy(A, m.data(), sizeof A); r3d_affine(w.p, A); if (memcmp(A, m.data(), sizeof A)) throw pbt::Fail{"r3d_affine modified its matrix"}; } } Out o; Dir<r3d_poly>::put(o, w.p); return o; }; break; }
    case 8: q.name = "r3d_init_tet"; q.run = [=](const Env& e) { Cp<r3d_poly> w(e, nullptr); In<r3d_rvec3> a(e, rv->data(), 4); before(e); r3d_init_tet(w.p, a.p); a.check("the vertices of r3d_init_tet"); Out o; Dir<r3d_poly>::put(o, w.p); return o; }; break;
    case 9: q.name = "r3d_init_box"; q.run = [=](const Env& e) { Cp<r3d_poly> w(e, nullptr); In<r3d_rvec3> a(e, rv->data(), 2); before(e); r3d_init_box(w.p, a.p); a.check("the bounds of r3d_init_box"); Out o; Dir<r3d_poly>::put(o, w.p); return o; }; break;
    case 10: case 11: q.name = "r3d_init_poly"; q.run = [=](const Env& e) { Cp<r3d_poly> w(e, nullptr); In<r3d_rvec3> a(e, L_->v.data(), L_->v.size()); In<r3d_int> n(e, L_->nf.data(), L_->nf.size()); In<r3d_int*> fl(e, L_->fp.data(), L_->fp.size()); before(e); int rc = r3d_init_poly(w.p, a.p, (int)L_->v.size(), fl.p, n.p, (int)L_->nf.size()); a.check("the vertices of r3d_init_poly"); n.check("the face sizes of r3d_init_poly"); fl.check("the face lists"); if (!e.shared && L_->f != *F0) throw pbt::Fail{"the face indices were modified"}; Out o; o.put(rc); Dir<r3d_poly>::put(o, w.p); return o; }; break;
    case 12: q.name = "r3d_tet_faces_from_verts"; q.run = [=](const Env& e) { Outv<r3d_plane> m(e, 4); In<r3d_rvec3> a(e, rv->data(), 4); before(e); r3d_tet_faces_from_verts(m.p(), a.p); a.check("the vertices"); m.check("r3d_tet_faces_from_verts"); Out o; o.arr(m.p(), 4); return o; }; break;
    case 13: q.name = "r3d_box_faces_from_verts"; q.run = [=](const Env& e) { Outv<r3d_plane> m(e, 6); In<r3d_rvec3> a(e, rv->data(), 2); before(e); r3d_box_faces_from_verts(m.p(), a.p); a.check("the bounds"); m.check("r3d_box_faces_from_verts"); Out o; o.arr(m.p(), 6); return o; }; break;
    case 14: q.name = "r3d_poly_faces_from_verts"; q.run = [=](const Env& e) { size_t nf = L_->nf.size(); Outv<r3d_plane> m(e, nf); In<r3d_rvec3> a(e, L_->v.data(), L_->v.size()); In<r3d_int> n(e, L_->nf.data(), nf); In<r3d_int*> fl(e, L_->fp.data(), L_->fp.size()); before(e); r3d_poly_faces_from_verts(m.p(), a.p, (int)L_->v.size(), fl.p, n.p, (int)nf); a.check("the vertices"); n.check("the face sizes"); fl.check("the face lists"); if (!e.shared && L_->f != *F0) throw pbt::Fail{"the face indices were modified"}; m.check("r3d_poly_faces_from_verts"); Out o; o.arr(m.p(), nf); return o; }; break;
    case 15: q.name = "r3d_init_brep"; q.run = [=](const Env& e) { Cp<r3d_poly> w(e, P.get()); r3d_brep* b = (r3d_brep*)(uintptr_t)e.pat; int nc = (int)e.pat; before(e); r3d_init_brep(w.p, &b, &nc); w.check("r3d_init_brep"); Out o; o.put(nc); for (int i = 0; i < nc; ++i) { o.put(b[i].numvertices); o.put(b[i].numfaces); for (int v = 0; v < b[i].numvertices; ++v) o.arr(b[i].vertices[v].xyz, 3); for (int k = 0; k < b[i].numfaces; ++k) { o.put(b[i].numvertsperface[k]); o.arr(b[i].faceinds[k], b[i].numvertsperface[k]); } } r3d_free_brep(&b, nc); return o; }; break;
    case 16: { int w_ = none ? 0 : (int)c.raw(2); q.name = w_ ? "r3d_poly_center" : "r3d_shift_moments"; auto mm = std::make_shared<std::vector<r3d_real>>(); for (int i = 0; i < R3D_NUM_MOMENTS(order); ++i) mm->push_back((r3d_real)c.uni(-1, 1)); q.run = [=](const Env& e) { Out o; if (w_) { Cp<r3d_poly> w(e, P.get()); before(e); auto x = r3d_poly_center(w.p); w.check("r3d_poly_center"); o.arr(x.xyz, 3); } else { auto m = *mm; before(e); r3d_shift_moments(m.data(), order, (*rv)[0]); o.arr(m.data(), m.size()); } return o; }; break; }
    case 17: case 18: q.name = "r3d_voxelize"; q.run = [=](const Env& e) { Cp<r3d_poly> w(e, P.get()); r3d_dvec3 ib[2], k[2]; r3d_get_ibox(w.p, ib, d); memcpy(k, ib, sizeof ib); size_t n = R3D_NUM_MOMENTS(order % 4); for (int a = 0; a < 3; ++a) n *= std::max(0, ib[1].ijk[a] - ib[0].ijk[a]); Out o; if (n > 20000) return o; Outv<r3d_real> g(e, n); std::fill(g.p(), g.p() + n, (r3d_real)0.25); before(e); r3d_voxelize(w.p, ib, g.p(), d, order % 4); w.check("r3d_voxelize"); g.check("r3d_voxelize"); if (memcmp(ib, k, sizeof ib)) throw pbt::Fail{"r3d_voxelize modified its index box"}; o.arr(g.p(), n); return o; }; break;
    default: { q.name = "r3d_get_ibox/r3d_clamp_ibox"; r3d_dvec3 sh[2]; for (int k = 0; k < 3; ++k) { sh[0].ijk[k] = (int)c.raw(3) - 1; sh[1].ijk[k] = (int)c.raw(3) - 1; } r3d_dvec3 s0 = sh[0], s1 = sh[1]; q.run = [=](const Env& e) { Cp<r3d_poly> w(e, P.get()); r3d_dvec3 ib[2], cb[2], k[2]; pbt::poison(ib, sizeof ib, e.pat); before(e); r3d_get_ibox(w.p, ib, d); w.check("r3d_get_ibox"); Out o; o.arr(ib[0].ijk, 3); o.arr(ib[1].ijk, 3); for (int a = 0; a < 3; ++a) { cb[0].ijk[a] = ib[0].ijk[a] + s0.ijk[a]; cb[1].ijk[a] = ib[1].ijk[a] + s1.ijk[a]; } memcpy(k, cb, sizeof cb); before(e); r3d_clamp_ibox(w.p, ib, cb, d); if (memcmp(k, cb, sizeof cb)) throw pbt::Fail{"r3d_clamp_ibox modified the clamp range"}; o.arr(ib[0].ijk, 3); o.arr(ib[1].ijk, 3); Dir<r3d_poly>::put(o, w.p); return o; }; }
  }
  return q;
}
Op op2(Ctx& c, int force = -1) {
  using namespace g2; Opts o; o.cap = 30; Spec s = gen(c, o); Poly p0 = make(c, s, c.chance(1, 3)); auto P = keep(p0.get()); bool none = c.chance(1, 12); if (none) { P->nverts = 0; c.label("empty polygon"); } auto pts = s.pts(); double R, r; extent(pts, R, r); std::vector<r2d_plane> ps; int np = c.range(1, 4); for (int i = 0; i < np; ++i) { std::string k; ps.push_back(genline(c, pts, R, r, ps, &k)); } auto PS = std::make_shared<std::vector<r2d_plane>>(ps);
  auto rv = std::make_shared<std::vector<r2d_rvec2>>(); for (auto& x : s.l[0]) { r2d_rvec2 t; t.x = (r2d_real)x.x[0]; t.y = (r2d_real)x.x[1]; rv->push_back(t); } r2d_real f = (r2d_real)c.uni(-2, 2); int ax = (int)c.raw(2), order = (int)c.raw(c.chance(1, 6) ? 8 : 4); auto M = std::make_shared<std::array<std::array<r2d_real, 3>, 3>>(); for (auto& q : *M) for (auto& x : q) x = (r2d_real)c.uni(-1, 1); (*M)[2] = {0, 0, 1};
  r2d_rvec2 d; bool big = false; for (int k = 0; k < 2; ++k) { double lo = 1e300, hi = -1e300; for (auto& q : pts) { lo = std::min(lo, q.x[k]); hi = std::max(hi, q.x[k]); } d.xy[k] = (r2d_real)(std::max(hi - lo, 1e-3 * R + 1e-300) / (c.range(1, 6) - 0.3)); if (std::max(fabs(lo), fabs(hi)) / d.xy[k] > 1e8) big = true; }
  Op q; if (force >= 0 && (big || none)) throw pbt::Discard(); switch (force >= 0 ? force : (int)c.raw(big || none ? 12 : 15)) {
    case 0: q.name = "r2d_clip"; q.run = [=](const Env& e) { Cp<r2d_poly> w(e, P.get()); In<r2d_plane> a(e, PS->data(), PS->size()); before(e); r2d_clip(w.p, a.p, (int)PS->size()); a.check("the lines of r2d_clip"); Out o; Dir<r2d_poly>::put(o, w.p); return o; }; break;
    case 1: { int n = c.range(1, 3); std::vector<r2d_poly> tmp(n); for (int i = 0; i < n; ++i) { Spec t = gen(c, o); Poly z = make(c, t); Cp<r2d_poly>::copy(&tmp[i], z.get()); if (c.chance(1, 8)) tmp[i].nverts = 0; } auto T = std::make_shared<std::vector<r2d_poly>>(std::move(tmp)); r2d_plane h = ps[0]; q.name = "r2d_split"; q.run = [=](const Env& e) { Cp<r2d_poly> w(e, T->data(), n), a(Env{e.pat + 1, false, false}, nullptr, n), b(Env{e.pat + 2, false, false}, nullptr, n); before(e); r2d_split(w.p, n, h, a.p, b.p); Out o; for (int i = 0; i < n; ++i) { Dir<r2d_poly>::put(o, a.p + i); Dir<r2d_poly>::put(o, b.p + i); } return o; }; break; }
    case 2: case 3: q.name = "r2d_reduce"; q.run = [=](const Env& e) { Cp<r2d_poly> w(e, P.get()); Outv<r2d_real> m(e, R2D_NUM_MOMENTS(order)); before(e); r2d_reduce(w.p, m.p(), order); w.check("r2d_reduce"); m.check("r2d_reduce"); Out o; o.arr(m.p(), m.n); return o; }; break;
    case 4: q.name = "r2d_is_good"; q.run = [=](const Env& e) { Cp<r2d_poly> w(e, P.get()); before(e); int rc = r2d_is_good(w.p); w.check("r2d_is_good"); Out o; o.put(rc); return o; }; break;
    case 5: q.name = "r2d_orient"; q.run = [=](const Env& e) { before(e); r2d_real x = r2d_orient((*rv)[0], (*rv)[1], (*rv)[2]); Out o; o.put(x); return o; }; break;
    case 6: { int w_ = (int)c.raw(5); q.name = fmt("r2d transform %d", w_); q.run = [=](const Env& e) { Cp<r2d_poly> w(e, P.get()); before(e); switch (w_) { case 0: r2d_rotate(w.p, f); break; case 1: r2d_translate(w.p, (*rv)[0]); break; case 2: r2d_scale(w.p, f); break; case 3: r2d_shear(w.p, f, ax, 1 - ax); break; default: { r2d_real A[3][3]; memcpy(A, M->data(), sizeof A); r2d_affine(w.p, A); if (memcmp(A, M->data(), sizeof A)) throw pbt::Fail{"r2d_affine modified its matrix"}; } } Out o; Dir<r2d_poly>::put(o, w.p); return o; }; break; }
    case 7: q.name = "r2d_init_box"; q.run = [=](const Env& e) { Cp<r2d_poly> w(e, nullptr); In<r2d_rvec2> a(e, rv->data(), 2); before(e); r2d_init_box(w.p, a.p); a.check("the bounds"); Out o; Dir<r2d_poly>::put(o, w.p); return o; }; break;
    case 8: q.name = "r2d_init_poly"; q.run = [=](const Env& e) { Cp<r2d_poly> w(e, nullptr); In<r2d_rvec2> a(e, rv->data(), rv->size()); before(e); r2d_init_poly(w.p, a.p, (int)rv->size()); a.check("the vertices of r2d_init_poly"); Out o; Dir<r2d_poly>::put(o, w.p); return o; }; break;
    case 9: q.name = "r2d_box_faces_from_verts"; q.run = [=](const Env& e) { Outv<r2d_plane> m(e, 4); In<r2d_rvec2> a(e, rv->data(), 2); before(e); r2d_box_faces_from_verts(m.p(), a.p); a.check("the bounds"); m.check("r2d_box_faces_from_verts"); Out o; o.arr(m.p(), 4); return o; }; break;
    case 10: q.name = "r2d_poly_faces_from_verts"; q.run = [=](const Env& e) { Outv<r2d_plane> m(e, rv->size()); In<r2d_rvec2> a(e, rv->data(), rv->size()); before(e); r2d_poly_faces_from_verts(m.p(), a.p, (int)rv->size()); a.check("the vertices"); m.check("r2d_poly_faces_from_verts"); Out o; o.arr(m.p(), rv->size()); return o; }; break;
    case 11: { int w_ = none ? 0 : (int)c.raw(2); q.name = w_ ? "r2d_poly_center" : "r2d_shift_moments"; auto mm = std::make_shared<std::vector<r2d_real>>(); for (int i = 0; i < R2D_NUM_MOMENTS(order); ++i) mm->push_back((r2d_real)c.uni(-1, 1)); q.run = [=](const Env& e) { Out o; if (w_) { Cp<r2d_poly> w(e, P.get()); before(e); auto x = r2d_poly_center(w.p); w.check("r2d_poly_center"); o.arr(x.xy, 2); } else { auto m = *mm; before(e); r2d_shift_moments(m.data(), order, (*rv)[0]); o.arr(m.data(), m.size()); } return o; }; break; }
    case 12: case 13: q.name = "r2d_rasterize"; q.run = [=](const Env& e) { Cp<r2d_poly> w(e, P.get()); r2d_dvec2 ib[2], k[2]; r2d_get_ibox(w.p, ib, d); memcpy(k, ib, sizeof ib); size_t n = R2D_NUM_MOMENTS(order % 4); for (int a = 0; a < 2; ++a) n *= std::max(0, ib[1].ij[a] - ib[0].ij[a]); Out o; if (n > 20000) return o; Outv<r2d_real> g(e, n); std::fill(g.p(), g.p() + n, (r2d_real)0.25); before(e); r2d_rasterize(w.p, ib, g.p(), d, order % 4); w.check("r2d_rasterize"); g.check("r2d_rasterize"); if (memcmp(ib, k, sizeof ib)) throw pbt::Fail{"r2d_rasterize modified its index box"}; o.arr(g.p(), n); return o; }; break;
    default: { q.name = "r2d_get_ibox/r2d_clamp_ibox"; int s0[2], s1[2]; for (int k = 0; k < 2; ++k) { s0[k] = (int)c.raw(3) - 1; s1[k] = (int)c.raw(3) - 1; } std::array<int, 4> sh{s0[0], s0[1], s1[0], s1[1]}; q.run = [=](const Env& e) { Cp<r2d_poly> w(e, P.get()); r2d_dvec2 ib[2], cb[2], k[2]; pbt::poison(ib, sizeof ib, e.pat); before(e); r2d_get_ibox(w.p, ib, d); w.check("r2d_get_ibox"); Out o; o.arr(ib[0].ij, 2); o.arr(ib[1].ij, 2); for (int a = 0; a < 2; ++a) { cb[0].ij[a] = ib[0].ij[a] + sh[a]; cb[1].ij[a] = ib[1].ij[a] + sh[2 + a]; } memcpy(k, cb, sizeof cb); before(e); r2d_clamp_ibox(w.p, ib, cb, d); if (memcmp(k, cb, sizeof cb)) throw pbt::Fail{"r2d_clamp_ibox modified the clamp range"}; o.arr(ib[0].ij, 2); o.arr(ib[1].ij, 2); Dir<r2d_poly>::put(o, w.p); return o; }; }
  }
  return q;
}
Op op4(Ctx& c, int force = -1) {
  using namespace g4; Body b = gen(c); Poly p0 = make(c, b); auto PS = std::make_shared<std::vector<rNd_plane>>(); int np = c.range(1, 3); V4 m{{0, 0, 0, 0}}; for (auto& x : b.pts) m = m + (1.0L / b.pts.size()) * x; for (int i = 0; i < np; ++i) { V4 n = g4::rdir(c); PS->push_back(mkplane(n, -ref::dot(n, m) + (L)(c.uni(-0.05, 0.2) * b.r))); }
  if (c.chance(1, 2)) { V4 n = g4::rdir(c); rNd_plane t = mkplane(n, -ref::dot(n, m) + (L)(c.uni(0.05, 0.3) * b.r)); rNd_clip(p0.get(), &t, 1); } auto P = keep(p0.get()); if (c.chance(1, 12)) { P->nverts = 0; c.label("empty polytope"); } auto B = std::make_shared<Body>(b); rNd_real f = (rNd_real)c.uni(-2, 2); int ax = (int)c.raw(4), ax2 = (ax + 1 + (int)c.raw(3)) % 4; auto M = std::make_shared<std::array<std::array<rNd_real, 5>, 5>>(); for (auto& q : *M) for (auto& x : q) x = (rNd_real)c.uni(-1, 1); (*M)[4] = {0, 0, 0, 0, 1}; rNd_rvec d; for (int k = 0; k < 4; ++k) { double lo = 1e300, hi = -1e300; for (auto& x : b.pts) { lo = std::min(lo, (double)x[k]); hi = std::max(hi, (double)x[k]); } d.xyz[k] = (rNd_real)((hi - lo) / (c.range(1, 2) - 0.31)); }
  Op q; switch (force >= 0 ? force : (int)c.raw(9)) {
    case 0: q.name = "rNd_clip"; q.run = [=](const Env& e) { Cp<rNd_poly> w(e, P.get()); In<rNd_plane> a(e, PS->data(), PS->size()); before(e); rNd_clip(w.p, a.p, (int)PS->size()); a.check("the planes of rNd_clip"); Out o; Dir<rNd_poly>::put(o, w.p); return o; }; break;
    case 1: q.name = "rNd_reduce"; q.run = [=](const Env& e) { Cp<rNd_poly> w(e, P.get()); Outv<rNd_real> m(e, 1); before(e); rNd_reduce(w.p, m.p(), 0); w.check("rNd_reduce"); m.check("rNd_reduce"); Out o; o.put(m.p()[0]); return o; }; break;
    case 2: q.name = "rNd_is_good"; q.run = [=](const Env& e) { Cp<rNd_poly> w(e, P.get()); Out o; if (w.p->nverts > 24) return o; before(e); int rc = rNd_is_good(w.p); w.check("rNd_is_good"); o.put(rc); return o; }; break;
    case 3: q.name = "rNd_orient"; q.run = [=](const Env& e) { rNd_rvec v[5]; for (int i = 0; i < 5; ++i) for (int k = 0; k < 4; ++k) v[i].xyz[k] = (rNd_real)B->pts[i][k]; before(e); Out o; o.put(rNd_orient(v)); return o; }; break;
    case 4: { int w_ = (int)c.raw(5); q.name = fmt("rNd transform %d", w_); q.run = [=](const Env& e) { Cp<rNd_poly> w(e, P.get()); before(e); switch (w_) { case 0: rNd_rotate(w.p, f, ax, ax2); break; case 1: rNd_translate(w.p, d); break; case 2: rNd_scale(w.p, d); break; case 3: rNd_shear(w.p, f, ax, ax2); break; default: { rNd_real A[5][5]; memcpy(A, M->data(), sizeof A); rNd_affine(w.p, A); if (memcmp(A, M->data(), sizeof A)) throw pbt::Fail{"rNd_affine modified its matrix"}; } } Out o; Dir<rNd_poly>::put(o, w.p); return o; }; break; }
    case 5: q.name = B->box ? "rNd_init_box" : "rNd_init_simplex"; q.run = [=](const Env& e) { Cp<rNd_poly> w(e, nullptr); Out o; if (B->box) { In<rNd_rvec> a(e, B->b, 2); before(e); rNd_init_box(w.p, a.p); a.check("the bounds"); } else { In<rNd_rvec> a(e, B->v, 5); before(e); rNd_init_simplex(w.p, a.p); a.check("the vertices"); } Dir<rNd_poly>::put(o, w.p); return o; }; break;
    case 6: case 7: q.name = "rNd_voxelize"; q.run = [=](const Env& e) { Cp<rNd_poly> w(e, P.get()); rNd_dvec ib[2], k[2]; Out o; if (!w.p->nverts) return o; rNd_get_ibox(w.p, ib, d); memcpy(k, ib, sizeof ib); size_t n = 1; for (int a = 0; a < 4; ++a) n *= std::max(0, ib[1].ijk[a] - ib[0].ijk[a]); if (n > 100) return o; Outv<rNd_real> g(e, n); std::fill(g.p(), g.p() + n, (rNd_real)0.25); before(e); rNd_voxelize(w.p, ib, g.p(), d, 0); w.check("rNd_voxelize"); g.check("rNd_voxelize"); if (memcmp(ib, k, sizeof ib)) throw pbt::Fail{"rNd_voxelize modified its index box"}; o.arr(g.p(), n); return o; }; break;
    default: { q.name = "rNd_get_ibox/rNd_clamp_ibox"; std::array<int, 8> sh; for (int& x : sh) x = (int)c.raw(3) - 1; q.run = [=](const Env& e) { Cp<rNd_poly> w(e, P.get()); Out o; if (!w.p->nverts) return o; rNd_dvec ib[2], cb[2], k[2]; pbt::poison(ib, sizeof ib, e.pat); before(e); rNd_get_ibox(w.p, ib, d); w.check("rNd_get_ibox"); o.arr(ib[0].ijk, 4); o.arr(ib[1].ijk, 4); for (int a = 0; a < 4; ++a) { cb[0].ijk[a] = ib[0].ijk[a] + sh[a]; cb[1].ijk[a] = ib[1].ijk[a] + sh[4 + a]; } memcpy(k, cb, sizeof cb); before(e); rNd_clamp_ibox(w.p, ib, cb, d); if (memcmp(k, cb, sizeof cb)) throw pbt::Fail{"rNd_clamp_ibox modified the clamp range"}; o.arr(ib[0].ijk, 4); o.arr(ib[1].ijk, 4); Dir<rNd_poly>::put(o, w.p); return o; }; }
  }
  return q;
}
Op op(Ctx& c) { switch (c.weighted({5, 4, 2})) { case 0: return op3(c); case 1: return op2(c); default: return op4(c); } }
std::string diff(const Out& a, const Out& b) { if (a.b.size() != b.b.size()) return fmt("%zu result bytes instead of %zu", b.b.size(), a.b.size()); for (size_t i = 0; i < a.b.size(); ++i) if (a.b[i] != b.b[i]) return fmt("results differ at byte %zu of %zu", i, a.b.size()); return ""; }
}
PROPERTY(c26_repeat, "C26/repeat", 30000, "always: every case repeats each operation under several environments and histories") {
  int n = c.range(1, 4); std::vector<Op> ops; std::vector<size_t> at; for (int i = 0; i < n; ++i) { at.push_back(c.pos); ops.push_back(op(c)); c.label(ops.back().name); c.note("operation %d: %s", i, ops[i].name.c_str()); } at.push_back(c.pos); c.nontrivial();
  std::vector<Op> twin(n); bool twins = c.chance(1, 2); // the same operations on arguments that differ by very little, to run just before
  if (twins) { double by = c.uni(-1, 1) * pow(10, c.uni(-13, -5)); c.label("nearly equal calls before"); for (int i = 0; i < n; ++i) { Ctx k; k.replay = true; size_t sz = c.tape.size(); k.tape.assign(c.tape.begin() + std::min(at[i], sz), c.tape.begin() + std::min(at[i + 1], sz)); k.nudge = by; try { twin[i] = op(k); } catch (pbt::Discard&) {} } }
  std::vector<Out> base; for (auto& o : ops) base.push_back(o.run({0, false, false}));
  int m = c.range(n, 2 * n + 2); for (int k = 0; k < m; ++k) { int i = k < n ? k : (int)c.raw(n); Env e{c.raw(1u << 30), false, true}; if (twin[i].run && c.chance(1, 2)) twin[i].run(e); std::string d = diff(base[i], ops[i].run(e)); CHECK(c, d.empty(), "%s gives another result when repeated (step %d): %s", ops[i].name.c_str(), k, d.c_str()); }
}
PROPERTY(c26_print, "C26/print", 400, "always") {
  c.nontrivial(); Env e{c.raw(1 << 20), false, true}; switch (c.raw(4)) {
    case 0: { g3::Opts o; o.cap = 30; auto s = g3::gen(c, o); auto p = g3::make(c, s); Cp<r3d_poly> w(e, p.get()); r3d_print(w.p); w.check("r3d_print"); break; }
    case 1: { g2::Opts o; auto s = g2::gen(c, o); auto p = g2::make(c, s); Cp<r2d_poly> w(e, p.get()); r2d_print(w.p); w.check("r2d_print"); break; }
    case 2: { auto b = g4::gen(c); auto p = g4::make(c, b); Cp<rNd_poly> w(e, p.get()); rNd_print(w.p); w.check("rNd_print"); break; }
    default: { g3::Opts o; o.cap = 30; auto s = g3::gen(c, o); auto p = g3::make(c, s); r3d_brep* b; int nc; r3d_init_brep(p.get(), &b, &nc); auto f = [&] { Out o2; for (int i = 0; i < nc; ++i) { o2.put(b[i].numvertices); o2.put(b[i].numfaces); for (int v = 0; v < b[i].numvertices; ++v) o2.arr(b[i].vertices[v].xyz, 3); for (int k = 0; k < b[i].numfaces; ++k) { o2.put(b[i].numvertsperface[k]); o2.arr(b[i].faceinds[k], b[i].numvertsperface[k]); } } return o2; }; Out x = f(); r3d_print_brep(&b, nc); CHECK(c, diff(x, f()).empty(), "r3d_print_brep modified the boundary representation"); r3d_free_brep(&b, nc); } }
}
static void run_threads(Ctx& c, const std::vector<Op>& ops, int T, int rep) {
  int n = (int)ops.size(); for (int i = 0; i < n; ++i) { c.label(ops[i].name); c.note("operation %d: %s", i, ops[i].name.c_str()); } c.nontrivial(); c.note("%d threads, %d calls each", T, rep);
  std::vector<Out> base; for (auto& o : ops) base.push_back(o.run({0, false, false})); std::vector<std::vector<std::pair<int, uint64_t>>> plan(T); for (int t = 0; t < T; ++t) { bool sameop = c.chance(1, 2); int f = (int)c.raw(n); for (int k = 0; k < rep; ++k) plan[t].push_back({sameop ? f : (int)c.raw(n), c.raw(1 << 20)}); }
  std::vector<std::string> err(T); std::atomic<int> ready(0); std::vector<std::thread> th;
  for (int t = 0; t < T; ++t) th.emplace_back([&, t] { try { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < T) {} for (auto& q : plan[t]) { std::string d = diff(base[q.first], ops[q.first].run({q.second, true, false})); if (!d.empty()) { err[t] = ops[q.first].name + ": " + d; return; } } } catch (pbt::Fail& f) { err[t] = f.msg; } });
  for (auto& x : th) x.join(); for (int t = 0; t < T; ++t) CHECK(c, err[t].empty(), "thread %d of %d: %s", t, T, err[t].c_str());
}
PROPERTY(c27_threads, "C27/threads", 1500, "at least two threads run library operations at the same time") {
  int n = c.range(1, 4), T = c.range(2, 5), rep = c.range(3, 12); std::vector<Op> ops; for (int i = 0; i < n; ++i) ops.push_back(op(c)); run_threads(c, ops, T, rep);
}
PROPERTY(c27_grids, "C27/grids", 150, "at least two threads rasterize or voxelize at the same time") {
  int n = c.range(1, 2), T = c.range(2, 4), rep = c.range(1, 3); std::vector<Op> ops; for (int i = 0; i < n; ++i) switch (c.weighted({2, 2, 3})) { case 0: ops.push_back(op3(c, 17)); break; case 1: ops.push_back(op2(c, 12)); break; default: ops.push_back(op4(c, 6)); } run_threads(c, ops, T, rep);
}
