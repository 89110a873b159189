// Independent reference geometry in long double: signed simplex decompositions, exact
// simplex / half-space intersection, monomial integrals by Gauss quadrature.
#pragma once
#include <vector>
#include <array>
#include <cmath>
#include <cstdint>
#include <algorithm>

namespace ref {
typedef long double L;

template <int D> struct Vec {
  L x[D];
  L& operator[](int i) { return x[i]; }
  L operator[](int i) const { return x[i]; }
};
template <int D> Vec<D> operator-(const Vec<D>& a, const Vec<D>& b) { Vec<D> r; for (int i = 0; i < D; ++i) r[i] = a[i] - b[i]; return r; }
template <int D> Vec<D> operator+(const Vec<D>& a, const Vec<D>& b) { Vec<D> r; for (int i = 0; i < D; ++i) r[i] = a[i] + b[i]; return r; }
template <int D> Vec<D> operator*(L s, const Vec<D>& a) { Vec<D> r; for (int i = 0; i < D; ++i) r[i] = s * a[i]; return r; }
template <int D> L dot(const Vec<D>& a, const Vec<D>& b) { L s = 0; for (int i = 0; i < D; ++i) s += a[i] * b[i]; return s; }
template <int D> L norm(const Vec<D>& a) { return sqrtl(dot(a, a)); }
inline Vec<3> cross(const Vec<3>& a, const Vec<3>& b) { return Vec<3>{{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }

template <int D> L det(std::array<std::array<L, D>, D> m) {
  L d = 1;
  for (int c = 0; c < D; ++c) {
    int p = c; for (int r = c + 1; r < D; ++r) if (fabsl(m[r][c]) > fabsl(m[p][c])) p = r;
    if (m[p][c] == 0) return 0;
    if (p != c) { std::swap(m[p], m[c]); d = -d; }
    d *= m[c][c];
    for (int r = c + 1; r < D; ++r) { L f = m[r][c] / m[c][c]; for (int k = c; k < D; ++k) m[r][k] -= f * m[c][k]; }
  }
  return d;
}

template <int D> struct Simplex { Vec<D> v[D + 1]; L w; };   // w: signed volume * D! (carries the sign only for orientation)
template <int D> L sdet(const Vec<D>* v) {
  std::array<std::array<L, D>, D> m;
  for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) m[i][j] = v[i + 1][j] - v[0][j];
  return det<D>(m);
}
template <int D> struct Plane { Vec<D> n; L d; };

// parts of a simplex with n.x+d >= 0, appended to out; the sign is inherited
template <int D> void clip_one(const Simplex<D>& s, const Plane<D>& h, std::vector<Simplex<D>>& out) {
  L sd[D + 1]; int in[D + 1], ou[D + 1]; int p = 0, q = 0;
  for (int i = 0; i <= D; ++i) { sd[i] = dot(h.n, s.v[i]) + h.d; if (sd[i] >= 0) in[p++] = i; else ou[q++] = i; }
  if (q == 0) { out.push_back(s); return; }
  if (p == 0) return;
  // grid points g(i,0) = inside vertex i, g(i,j) = cut of edge (inside i, outside j-1);
  // the part inside is triangulated by the staircase triangulation of that product
  std::vector<std::array<Vec<D>, D + 1>> g(p);
  for (int i = 0; i < p; ++i) {
    g[i][0] = s.v[in[i]];
    for (int j = 0; j < q; ++j) { L t = sd[in[i]] / (sd[in[i]] - sd[ou[j]]); g[i][j + 1] = s.v[in[i]] + t * (s.v[ou[j]] - s.v[in[i]]); }
  }
  // lattice paths from (0,0) to (p-1,q): p-1+q = D steps
  for (unsigned mask = 0; mask < (1u << D); ++mask) {
    if (__builtin_popcount(mask) != q) continue;
    Simplex<D> t; int i = 0, j = 0; t.v[0] = g[0][0];
    for (int k = 0; k < D; ++k) { if (mask >> k & 1) ++j; else ++i; t.v[k + 1] = g[i][j]; }
    L dd = fabsl(sdet<D>(t.v));
    if (dd == 0) continue;
    t.w = s.w < 0 ? -dd : dd;
    out.push_back(t);
  }
}
template <int D> std::vector<Simplex<D>> clip(const std::vector<Simplex<D>>& in, const Plane<D>& h) {
  std::vector<Simplex<D>> out; out.reserve(in.size() * 2);
  for (auto& s : in) clip_one(s, h, out);
  return out;
}
template <int D> Simplex<D> make(const Vec<D>* v) { Simplex<D> s; for (int i = 0; i <= D; ++i) s.v[i] = v[i]; s.w = sdet<D>(v); return s; }

inline const std::vector<std::pair<L, L>>& gauss01(int n) {
  static std::vector<std::vector<std::pair<L, L>>> cache(64);
  auto& g = cache[n];
  if (g.empty()) {
    for (int i = 1; i <= n; ++i) {
      L x = cosl(acosl(-1.0L) * (i - 0.25L) / (n + 0.5L)), dp = 1;
      for (int it = 0; it < 60; ++it) {
        L p0 = 1, p1 = x; for (int k = 2; k <= n; ++k) { L p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
        if (n == 1) { p1 = x; p0 = 1; }
        dp = n * (x * p1 - p0) / (x * x - 1);
        L dx = p1 / dp; x -= dx; if (fabsl(dx) < 1e-19L) break;
      }
      L p0 = 1, p1 = x; for (int k = 2; k <= n; ++k) { L p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
      dp = n * (x * p1 - p0) / (x * x - 1);
      g.push_back({(1 + x) / 2, 1 / ((1 - x * x) * dp * dp)});
    }
  }
  return g;
}

// exponents in the library's documented row-major order
template <int D> struct Mono { int e[D]; };
template <int D> void mono_rec(int i, int left, Mono<D>& m, std::vector<Mono<D>>& out) {
  if (i == D - 1) { m.e[i] = left; out.push_back(m); return; }
  for (int k = left; k >= 0; --k) { m.e[i] = k; mono_rec<D>(i + 1, left - k, m, out); }
}
template <int D> const std::vector<Mono<D>>& monos(int order) {
  static std::vector<std::vector<Mono<D>>> cache(64);
  auto& r = cache[order];
  if (r.empty()) for (int k = 0; k <= order; ++k) { Mono<D> m; mono_rec<D>(0, k, m, r); }
  return r;
}

template <int D> void add_moments(const Simplex<D>& s, int order, std::vector<L>& mom) {
  static const L fact[] = {1, 1, 2, 6, 24, 120, 720};
  auto& ms = monos<D>(order);
  if (order == 0) { mom[0] += s.w / fact[D]; return; }
  if (order == 1) {
    Vec<D> c = s.v[0]; for (int i = 1; i <= D; ++i) c = c + s.v[i];
    mom[0] += s.w / fact[D];
    for (int i = 0; i < D; ++i) mom[1 + i] += s.w / fact[D] * c[i] / (D + 1);
    return;
  }
  if (order == 2) { // exact for quadratics: integral of x_a x_b = V ((sum v)_a (sum v)_b + sum v_a v_b) / ((D+1)(D+2))
    Vec<D> c = s.v[0]; for (int i = 1; i <= D; ++i) c = c + s.v[i];
    L V = s.w / fact[D]; mom[0] += V; for (int i = 0; i < D; ++i) mom[1 + i] += V * c[i] / (D + 1);
    size_t m = 1 + D; for (int a = 0; a < D; ++a) for (int b = a; b < D; ++b, ++m) { L q = c[a] * c[b]; for (int i = 0; i <= D; ++i) q += s.v[i][a] * s.v[i][b]; mom[m] += V * q / ((D + 1) * (D + 2)); }
    return;
  }
  int n = (order + D) / 2 + 1;
  auto& g = gauss01(n);
  // Duffy map: x = v0 + sum_k t_0..t_{k} ... (collapsed coordinates)
  int idx[D]; for (int i = 0; i < D; ++i) idx[i] = 0;
  std::vector<std::array<L, D>> pw(order + 1);
  for (;;) {
    L w = s.w; Vec<D> x = s.v[0]; L t = 1;
    for (int i = 0; i < D; ++i) {
      L u = g[idx[i]].first; w *= g[idx[i]].second;
      // jacobian u^(D-1-i)
      for (int k = 0; k < D - 1 - i; ++k) w *= u;
      t *= u;
      x = x + t * (s.v[i + 1] - s.v[i]);
    }
    for (int d = 0; d < D; ++d) pw[0][d] = 1;
    for (int k = 1; k <= order; ++k) for (int d = 0; d < D; ++d) pw[k][d] = pw[k - 1][d] * x[d];
    for (size_t m = 0; m < ms.size(); ++m) { L v = w; for (int d = 0; d < D; ++d) v *= pw[ms[m].e[d]][d]; mom[m] += v; }
    int i = 0; while (i < D && ++idx[i] == n) idx[i++] = 0;
    if (i == D) break;
  }
}
template <int D> std::vector<L> moments(const std::vector<Simplex<D>>& s, int order) {
  std::vector<L> m(monos<D>(order).size(), 0);
  for (auto& t : s) add_moments(t, order, m);
  return m;
}
inline int total_order3(int m) { for (int k = 0;; ++k) if (m < (k + 1) * (k + 2) * (k + 3) / 6) return k; }
inline int total_order2(int m) { for (int k = 0;; ++k) if (m < (k + 1) * (k + 2) / 2) return k; }
// keeps moments of an order, and the intermediate products they need, inside the exponent range of the precision
template <class T> inline int fitorder(int order, int dim, double R, double r) { double hi = sizeof(T) == 4 ? 120 : 1000, lo = sizeof(T) == 4 ? -90 : -900; while (order > 0 && ((order + dim) * log2(4 * R + 8 * r) > hi || (r > 0 && (order + dim) * log2(r) < lo))) --order; return order; }
}
