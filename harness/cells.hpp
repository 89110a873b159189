// Reference moments of a signed simplex decomposition in every cell of a grid.
#pragma once
#include "ref.hpp"
#include <functional>

namespace ref {
// visits every cell lo <= idx < hi with the part of the body in it; coordinates of grid planes are d[a]*i
template <int D, class F> void cells_rec(const std::vector<Simplex<D>>& s, int a, const int* lo, const int* hi, const double* d, int* idx, F& f) {
  if (a == D) { f(idx, s); return; }
  for (int i = lo[a]; i < hi[a]; ++i) {
    idx[a] = i;
    if (s.empty()) { cells_rec<D>(s, a + 1, lo, hi, d, idx, f); continue; }
    Plane<D> p; for (int k = 0; k < D; ++k) p.n[k] = 0;
    p.n[a] = 1; p.d = -(L)d[a] * i; auto t = clip<D>(s, p);
    p.n[a] = -1; p.d = (L)d[a] * (i + 1); t = clip<D>(t, p);
    cells_rec<D>(t, a + 1, lo, hi, d, idx, f);
  }
}
template <int D, class F> void cells(const std::vector<Simplex<D>>& s, const int* lo, const int* hi, const double* d, F f) {
  int idx[D]; cells_rec<D>(s, 0, lo, hi, d, idx, f);
}
// accepted values of floor(x/d) and ceil(x/d) when x/d is rounded once
inline bool okfloor(double x, double d, long v, double eps) {
  L q = (L)x / (L)d; if (floorl(q) == (L)v) return true;
  L n = roundl(q); return fabsl(q - n) <= 4 * eps * fabsl(q) && q != n && (L)v == n;   // q just below n rounds up to n
}
inline bool okceil(double x, double d, long v, double eps) {
  L q = (L)x / (L)d; if (ceill(q) == (L)v) return true;
  L n = roundl(q); return fabsl(q - n) <= 4 * eps * fabsl(q) && q != n && (L)v == n;
}
}
