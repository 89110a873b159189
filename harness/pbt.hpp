// Small property-based-testing engine: every random choice comes from a recorded
// choice tape, so any failing case can be replayed and shrunk as one value.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <algorithm>

namespace pbt {

struct Fail { std::string msg; };
struct Discard {};

inline std::string vfmt(const char* f, va_list ap) {
  va_list a2; va_copy(a2, ap);
  int n = vsnprintf(nullptr, 0, f, ap);
  std::string s(n > 0 ? n : 0, 0);
  if (n > 0) vsnprintf(&s[0], n + 1, f, a2);
  va_end(a2);
  return s;
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
// summary of the choices the current case made so far: lets fillings differ from case to case and
// still be the same whenever the case is replayed
inline uint64_t& casehash() { static thread_local uint64_t h = 0; return h; }

struct Ctx {
  std::vector<uint64_t> tape;
  size_t pos = 0;
  bool replay = false;
  uint64_t rng = 0;
  bool wantdesc = false;
  bool isnontrivial = false;
  std::string desc;
  std::map<std::string, uint64_t>* labels = nullptr;
  std::map<std::string, double>* maxima = nullptr;
  // when non-null, bytes drive the tape (coverage-guided mode)
  const uint8_t* bytes = nullptr; size_t nbytes = 0, bpos = 0;
  // when non-null, every choice is mirrored into shared memory, so that the tape of a case that
  // crashes or hangs can be recovered: mirror[0] = count, mirror[1..] = values
  uint64_t* mirror = nullptr; size_t mirrorcap = 0;
  uint64_t put(uint64_t v) {
    if (mirror && pos < mirrorcap) { mirror[1 + pos] = v; mirror[0] = pos + 1; }
    ++pos; casehash() = mix(casehash() + v);
    return v;
  }
  Ctx() { casehash() = 0; }

  uint64_t next64() { rng += 0x9e3779b97f4a7c15ull; return mix(rng); }
  // a choice in [0,n); 0 is always the simplest alternative
  uint64_t raw(uint64_t n) {
    if (n <= 1) return 0;
    if (bytes) {
      int w = n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
      uint64_t v = 0;
      for (int i = 0; i < w; ++i) v = (v << 8) | (bpos < nbytes ? bytes[bpos++] : 0);
      v %= n;
      tape.push_back(v);
      return put(v);
    }
    if (replay) {
      uint64_t v = pos < tape.size() ? tape[pos] % n : 0;
      if (pos < tape.size()) tape[pos] = v;
      return put(v);
    }
    uint64_t v = (uint64_t)(((unsigned __int128)next64() * n) >> 64);
    tape.push_back(v);
    return put(v);
  }
  int range(int lo, int hi) { return lo + (int)raw((uint64_t)(hi - lo + 1)); }  // shrinks to lo
  int sym(int m) { int k = (int)raw(2 * m + 1); return (k & 1) ? (k + 1) / 2 : -(k / 2); } // 0,1,-1,2,...
  bool chance(int num, int den) { return (int)raw(den) >= den - num; }           // shrinks to false
  double unit() { return (double)raw(1ull << 53) * 0x1p-53; }
  double nudge = 0; // moves every continuous choice by this fraction
  double uni(double a, double b) { double x = a + (b - a) * unit(); return x + nudge * x; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[raw(v.size())]; }
  int weighted(std::initializer_list<int> w) {
    uint64_t tot = 0; for (int x : w) tot += x;
    uint64_t r = raw(tot); int i = 0;
    for (int x : w) { if (r < (uint64_t)x) return i; r -= x; ++i; }
    return 0;
  }

  void label(const std::string& s) { if (labels) ++(*labels)[s]; }
  void measure(const std::string& s, double v) { if (maxima) { double& m = (*maxima)[s]; if (!(v <= m)) m = v; } }
  void nontrivial() { isnontrivial = true; }
  void note(const char* f, ...) __attribute__((format(printf, 2, 3))) {
    if (!wantdesc) return;
    va_list ap; va_start(ap, f); desc += vfmt(f, ap); va_end(ap);
    if (desc.empty() || desc.back() != '\n') desc += "\n";
  }
  [[noreturn]] void fail(const char* f, ...) __attribute__((format(printf, 2, 3))) {
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
    throw Fail{s};
  }
  uint64_t hash() const {
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < pos && i < tape.size(); ++i) { h ^= tape[i]; h = mix(h); }
    return h;
  }
};

typedef void (*PropFn)(Ctx&);
struct Prop { std::string name; PropFn fn; double cases; std::string rule; };
inline std::vector<Prop>& registry() { static std::vector<Prop> r; return r; }
struct Reg { Reg(const char* n, PropFn f, double cases, const char* rule) { registry().push_back({n, f, cases, rule}); } };
#define PROPERTY(ident, name, cases, rule) \
  static void ident(pbt::Ctx&);            \
  static pbt::Reg reg_##ident(name, ident, cases, rule); \
  static void ident(pbt::Ctx& c)

#define CHECK(c, cond, ...) do { if (!(cond)) (c).fail(__VA_ARGS__); } while (0)

// fill a large part of the stack below the caller with a pattern, so that code that reads
// uninitialised locals sees chosen garbage: wild words, zeros, ones, or small numbers that pass for
// indices and marks an earlier call left behind
__attribute__((noinline)) inline void dirty_stack(uint64_t pat) {
  pat ^= casehash() & 0xff00;
#if defined(__SANITIZE_THREAD__)
  (void)pat;
#else
  volatile uint64_t buf[32768];
  switch (mix(pat ^ 0x51ac) % 6) {
    case 0: for (int i = 0; i < 32768; ++i) buf[i] = 0; break;
    case 1: for (int i = 0; i < 32768; ++i) buf[i] = 0x100000001ull; break;
    case 2: for (int i = 0; i < 32768; ++i) { uint64_t h = mix(pat + i); buf[i] = (h & 7) | (h & 0x700000000ull); } break;
    default: for (int i = 0; i < 32768; ++i) buf[i] = pat + (uint64_t)i * (pat | 1);
  }
#endif
}
inline void poison(void* p, size_t n, uint64_t pat) {
  // 8-byte lanes that read as doubles between 2^-3 and 2^12: never so small or so large that an
  // arithmetic result hides them
  unsigned char* b = (unsigned char*)p;
  for (size_t i = 0; i < n; i += 8) {
    uint64_t h = mix(pat + i / 8), w = (h & 0x800fffffffffffffull) | ((1020 + (h >> 52) % 16) << 52);
    for (size_t k = 0; k < 8 && i + k < n; ++k) b[i + k] = (unsigned char)(w >> (8 * k));
  }
}
// what an output object held before: arbitrary doubles, zeros, or small integers that pass for the
// counts and neighbour links of another body
inline void stale(void* p, size_t n, uint64_t pat) {
  unsigned char* b = (unsigned char*)p; pat = mix(pat + casehash()); uint64_t k = mix(pat ^ 0x57a1e);
  switch (k % 6) {
    case 0: case 1: poison(p, n, pat); break;
    case 2: memset(p, 0, n); break;
    case 3: memset(p, (int)(pat % 255) + 1, n); break;
    default: {
      static const uint32_t span[4] = {2, 5, 9, 65}; uint32_t w = span[(k >> 8) % 4];
      for (size_t i = 0; i < n; i += 4) { uint32_t x = (uint32_t)(mix(pat + i) >> 20) % w; memcpy(b + i, &x, n - i < 4 ? n - i : 4); }
    }
  }
}
// an input array in memory of exactly its size, so that a sanitized library cannot read past it unseen
template <class T> struct Exact {
  T* p; size_t n; std::vector<T> keep;
  Exact(const T* a, size_t cnt) : p((T*)malloc(cnt * sizeof(T))), n(cnt), keep(a, a + cnt) { memcpy((void*)p, a, cnt * sizeof(T)); }
  Exact(const Exact&) = delete;
  ~Exact() { free(p); }
  operator T*() { return p; }
  bool same() const { return memcmp((void*)p, keep.data(), n * sizeof(T)) == 0; }
};

// a zeroed grid far larger than memory; only the touched pages exist
struct HugeGrid {
  void* p; size_t bytes;
  explicit HugeGrid(size_t b);
  HugeGrid(const HugeGrid&) = delete;
  ~HugeGrid();
};
// extends an index box so that the grid has 2^29..2^33 entries; a[k] cells before and b[k] behind the box
void huge_extent(Ctx& c, int dim, const int* n, int nmom, long* a, long* b);

// a parameter of a transformation: usually x, at times far smaller or larger
inline double wide(Ctx& c, double x, double lo = -12, double hi = 4) { return c.chance(1, 6) ? x * pow(10, c.uni(lo, hi)) : x; }
// an angle: multiples of 45 degrees, ordinary, tiny, close to a quarter turn, and many turns
inline double angle(Ctx& c) {
  switch (c.raw(9)) { case 0: case 1: case 2: return c.sym(8) * M_PI / 4; case 3: return c.uni(-1, 1) * pow(10, c.uni(-12, -1)); case 4: return c.sym(8) * M_PI / 4 + c.uni(-1, 1) * pow(10, c.uni(-10, -1)); case 5: return c.uni(-1, 1) * pow(10, c.uni(1, 5)); default: return c.uni(-10, 10); }
}
// a common factor of the homogeneous row of a matrix: one, minus one, or far from one
inline double wfactor(Ctx& c) { return c.chance(1, 2) ? 1 : (c.chance(1, 2) ? -1 : 1) * (c.chance(1, 2) ? 1 : ldexp(1, c.sym(12))); }

int run_main(int argc, char** argv);
}
