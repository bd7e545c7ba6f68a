// Exact arithmetic for the numerical oracles: the field F_p[i], p = 2^61-1
// (p = 3 mod 4, so x^2+1 is irreducible). Complex conjugation is (re,-im).
#pragma once
#include <cstdint>
#include <string>
#include <stdexcept>
namespace vf {
using u64 = std::uint64_t;
using i64 = std::int64_t;
constexpr u64 P = (u64(1) << 61) - 1;
inline u64 addm(u64 a, u64 b) { u64 c = a + b; return c >= P ? c - P : c; }
inline u64 subm(u64 a, u64 b) { return a >= b ? a - b : a + P - b; }
inline u64 mulm(u64 a, u64 b) {
  unsigned __int128 t = (unsigned __int128)a * b;
  u64 lo = (u64)(t & P), hi = (u64)(t >> 61);
  u64 c = lo + hi;
  return c >= P ? c - P : c;
}
inline u64 powm(u64 a, u64 e) {
  u64 r = 1;
  while (e) { if (e & 1) r = mulm(r, a); a = mulm(a, a); e >>= 1; }
  return r;
}
inline u64 invm(u64 a) {
  if (a == 0) throw std::domain_error("division by zero mod p");
  return powm(a, P - 2);
}
struct Z {
  u64 re = 0, im = 0;
  Z() = default;
  Z(i64 v) { i64 m = v % (i64)P; re = m < 0 ? (u64)(m + (i64)P) : (u64)m; }
  Z(u64 r, u64 i) : re(r), im(i) {}
  bool zero() const { return re == 0 && im == 0; }
  friend bool operator==(const Z& a, const Z& b) { return a.re == b.re && a.im == b.im; }
  friend bool operator!=(const Z& a, const Z& b) { return !(a == b); }
  Z operator-() const { return Z(subm(0, re), subm(0, im)); }
  Z& operator+=(const Z& o) { re = addm(re, o.re); im = addm(im, o.im); return *this; }
  Z& operator-=(const Z& o) { re = subm(re, o.re); im = subm(im, o.im); return *this; }
  friend Z operator+(Z a, const Z& b) { return a += b; }
  friend Z operator-(Z a, const Z& b) { return a -= b; }
  friend Z operator*(const Z& a, const Z& b) {
    if (a.im == 0 && b.im == 0) return Z(mulm(a.re, b.re), 0);
    return Z(subm(mulm(a.re, b.re), mulm(a.im, b.im)), addm(mulm(a.re, b.im), mulm(a.im, b.re)));
  }
  Z& operator*=(const Z& o) { return *this = *this * o; }
  Z conj() const { return Z(re, subm(0, im)); }
  Z inv() const {
    u64 n = invm(addm(mulm(re, re), mulm(im, im)));
    return Z(mulm(re, n), mulm(subm(0, im), n));
  }
  Z pow(i64 e) const {
    Z b = e < 0 ? inv() : *this; u64 k = e < 0 ? (u64)(-e) : (u64)e; Z r(1);
    while (k) { if (k & 1) r *= b; b *= b; k >>= 1; }
    return r;
  }
  std::string str() const {
    auto s = [](u64 x) { return x > P / 2 ? "-" + std::to_string(P - x) : std::to_string(x); };
    return im ? "(" + s(re) + "," + s(im) + ")" : s(re);
  }
};
inline u64 mix(u64 x) {
  x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}
inline u64 comb(u64 h, u64 v) { return mix(h ^ (mix(v) + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2))); }
inline u64 hstr(const std::wstring_view s, u64 seed = 17) { u64 h = seed; for (wchar_t c : s) h = comb(h, (u64)c); return h; }
inline u64 hstr(const std::string& s, u64 seed = 17) { u64 h = seed; for (char c : s) h = comb(h, (unsigned char)c); return h; }
struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(mix(seed)) {}
  u64 next() { return s = mix(s + 0x632be59bd9b4e019ull); }
  // uniform in [0,n)
  int operator()(int n) { return n <= 1 ? 0 : (int)(next() % (u64)n); }
  int range(int a, int b) { return a + (*this)(b - a + 1); }
  bool chance(int num, int den) { return (*this)(den) < num; }
  template <class C> auto& pick(C& c) { return c[(*this)((int)c.size())]; }
  template <class C> auto pick(const C& c) { return c[(*this)((int)c.size())]; }
  template <class C> void shuffle(C& c) { for (int i = (int)c.size() - 1; i > 0; --i) { using std::swap; swap(c[i], c[(*this)(i + 1)]); } }
};
}  // namespace vf
