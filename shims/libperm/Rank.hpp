#pragma once
#include <libperm/Permutation.hpp>
namespace perm {
// Myrvold & Ruskey, unrank1/rank1
inline Permutation unrank(std::size_t r, std::size_t n) {
  std::vector<std::size_t> p(n);
  for (std::size_t i = 0; i < n; ++i) p[i] = i;
  for (std::size_t k = n; k > 0; --k) { std::swap(p[k - 1], p[r % k]); r /= k; }
  return Permutation(std::move(p));
}
inline std::size_t rank(const Permutation& q, std::size_t n) {
  std::vector<std::size_t> p(n), inv(n);
  for (std::size_t i = 0; i < n; ++i) { p[i] = q.image(i); if (p[i] >= n) throw std::out_of_range("perm::rank"); inv[p[i]] = i; }
  std::size_t r = 0, f = 1;
  for (std::size_t k = n; k > 1; --k) {
    std::size_t s = p[k - 1];
    std::swap(p[k - 1], p[inv[k - 1]]);
    std::swap(inv[s], inv[k - 1]);
    r += s * f; f *= k;
  }
  return r;
}
}  // namespace perm
