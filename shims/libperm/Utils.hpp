#pragma once
#include <libperm/Permutation.hpp>
namespace perm {
// permutation p such that current[p(i)] is equivalent to reference[i]
template <class A, class B, class Less>
Permutation computeTransformationPermutation(const A& reference, const B& current, Less less) {
  std::size_t n = reference.size();
  if (current.size() != n) throw std::invalid_argument("size mismatch");
  std::vector<std::size_t> p(n); std::vector<bool> used(n, false);
  for (std::size_t i = 0; i < n; ++i) {
    std::size_t j = 0;
    for (; j < n; ++j) if (!used[j] && !less(reference[i], current[j]) && !less(current[j], reference[i])) break;
    if (j == n) throw std::invalid_argument("ranges are not permutations of each other");
    used[j] = true; p[i] = j;
  }
  return Permutation(std::move(p));
}
}  // namespace perm
