// Stand-in for libPerm (not available offline). Composition and ranking follow
// the conventions SeQuant's biorthogonalization code relies on (Myrvold-Ruskey
// unrank1); the stand-in is validated against the expected values of
// /repo/tests/unit/test_biorthogonalization.cpp.
#pragma once
#include <cstddef>
#include <stdexcept>
#include <utility>
#include <vector>
namespace perm {
class Permutation {
 public:
  Permutation() = default;
  explicit Permutation(std::vector<std::size_t> image) : m_(std::move(image)) {}
  Permutation* operator->() { return this; }
  const Permutation* operator->() const { return this; }
  std::size_t image(std::size_t i) const { return i < m_.size() ? m_[i] : i; }
  std::size_t operator[](std::size_t i) const { return image(i); }
  std::size_t size() const { return m_.size(); }
  void invert() {
    std::vector<std::size_t> r(m_.size());
    for (std::size_t i = 0; i < m_.size(); ++i) r.at(m_[i]) = i;
    m_ = std::move(r);
  }
  // this <- this o other (apply other first)
  void postMultiply(const Permutation& o) { *this = compose(*this, o); }
  // this <- other o this
  void preMultiply(const Permutation& o) { *this = compose(o, *this); }
  std::vector<std::vector<std::size_t>> toDisjointCycles(std::size_t n) const {
    std::vector<std::vector<std::size_t>> r;
    std::vector<bool> seen(n, false);
    for (std::size_t i = 0; i < n; ++i) {
      if (seen[i]) continue;
      r.emplace_back();
      for (std::size_t j = i; !seen.at(j); j = image(j)) { seen[j] = true; r.back().push_back(j); }
    }
    return r;
  }
 private:
  static Permutation compose(const Permutation& a, const Permutation& b) {
    std::size_t n = a.size() > b.size() ? a.size() : b.size();
    std::vector<std::size_t> r(n);
    for (std::size_t i = 0; i < n; ++i) r[i] = a.image(b.image(i));
    return Permutation(std::move(r));
  }
  std::vector<std::size_t> m_;
};
}  // namespace perm
