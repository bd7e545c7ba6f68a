// Stand-in for polymorphic_variant (not available offline).
#pragma once
#include <utility>
#include <variant>
namespace pv {
template <class Base, class... Ts>
class polymorphic_variant {
 public:
  template <class T, class = std::enable_if_t<(std::is_same_v<std::decay_t<T>, Ts> || ...)>>
  polymorphic_variant(T&& t) : v_(std::forward<T>(t)) {}
  Base* operator->() { return &get(); }
  const Base* operator->() const { return &get(); }
  Base& operator*() { return get(); }
  const Base& operator*() const { return get(); }
  operator Base&() { return get(); }
  operator const Base&() const { return get(); }
 private:
  Base& get() { return std::visit([](auto& x) -> Base& { return x; }, v_); }
  const Base& get() const { return std::visit([](auto& x) -> const Base& { return x; }, v_); }
  std::variant<Ts...> v_;
};
}  // namespace pv
