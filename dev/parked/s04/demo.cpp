#include "demo.hpp"
using namespace sequant;
int main() {
  auto isr = mbpt::make_min_sr_spaces(); auto ctx = set_scoped_default_context(Context({.index_space_registry_shared_ptr = isr, .vacuum = Vacuum::SingleProduct}));
  auto s = deserialize(L"g{i_1;a_1}:N-C-S x + f{i_1;a_1}:N-C-S");
  (void)s->hash_value();
  auto a = adjoint(s);            // a clone is adjointed
  s->adjoint();                   // in place, after its hash was used
  auto b = a->clone();
  auto fresh = std::make_shared<Sum>(); for (auto& t : *a) fresh->append(t->clone());
  bool ok = s->hash_value() == fresh->hash_value() && *s == *fresh;
  std::printf("%s\n", ok ? "ok" : "stale hash after Sum::adjoint"); return ok ? 0 : 1;
}
