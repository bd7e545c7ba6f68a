#include "setup.hpp"
#include <SeQuant/core/op.hpp>
#include <SeQuant/core/runtime.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>
#include <SeQuant/domain/mbpt/context.hpp>
#include <SeQuant/domain/mbpt/convention.hpp>
#include <SeQuant/domain/mbpt/op.hpp>
namespace vf {
using namespace sequant;
void setup_common() {
  static bool done = false;
  if (done) return;
  done = true;
  sequant::set_locale();
  static sequant::detail::OpIdRegistrar reg;
  TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  TensorCanonicalizer::set_cardinal_tensor_labels(mbpt::cardinal_tensor_labels());
  mbpt::set_default_mbpt_context(mbpt::Context({.csv = mbpt::CSV::No, .op_registry_ptr = mbpt::make_legacy_registry()}));
}
static void set(std::shared_ptr<IndexSpaceRegistry> isr, Vacuum v, SPBasis b, CanonicalizationMethod m) {
  setup_common();
  sequant::set_default_context(
      {.index_space_registry_shared_ptr = isr,
       .vacuum = v,
       .metric = IndexSpaceMetric::Unit,
       .spbasis = b,
       .first_dummy_index_ordinal = 100,
       .canonicalization_options = CanonicalizeOptions::default_options().copy_and_set(m),
       .braket_typesetting = BraKetTypesetting::ContraSub,
       .braket_slot_typesetting = BraKetSlotTypesetting::Naive});
}
void setup_sr(Vacuum v, SPBasis b, CanonicalizationMethod m) { set(mbpt::make_sr_spaces(), v, b, m); }
void setup_min_sr(Vacuum v, SPBasis b, CanonicalizationMethod m) { set(mbpt::make_min_sr_spaces(), v, b, m); }
void setup_mr(Vacuum v, SPBasis b, CanonicalizationMethod m) { set(mbpt::make_mr_spaces(), v, b, m); }
void setup_with(std::shared_ptr<IndexSpaceRegistry> isr, Vacuum v, SPBasis b, CanonicalizationMethod m) { set(isr, v, b, m); }
}
