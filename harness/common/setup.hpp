// Contexts used by the workloads.
#pragma once
#include <SeQuant/core/context.hpp>
#include <SeQuant/core/index_space_registry.hpp>
#include <SeQuant/core/options.hpp>
#include <SeQuant/core/space.hpp>
#include <memory>
namespace vf {
namespace sq = sequant;
void setup_common();
// default arguments: the context of the project's own unit tests
void setup_sr(sq::Vacuum v = sq::Vacuum::SingleProduct, sq::SPBasis b = sq::SPBasis::Spinor,
              sq::CanonicalizationMethod m = sq::CanonicalizationMethod::Topological);
void setup_min_sr(sq::Vacuum v = sq::Vacuum::SingleProduct, sq::SPBasis b = sq::SPBasis::Spinor,
                  sq::CanonicalizationMethod m = sq::CanonicalizationMethod::Topological);
void setup_mr(sq::Vacuum v = sq::Vacuum::SingleProduct, sq::SPBasis b = sq::SPBasis::Spinor,
              sq::CanonicalizationMethod m = sq::CanonicalizationMethod::Topological);
void setup_with(std::shared_ptr<sq::IndexSpaceRegistry> isr, sq::Vacuum v, sq::SPBasis b, sq::CanonicalizationMethod m);
}
