// Random expression generators (well formed by construction).
#pragma once
#include "field.hpp"
#include <SeQuant/core/expr.hpp>
#include <SeQuant/core/index.hpp>
#include <SeQuant/core/op.hpp>
#include <map>
#include <string>
#include <vector>
namespace vf {
namespace sq = sequant;

struct GenParams {
  std::vector<std::wstring> spaces{L"i", L"a", L"p"};   // base labels usable for indices
  std::vector<std::wstring> aux_spaces;                 // empty: no aux indices
  int max_tensors = 4;
  int max_dummies = 5;
  int max_rank = 3;            // per bundle
  int max_aux_dummies = 0;     // shared by 2..3 tensors
  int n_labels = 2;            // few labels => identical tensors are common
  bool allow_symm = true, allow_antisymm = true, allow_bksymm = false, allow_bkconj = true, allow_colnonsymm = true;
  bool variables = true, powers = false, complex_scalars = true;
  bool proto = false;          // some dummies/externals carry proto indices (occupied ones)
  bool traces = false;         // dummy may have both endpoints on one tensor
  std::wstring label_prefix;   // to make label pools distinct
};

// hands out fresh index labels per space
class Names {
 public:
  explicit Names(int first = 1) : first_(first) {}
  sq::Index fresh(const std::wstring& space);
  sq::Index fresh(const std::wstring& space, const std::vector<sq::Index>& protos);
  int first_;
  std::map<std::wstring, int> next_;
};

struct Ext { std::vector<sq::Index> bra, ket, aux; std::vector<sq::Index> all() const; };

class Gen {
 public:
  Gen(Rng& r, GenParams p) : r(r), p(std::move(p)) { useed = this->r.next(); }
  Rng& r; GenParams p; u64 useed;   // useed fixes label -> symmetry
  Ext externals(Names& n, int nbra, int nket, int naux = 0);
  // a product of tensors (with scalar prefactor) having exactly these externals
  sq::ExprPtr network(const Ext& e, Names& n, int min_tensors = 1);
  std::vector<sq::ExprPtr> network_tensors(const Ext& e, Names& n, int min_tensors = 1);
  sq::ExprPtr tensor(int label, std::vector<sq::Index> bra, std::vector<sq::Index> ket, std::vector<sq::Index> aux);
  // nested sums/products with these externals
  sq::ExprPtr nested(const Ext& e, Names& n, int depth);
  sq::ExprPtr scalar_factor();
  sq::Constant::scalar_type scalar(bool nonzero = true);
};

// rewrites `tensors` (factors of one product) into another form with equal
// value: dummies renamed, factors reordered, slots permuted as the tensors'
// symmetries allow; returns the sign
struct Scrambled { std::vector<sq::ExprPtr> factors; int sign = 1; };
Scrambled scramble(Rng& r, const std::vector<sq::ExprPtr>& tensors, const std::vector<sq::Index>& ext, Names& fresh,
                   bool rename = true, bool reorder = true, bool slots = true);
sq::ExprPtr make_product(const std::vector<sq::ExprPtr>& f, const sq::Constant::scalar_type& c);
}
