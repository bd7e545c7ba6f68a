// Numerical semantics of SeQuant expressions, written from the documentation
// and independent of SeQuant's own algorithms. SeQuant objects are only read
// through their public accessors.
#pragma once
#include "field.hpp"
#include <SeQuant/core/expr.hpp>
#include <SeQuant/core/index.hpp>
#include <SeQuant/core/op.hpp>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace vf {
namespace sq = sequant;

// one-particle basis: every orbital belongs to one elementary type bit, one
// spin bit and one class (non-spin quantum numbers)
struct Orb { std::uint32_t type, spin, cls; int k;
  // identification that does not depend on the order in which spaces are first seen
  u64 code() const { return ((u64)type << 30) | ((u64)cls << 12) | ((u64)k << 2) | spin; }
  u64 spatial() const { return code() >> 2; }
};

struct ModelParams {
  int per_type_spin = 1;      // orbitals per (type bit, spin)
  int max_extra = 0;          // + rng(max_extra+1) for each (type bit)
  bool spins = false;         // if false a single spin bit (both spins identified): orbitals have spin=3
  std::set<std::uint32_t> types;   // restrict type bits (empty: all seen)
  std::map<std::uint32_t, int> per_type;  // overrides
  std::uint32_t spin_mask = 3;
  bool spinless_if_unmarked = false;  // with spins: spaces without spin bits hold spinless modes
};

// Fixed random "universe": assigns orbitals to spaces and values to tensors
class Model {
 public:
  Model(u64 seed, ModelParams p) : seed_(seed), par_(std::move(p)) {}
  const std::vector<int>& orbitals(const sq::IndexSpace& s);
  const Orb& orb(int i) const { return orbs_[i]; }
  int norb() const { return (int)orbs_.size(); }
  u64 seed() const { return seed_; }
  // optional override of tensor values: return true if handled
  using Hook = std::function<bool(const sq::Tensor&, const std::vector<u64>& bra, const std::vector<u64>& ket,
                                  const std::vector<u64>& aux, Z& out)>;
  Hook hook;
  // slot value encodings
  static constexpr u64 NULLSLOT = ~u64(0);
  u64 slot(int orb) const { return orbs_[orb].code(); }
  int orb_of(u64 code) const { return by_code_.at(code); }
  Z tensor(const sq::Tensor& t, std::vector<u64> bra, std::vector<u64> ket, std::vector<u64> aux);
  Z raw(u64 labelhash, std::vector<u64> bra, std::vector<u64> ket, std::vector<u64> aux, sq::Symmetry s,
        sq::BraKetSymmetry bk, sq::ColumnSymmetry cs);
  Z variable(std::wstring_view label);
  bool real_tensors = false;   // all tensor elements real
  ModelParams& params() { return par_; }
  // number of occupied etc is up to the caller
  std::uint32_t occ_types = 0;  // type bits occupied in the Fermi vacuum
 private:
  u64 seed_; ModelParams par_;
  std::vector<Orb> orbs_;
  std::map<u64, int> by_code_;
  std::map<std::pair<std::uint32_t, std::uint32_t>, std::vector<int>> by_type_cls_;
  std::map<std::pair<std::uint32_t, std::uint32_t>, std::vector<int>> cache_;
};

Z to_Z(const sq::rational& r);
Z to_Z(const sq::Constant::scalar_type& c);

// --- flat representation of an expression ---
struct FSlot { int sym = -1; std::vector<int> protos; };
struct FAtom {
  enum Kind { Tensor, Scalar, FOp, BOp } kind;
  const sq::Expr* e = nullptr;   // Tensor / NormalOperator
  sq::ExprPtr keep;
  std::vector<FSlot> bra, ket, aux;       // Tensor
  std::vector<std::pair<FSlot, bool>> ops;  // operator string in product order; bool: creator
  sq::Vacuum vac = sq::Vacuum::Physical;
  int ncre = 0;
};
struct FTerm { Z coef{1}; std::vector<FAtom> atoms; };

struct EvalError : std::runtime_error { using std::runtime_error::runtime_error; };

// dense array over symbols
struct Arr { std::vector<int> syms; std::vector<int> dims; std::vector<Z> data; };

class Evaluator {
 public:
  explicit Evaluator(Model& m) : m_(m) {}
  // externals: indices whose value is fixed by the caller; every other index
  // that appears in >=2 slots of a term is summed. Indices that appear once and
  // are not listed make evaluation fail.
  // Result: array over ext in the given order.
  Arr eval(const sq::ExprPtr& e, const std::vector<sq::Index>& ext);
  // the free (slot count 1) indices of the expression's first nonzero term
  std::vector<sq::Index> free_indices(const sq::ExprPtr& e);
  bool has_ops(const sq::ExprPtr& e);
  // operator-valued: for every assignment of ext, the Fock-space matrix applied
  // to all determinants (physical vacuum); result is (assignment,row,col) map -> value
  // modes: list of orbital ids spanning the Fock space (<= 12)
  std::map<std::tuple<u64, u64, u64>, Z> eval_fock(const sq::ExprPtr& e, const std::vector<sq::Index>& ext,
                                                  const std::vector<int>& modes);
  struct OpVal { int orb; bool cre, occ; };
  // sums fn(operator strings) over all assignments; key: base-8 digits of the external assignment
  std::map<u64, Z> eval_ops(const sq::ExprPtr& e, const std::vector<sq::Index>& ext,
                            const std::function<Z(const std::vector<std::vector<OpVal>>&)>& fn);
  // boson: acts on occupation-number states with total occupation <= nmax
  std::map<std::tuple<u64, u64, u64>, Z> eval_bose(const sq::ExprPtr& e, const std::vector<sq::Index>& ext,
                                                  const std::vector<int>& modes, int nmax);
  // options
  bool spinfree_ops = false;  // interpret NormalOperators as spin-free (E)
  // spin-free: orbital id (spatial) -> pair of spin-orbital mode numbers
  std::vector<FTerm> flatten(const sq::ExprPtr& e, const std::vector<sq::Index>& ext);
  int sym_of(const sq::Index& i) const { return syms_.at(i); }
  u64 work = 0;  // elementary multiplications
 private:
  Model& m_;
  std::map<sq::Index, int, sq::Index::FullLabelCompare> syms_;
  std::vector<sq::Index> symidx_;
  std::vector<std::vector<int>> symorbs_;
  int symbol(const sq::Index& i);
  int fresh(int like);
  FSlot fslot(const sq::Index& i);
  std::vector<FTerm> flat(const sq::Expr& e, const std::set<int>& ext);
  std::vector<FTerm> atom_terms(const sq::Expr& e);
  Arr tensor_arr(const FAtom& a);
  // contract all c-number atoms of a term keeping `keep`
  Arr contract(const FTerm& t, const std::set<int>& keep);
  friend struct OpEval;
  const std::vector<int>& orbs(int sym) const { return symorbs_[sym]; }
};

// compare two arrays exactly; returns -1 if equal else the first differing flat position
long first_difference(const Arr& a, const Arr& b);

// index order helper: a canonical ext order
std::vector<sq::Index> sorted(std::vector<sq::Index> v);
std::string show(const sq::ExprPtr& e);
std::string show(const sq::Expr& e);
}  // namespace vf
