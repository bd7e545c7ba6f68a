// Many-body operators of SeQuant/domain/mbpt and their matrices.
#pragma once
#include "gen.hpp"
#include "model.hpp"
#include "report.hpp"
#include "setup.hpp"
#include <SeQuant/core/expr.hpp>
#include <SeQuant/domain/mbpt/context.hpp>
#include <SeQuant/domain/mbpt/op.hpp>
#include <SeQuant/domain/mbpt/vac_av.hpp>
namespace vf {
namespace mb = sequant::mbpt;
using Fock = std::map<std::tuple<u64, u64, u64>, Z>;

// tensors that carry a reserved (projector) label are ordinary antisymmetric
// tensors here: give them a label the model does not interpret
inline sq::ExprPtr plain_labels(const sq::ExprPtr& e) {
  using namespace sequant;
  if (e->is<Tensor>()) {
    auto& t = e->as<Tensor>(); std::wstring l(t.label());
    for (auto& res : {reserved::antisymm_label(), reserved::symm_label()})
      if (l.rfind(res, 0) == 0) {
        l = L"Q" + l.substr(res.size());
        return ex<Tensor>(l, t.bra(), t.ket(), t.aux(), t.symmetry(), t.hermiticity(), t.column_symmetry());
      }
    return e;
  }
  if (e->is<Product>()) { auto p = std::make_shared<Product>(); p->scale(e->as<Product>().scalar()); for (auto& f : e->as<Product>().factors()) p->append(1, plain_labels(f), Product::Flatten::No); return p; }
  if (e->is<Sum>()) { std::vector<ExprPtr> v; for (auto& f : e->as<Sum>().summands()) v.push_back(plain_labels(f)); return std::make_shared<Sum>(v.begin(), v.end()); }
  return e;
}
inline sq::ExprPtr lowered(const sq::ExprPtr& e) {
  if (e->is<mb::op_t>()) return plain_labels(e->as<mb::op_t>().tensor_form());
  return plain_labels(mb::lower_to_tensor_form(const_cast<const sq::ExprPtr&>(e)));
}

struct OpSpec { std::string name; sq::ExprPtr op; };
struct PoolParams { bool conserving_only = false; int max_rank = 2; bool adjoints = true; bool projectors = true; bool general = true; bool primed = true; bool roots = false; };
inline OpSpec random_op(Rng& r, const PoolParams& p) {
  using namespace sequant;
  using mb::nₚ; using mb::nₕ;
  for (;;) {
    OpSpec s; int k = r.range(1, p.max_rank);
    auto nm = [&](const char* a, int x, int y = -1) { s.name = std::string(a) + std::to_string(x) + (y >= 0 ? "," + std::to_string(y) : ""); };
    auto uneven = [&](int& np, int& nh) { np = r.range(0, p.max_rank); nh = r.chance(1, 2) ? np : r.range(0, p.max_rank); return np + nh > 0; };
    int np, nh;
    auto norm = [&](int np, int nh) { (void)np; (void)nh; if (p.roots && np == nh && r.chance(1, 3)) { s.name = "root-"; return mb::Normalization::SquareRoot; } return r.chance(1, 8) ? (s.name = "bare-", mb::Normalization::Implicit) : mb::Normalization::Default; };
    switch (r(p.primed ? 12 : 9)) {
      case 0: if (!p.general) continue; nm("h", std::min(k, 2)); s.op = mb::op::h(std::min(k, 2)); break;
      case 1: if (!p.general) continue; nm("θ", k); s.op = mb::op::θ(k); break;
      case 2: case 3: nm("t", k); s.op = mb::op::t(k); break;
      case 4: nm("λ", k); s.op = mb::op::λ(k); break;
      case 5: if (p.conserving_only || !uneven(np, nh)) continue; { auto n = norm(np, nh); auto pre = s.name; nm("r", np, nh); s.name = pre + s.name; s.op = mb::op::r(nₚ(np), nₕ(nh), n); } break;
      case 6: if (p.conserving_only || !uneven(np, nh)) continue; { auto n = norm(np, nh); auto pre = s.name; nm("l", np, nh); s.name = pre + s.name; s.op = mb::op::l(nₚ(np), nₕ(nh), n); } break;
      case 7: if (!p.projectors) continue; nm("P", k); s.op = mb::op::P(nₚ(k), nₕ(k)); break;
      case 8: if (!p.projectors || p.conserving_only || !uneven(np, nh)) continue; nm("A", np, nh); s.op = mb::op::A(nₚ(np), nₕ(nh)); break;
      case 9: if (!p.general) continue; nm("h'", k); s.op = mb::op::Hʼ(k); break;
      case 10: nm("t'", k); s.op = mb::op::tʼ(k); break;
      case 11: nm("λ'", k); s.op = mb::op::λʼ(k); break;
    }
    if (p.adjoints && r.chance(1, 4)) { s.op = adjoint(s.op); s.name += "^+"; }
    return s;
  }
}

// sparse square matrices keyed by (row, column)
using Mat = std::map<std::pair<u64, u64>, Z>;
inline Mat mat(const Fock& f) { Mat m; for (auto& [k, z] : f) m[{std::get<1>(k), std::get<2>(k)}] = z; return m; }
inline Mat mul(const Mat& a, const Mat& b) {
  std::map<u64, std::vector<std::pair<u64, Z>>> rows; for (auto& [k, z] : b) rows[k.first].push_back({k.second, z});
  Mat m; for (auto& [k, z] : a) { auto it = rows.find(k.second); if (it != rows.end()) for (auto& [c, y] : it->second) m[{k.first, c}] += z * y; }
  for (auto it = m.begin(); it != m.end();) it = it->second.zero() ? m.erase(it) : std::next(it);
  return m;
}
inline Mat dagger(const Mat& a) { Mat m; for (auto& [k, z] : a) m[{k.second, k.first}] = z.conj(); return m; }
inline Fock dagger(const Fock& a) { Fock m; for (auto& [k, z] : a) m[{std::get<0>(k), std::get<2>(k), std::get<1>(k)}] = z.conj(); return m; }
}  // namespace vf
