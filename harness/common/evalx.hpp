// An exact tensor backend under the real evaluator, leaves with damage
// detection, and workloads of terms that share subexpressions.
#pragma once
#include "common/gen.hpp"
#include "common/model.hpp"
#include "common/report.hpp"
#include "common/setup.hpp"
#include <SeQuant/core/expr.hpp>
#include <SeQuant/core/eval/eval.hpp>
#include <SeQuant/core/eval/eval_expr.hpp>
#include <SeQuant/core/eval/cache_manager.hpp>
#include <SeQuant/core/optimize/optimize.hpp>
#include <unordered_map>
#include <SeQuant/core/io/shorthands.hpp>
#include <iostream>
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
using namespace vf;
using namespace sequant;
namespace {
using Lab = std::vector<std::wstring>;
// ---- the monitored tensor backend: exact arithmetic, dense, einsum by label
struct Ops { long sum = 0, prod = 0, perm = 0, add = 0, phase = 0, slice = 0, adj = 0; } OPS;
struct Dense { std::vector<int> dims; std::vector<Z> data; };
size_t vol(const std::vector<int>& d) { size_t s = 1; for (int x : d) s *= (size_t)x; return s; }
struct EinsumErr : std::runtime_error { using std::runtime_error::runtime_error; };
// out[labs] = sum over everything not in lo of l[ll] * r[lr]
Dense einsum(const Dense& l, const Lab& ll, const Dense& r, const Lab& lr, const Lab& lo) {
  Lab all; std::vector<int> dim;
  auto add = [&](const Lab& x, const std::vector<int>& d) {
    if (x.size() != d.size()) throw EinsumErr("annotation and data disagree on the number of modes");
    for (size_t k = 0; k < x.size(); ++k) {
      auto it = std::find(all.begin(), all.end(), x[k]);
      if (it == all.end()) { all.push_back(x[k]); dim.push_back(d[k]); }
      else if (dim[it - all.begin()] != d[k]) throw EinsumErr("extents of one index disagree");
    } };
  add(ll, l.dims); add(lr, r.dims);
  auto pos = [&](const std::wstring& s) { auto it = std::find(all.begin(), all.end(), s); if (it == all.end()) throw EinsumErr("a result index appears in no operand"); return (size_t)(it - all.begin()); };
  auto strides = [&](const Lab& x, const std::vector<int>& d) { std::vector<size_t> st(all.size(), 0); size_t s = 1; for (size_t k = x.size(); k-- > 0;) { st[pos(x[k])] += s; s *= d[k]; } return st; };
  Dense o; for (auto& x : lo) o.dims.push_back(dim[pos(x)]);
  o.data.assign(vol(o.dims), Z(0));
  auto sl = strides(ll, l.dims), sr = strides(lr, r.dims), so = strides(lo, o.dims);
  std::vector<int> v(all.size(), 0); size_t a = 0, b = 0, c = 0;
  if (l.data.empty() || r.data.empty()) return o;
  for (;;) {
    o.data[c] += l.data[a] * r.data[b];
    size_t k = 0;
    for (; k < all.size(); ++k) {
      if (++v[k] < dim[k]) { a += sl[k]; b += sr[k]; c += so[k]; break; }
      a -= sl[k] * (dim[k] - 1); b -= sr[k] * (dim[k] - 1); c -= so[k] * (dim[k] - 1); v[k] = 0;
    }
    if (k == all.size()) break;
  }
  return o;
}
class XT final : public Result {
 public:
  explicit XT(Dense d) : Result{std::move(d)} {}
  const Dense& d() const { return get<Dense>(); }
  ResultPtr sum(Result const& o, std::array<std::any, 3> const& an) const override {
    ++OPS.sum; Annot<Lab> a(an); Dense one; one.data = {Z(1)};
    Dense x = einsum(d(), a.lannot, one, {}, a.this_annot), y = einsum(o.as<XT>().d(), a.rannot, one, {}, a.this_annot);
    for (auto* p : {&a.lannot, &a.rannot}) if (p->size() != a.this_annot.size()) throw EinsumErr("a sum of tensors with different indices");
    if (x.dims != y.dims) throw EinsumErr("a sum of tensors of different shapes");
    for (size_t k = 0; k < x.data.size(); ++k) x.data[k] += y.data[k];
    return eval_result<XT>(std::move(x));
  }
  ResultPtr prod(Result const& o, std::array<std::any, 3> const& an, DeNest) const override {
    ++OPS.prod; Annot<Lab> a(an);
    Dense s;
    if (o.is<ResultScalar<Z>>()) { s.data = {o.as<ResultScalar<Z>>().value()}; return eval_result<XT>(einsum(d(), a.lannot, s, {}, a.this_annot)); }
    Dense r = einsum(d(), a.lannot, o.as<XT>().d(), a.rannot, a.this_annot);
    if (a.this_annot.empty()) return eval_result<ResultScalar<Z>>(r.data[0]);
    return eval_result<XT>(std::move(r));
  }
  ResultPtr permute(std::array<std::any, 2> const& an) const override {
    ++OPS.perm; auto pre = std::any_cast<Lab>(an[0]), post = std::any_cast<Lab>(an[1]);
    if (pre.size() != post.size()) throw EinsumErr("a permutation to a different number of modes");
    Dense one; one.data = {Z(1)}; return eval_result<XT>(einsum(d(), pre, one, {}, post));
  }
  ResultPtr adjoint(std::array<std::any, 2> const& an) const override {
    ++OPS.adj; auto pre = std::any_cast<Lab>(an[0]), post = std::any_cast<Lab>(an[1]);
    Dense one; one.data = {Z(1)}; auto x = einsum(d(), pre, one, {}, post); for (auto& z : x.data) z = z.conj();
    return eval_result<XT>(std::move(x));
  }
  ResultPtr slice_mode(std::size_t m, std::size_t lo, std::size_t hi) const override {
    ++OPS.slice; const Dense& s = d(); Dense o; o.dims = s.dims; o.dims.at(m) = (int)(hi - lo);
    size_t inner = 1, outer = 1; for (size_t k = m + 1; k < s.dims.size(); ++k) inner *= s.dims[k]; for (size_t k = 0; k < m; ++k) outer *= s.dims[k];
    for (size_t a = 0; a < outer; ++a) for (size_t j = lo; j < hi; ++j) for (size_t b = 0; b < inner; ++b) o.data.push_back(s.data[(a * s.dims[m] + j) * inner + b]);
    return eval_result<XT>(std::move(o));
  }
  container::svector<std::pair<std::size_t, std::size_t>> mode_batches(std::size_t m, std::size_t t) const override {
    container::svector<std::pair<std::size_t, std::size_t>> v; size_t n = d().dims.at(m); if (!t) t = 1;
    for (size_t a = 0; a < n; a += t) v.emplace_back(a, std::min(n, a + t));
    return v;
  }
  void add_inplace(Result const& o) override {
    ++OPS.add; auto& x = get<Dense>(); auto& y = o.as<XT>().d();
    if (x.dims != y.dims) throw EinsumErr("in-place addition of different shapes");
    for (size_t k = 0; k < x.data.size(); ++k) x.data[k] += y.data[k];
  }
  ResultPtr symmetrize() const override { throw EinsumErr("symmetrize"); }
  ResultPtr antisymmetrize(size_t) const override { throw EinsumErr("antisymmetrize"); }
  ResultPtr mult_by_phase(std::int8_t f) const override { ++OPS.phase; auto x = d(); for (auto& z : x.data) z *= Z((i64)f); return eval_result<XT>(std::move(x)); }
  std::size_t size_in_bytes() const override { return d().data.size() * sizeof(Z); }
 private:
  id_t type_id() const noexcept override { return id_for_type<XT>(); }
};
class EvalX final : public EvalExpr {
 public:
  template <typename... A, typename = std::enable_if_t<std::is_constructible_v<EvalExpr, A...>>>
  EvalX(A&&... a) : EvalExpr{std::forward<A>(a)...} { for (auto const& i : canon_indices()) annot_.emplace_back(i.full_label()); }
  Lab const& annot() const noexcept { return annot_; }
 private:
  Lab annot_;
};
using Node = FullBinaryNode<EvalX>;
static_assert(sequant::meta::can_evaluate<Node>);

// leaf values come from the model; a store shared by every evaluation (as in a
// real program), so that any in-place damage to it is observed
struct Leaves {
  Model* m; bool fresh = false; long calls = 0;
  std::function<Model*(const Tensor&)> pick;
  struct Slot { ResultPtr p; std::vector<Z> pristine; };
  std::map<std::wstring, Slot> store;
  ResultPtr operator()(Node const& n) {
    ++calls;
    std::wstring key;
    if (n->is_tensor()) { key = show_w(n); }
    else { auto u = show(n->expr()); key = L"#" + std::wstring(u.begin(), u.end()); }
    auto it = store.find(key);
    if (it == store.end()) {
      Model* mm = n->is_tensor() && pick ? pick(n->as_tensor()) : m; Evaluator ev(*mm);
      std::vector<Index> ext; if (n->is_tensor()) ext.assign(n->canon_indices().begin(), n->canon_indices().end());
      Arr a = ev.eval(n->expr()->clone(), ext);
      ResultPtr p; if (n->is_tensor()) p = eval_result<XT>(Dense{a.dims, a.data}); else p = eval_result<ResultScalar<Z>>(a.data.at(0));
      it = store.emplace(key, Slot{p, a.data}).first;
    }
    if (fresh) return n->is_tensor() ? eval_result<XT>(it->second.p->as<XT>().d()) : ResultPtr(eval_result<ResultScalar<Z>>(it->second.p->as<ResultScalar<Z>>().value()));
    return it->second.p;
  }
  static std::wstring show_w(Node const& n) {
    auto& t = n->as_tensor(); std::wstring s{t.label()}; for (auto& i : t.const_slots()) { s += L","; if (i.nonnull()) s += i.full_label(); }
    s += L"|"; for (auto& i : n->canon_indices()) { s += i.full_label(); s += L","; }
    s += std::to_wstring((int)t.symmetry()) + std::to_wstring((int)t.braket_symmetry()) + std::to_wstring(t.bra_rank()); return s;
  }
  bool damaged() const {
    for (auto& [k, s] : store) { if (s.p->is<XT>()) { if (s.p->as<XT>().d().data != s.pristine) return true; } else if (s.p->as<ResultScalar<Z>>().value() != s.pristine.at(0)) return true; }
    return false;
  }
};
struct LeafRef { Leaves* l; ResultPtr operator()(Node const& n) const { return (*l)(n); } };
std::vector<Z> data_of(const ResultPtr& r) { return r->is<XT>() ? r->as<XT>().d().data : std::vector<Z>{r->as<ResultScalar<Z>>().value()}; }
Lab labels(const std::vector<Index>& v) { Lab l; for (auto& i : v) l.emplace_back(i.full_label()); return l; }

// ---- workload: terms built from shared cores
struct World {
  Rng& r; Reporter& rep; GenParams gp; Names n; Gen g; Ext E; std::vector<Index> ext;
  struct Core { ExprPtr e; Ext x; };
  std::vector<Core> cores; bool sums, flat;
  World(Rng& r, Reporter& rep, GenParams p, bool sums) : r(r), rep(rep), gp(p), g(r, p), sums(sums) {}
  void init(int nb, int nk, int na, int ncores) {
    E = g.externals(n, nb, nk, na); ext = E.all();
    for (int k = 0; k < ncores; ++k) {
      Core c; c.x = g.externals(n, r(3), r(3), 0);
      if (c.x.bra.empty() && c.x.ket.empty()) c.x = g.externals(n, 1, 1, 0);
      GenParams sv = g.p; g.p.max_tensors = 3;
      if (sums && r.chance(1, 2)) {
        std::vector<ExprPtr> l; int m = r.range(2, 3);
        for (int q = 0; q < m; ++q) { g.p.max_tensors = r.range(1, 2); auto t = g.network(c.x, n, 1); t = drop_scalar(t); if (r.chance(1, 3)) t = ex<Product>(ExprPtrList{ex<Constant>(rational(r.range(-3, -1), 2)), t}); l.push_back(t); }
        c.e = std::make_shared<Sum>(l.begin(), l.end());
      } else c.e = drop_scalar(g.network(c.x, n, r.range(1, 3)));
      g.p = sv; cores.push_back(c);
    }
  }
  ExprPtr drop_scalar(ExprPtr e) {
    if (!e->is<Product>() || r.chance(1, 4)) return e;
    std::vector<ExprPtr> l; for (auto& f : e->as<Product>().factors()) l.push_back(f);
    if (l.empty()) return e;
    return l.size() == 1 ? l.front() : make_product(l, 1);
  }
  // rename every index of e: externals by m, the rest to fresh names
  using Map = std::map<Index, Index, Index::FullLabelCompare>;
  ExprPtr rename(const ExprPtr& x, Map& m, bool rev = false) {
    if (x->is<Tensor>()) {
      auto& t = x->as<Tensor>();
      auto f = [&](const Index& i) { auto it = m.find(i); if (it == m.end()) it = m.emplace(i, n.fresh(std::wstring(i.space().base_key()))).first; return it->second; };
      std::vector<Index> b, k, a; for (auto& i : t.bra()) b.push_back(f(i)); for (auto& i : t.ket()) k.push_back(f(i)); for (auto& i : t.aux()) a.push_back(f(i));
      return ex<Tensor>(std::wstring(t.label()), bra(b), ket(k), aux(a), t.symmetry(), t.braket_symmetry(), t.column_symmetry());
    }
    if (x->is<Product>()) { std::vector<ExprPtr> l; for (auto& f : x->as<Product>().factors()) l.push_back(rename(f, m, rev)); if (rev) std::reverse(l.begin(), l.end()); return make_product(l, x->as<Product>().scalar()); }
    if (x->is<Sum>()) {
      std::vector<ExprPtr> l; for (auto& f : x->as<Sum>().summands()) l.push_back(rename(f, m, rev));
      if (rev) std::reverse(l.begin(), l.end());
      return std::make_shared<Sum>(l.begin(), l.end());
    }
    return x->clone();
  }
  // a sum whose second summand has two like externals exchanged, or its sign flipped
  ExprPtr twist(const ExprPtr& x) {
    if (x->is<Product>()) { std::vector<ExprPtr> l; for (auto& f : x->as<Product>().factors()) l.push_back(twist(f)); return make_product(l, x->as<Product>().scalar()); }
    if (!x->is<Sum>()) return x;
    std::vector<ExprPtr> l; for (auto& f : x->as<Sum>().summands()) l.push_back(f);
    auto fr = free_of(l[0]); auto& v = fr[r(2)];
    size_t k = r((int)l.size());
    if (v.size() >= 2 && r.chance(3, 4)) {
      int a = r((int)v.size()), b = r((int)v.size());
      if (a != b && v[a].space() == v[b].space()) { Map m; auto id = [&](const Index& i) { m.emplace(i, i); }; each_index(l[k], id); m.erase(v[a]); m.erase(v[b]); m.emplace(v[a], v[b]); m.emplace(v[b], v[a]); l[k] = rename(l[k], m); }
    }
    return std::make_shared<Sum>(l.begin(), l.end());
  }
  static void each_index(const ExprPtr& x, const std::function<void(const Index&)>& f) { if (x->is<Tensor>()) { for (auto& i : x->as<Tensor>().const_indices()) f(i); } else if (!x->is_atom()) for (auto& c : *x) each_index(c, f); }
  // free bra and ket indices of a sum-free expression or of its first summand
  static std::array<std::vector<Index>, 2> free_of(const ExprPtr& x) {
    std::map<Index, std::pair<int, int>, Index::FullLabelCompare> c;
    std::function<void(const ExprPtr&)> go = [&](const ExprPtr& e) { if (e->is<Tensor>()) { for (auto& i : e->as<Tensor>().bra()) { ++c[i].first; } for (auto& i : e->as<Tensor>().ket()) { ++c[i].second; } } else if (e->is<Sum>()) go(e->as<Sum>().summand(0)); else if (!e->is_atom()) for (auto& f : *e) go(f); };
    go(x); std::array<std::vector<Index>, 2> o; for (auto& [i, n] : c) if (n.first + n.second == 1) o[n.first ? 0 : 1].push_back(i);
    return o;
  }
  ExprPtr term() {
    std::vector<Index> gb = E.bra, gk = E.ket, ga = E.aux; r.shuffle(gb); r.shuffle(gk);
    std::vector<ExprPtr> fs; std::vector<Index> wb, wk;
    int nc = r.chance(2, 3) ? 1 : 2;
    for (int c = 0; c < nc; ++c) {
      auto& C = cores[r((int)cores.size())];
      std::map<Index, Index, Index::FullLabelCompare> m;
      auto map = [&](const std::vector<Index>& from, std::vector<Index>& pool, std::vector<Index>& other) {
        for (auto& i : from) {
          auto it = std::find_if(pool.begin(), pool.end(), [&](const Index& j) { return j.space() == i.space(); });
          if (it != pool.end() && r.chance(2, 3)) { m.emplace(i, *it); pool.erase(it); }
          else { auto f = n.fresh(std::wstring(i.space().base_key())); m.emplace(i, f); other.push_back(f); }
        } };
      map(C.x.bra, gb, wk); map(C.x.ket, gk, wb);
      auto e = rename(C.e, m, r.chance(1, 3));   // sometimes the same core with its factors in another order
      if (r.chance(1, 3)) { e = twist(e); rep.count("sums_twisted"); }
      fs.push_back(e);
    }
    wb.insert(wb.end(), gb.begin(), gb.end()); wk.insert(wk.end(), gk.begin(), gk.end());
    if (!wb.empty() || !wk.empty() || !ga.empty()) fs.push_back(g.tensor(r(gp.n_labels), wb, wk, ga));
    if (r.chance(1, 4)) fs.push_back(r.chance(1, 2) ? ex<Variable>(L"ω") : ex<Constant>(rational(r.range(2, 4), 3)));
    r.shuffle(fs);
    auto p = std::make_shared<Product>();
    p->scale(r.chance(1, 2) ? Product::scalar_type(1) : g.scalar(true));
    for (auto& f : fs) p->append(1, f, flat || !f->is<Product>() ? Product::Flatten::Yes : Product::Flatten::No);
    return p;
  }
};
}  // namespace
namespace {
std::string desc(const std::vector<ExprPtr>& ts) { std::string s; for (auto& t : ts) s += "    " + show(t) + "\n"; return s; }
ResultExpr result_expr(const Ext& E, const ExprPtr& e) {
  if (E.all().empty()) return ResultExpr(Variable(L"E"), e);
  return ResultExpr(Tensor(L"R", bra(E.bra), ket(E.ket), aux(E.aux), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm), e);
}
std::vector<Z> permuted(const Arr& a, const std::vector<Index>& from, const std::vector<Index>& to) { Dense d{a.dims, a.data}, one; one.data = {Z(1)}; return einsum(d, labels(from), one, {}, labels(to)).data; }
std::vector<Z> plus(std::vector<Z> a, const std::vector<Z>& b) { if (a.empty()) return b; for (size_t k = 0; k < a.size(); ++k) a[k] += b[k]; return a; }
template <typename F> bool guarded(Reporter& rep, const char* sig, const std::string& d, F&& f) {
  try { f(); return true; }
  catch (Discard&) { throw; }
  catch (std::exception& e) { rep.violation(std::string("throws:") + sig, std::string(e.what()) + "\n" + d); return false; }
}
// one label stands for one tensor: no two bra/ket ranks share it
ExprPtr relabel(const ExprPtr& x) {
  if (x->is<Tensor>()) { auto& t = x->as<Tensor>(); return ex<Tensor>(std::wstring(t.label()) + std::to_wstring(t.bra_rank()) + std::to_wstring(t.ket_rank()), bra(t.bra()), ket(t.ket()), aux(t.aux()), t.symmetry(), t.braket_symmetry(), t.column_symmetry()); }
  if (x->is<Product>()) { std::vector<ExprPtr> l; for (auto& f : x->as<Product>().factors()) l.push_back(relabel(f)); return make_product(l, x->as<Product>().scalar()); }
  if (x->is<Sum>()) { std::vector<ExprPtr> l; for (auto& f : x->as<Sum>().summands()) l.push_back(relabel(f)); return std::make_shared<Sum>(l.begin(), l.end()); }
  return x->clone();
}
double tree_cost(const Node& t) {
  if (t.leaf()) return 1;
  std::set<std::wstring> u(t->annot().begin(), t->annot().end()); for (auto* c : {&t.left(), &t.right()}) u.insert((*c)->annot().begin(), (*c)->annot().end());
  double v = 1; for (size_t k = 0; k < u.size(); ++k) v *= 3;
  return v + tree_cost(t.left()) + tree_cost(t.right());
}
struct Forest {
  ExprPtr again(const ExprPtr& t) { World::Map m; for (auto& i : w.ext) m.emplace(i, i); return w.rename(t, m); }
  World w; std::vector<ExprPtr> terms; std::vector<Node> nodes; std::string d;
  Forest(Rng& r, Reporter& rep, GenParams gp, bool sums, int nb, int nk, int nterms, bool opt) : w(r, rep, gp, sums) {
    w.flat = !sums && r.chance(1, 2);
    w.init(nb, nk, 0, r.range(1, 2));
    for (int k = 0; k < nterms; ++k) { auto t = k && r.chance(1, 8) ? again(terms[r(k)]) : w.term(); terms.push_back(t); }
    for (auto& t : terms) t = relabel(t);
    for (auto& t : terms) { ExprPtr u = t->clone(); if (opt) u = optimize(u); guarded(rep, "binarize", "  " + show(u), [&] { nodes.push_back(binarize<EvalX>(result_expr(w.E, u))); }); }
    if (nodes.size() != terms.size()) throw Discard{};
    double c = 0; for (auto& t : nodes) c += tree_cost(t); if (c > 6e5) throw Discard{};
    d = "  terms\n" + desc(terms);
    if (opt) { d += "  optimized\n"; for (auto& t : nodes) d += "    " + show(to_expr(t)) + "\n"; }
  }
};
}  // namespace
