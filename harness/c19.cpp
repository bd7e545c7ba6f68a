// C19: degenerate and ill-formed inputs through the whole public interface.
// Every call either returns or throws an exception; what the sanitizers (or
// valgrind) see while it does so is the verdict. Values are not judged here.
#include "common/gen.hpp"
#include "common/mbptx.hpp"
#include "common/report.hpp"
#include "common/setup.hpp"
#include <SeQuant/core/asy_cost.hpp>
#include <SeQuant/core/eval/cache_manager.hpp>
#include <SeQuant/core/eval/eval_expr.hpp>
#include <SeQuant/core/eval/eval_node.hpp>
#include <SeQuant/core/export/export.hpp>
#include <SeQuant/core/export/itf.hpp>
#include <SeQuant/core/export/julia_tensor_operations.hpp>
#include <SeQuant/core/export/python_einsum.hpp>
#include <SeQuant/core/export/text_generator.hpp>
#include <SeQuant/core/expressions/result_expr.hpp>
#include <SeQuant/core/io/shorthands.hpp>
#include <SeQuant/core/optimize/common_subexpression_elimination.hpp>
#include <SeQuant/core/optimize/optimize.hpp>
#include <SeQuant/core/optimize/fusion.hpp>
#include <SeQuant/core/tensor_network.hpp>
#include <SeQuant/core/tensor_network/v1.hpp>
#include <SeQuant/core/tensor_network/v2.hpp>
#include <SeQuant/core/tensor_network/v3.hpp>
#include <SeQuant/core/utility/expr.hpp>
#include <SeQuant/core/utility/indices.hpp>
#include <SeQuant/core/wick.hpp>
#include <SeQuant/domain/mbpt/antisymmetrizer.hpp>
#include <SeQuant/domain/mbpt/convention.hpp>
#include <SeQuant/domain/mbpt/rdm.hpp>
#include <SeQuant/domain/mbpt/rules/csv.hpp>
#include <SeQuant/domain/mbpt/rules/df.hpp>
#include <SeQuant/domain/mbpt/rules/thc.hpp>
#include <SeQuant/domain/mbpt/spin.hpp>
#include <SeQuant/domain/mbpt/utils.hpp>
#include <SeQuant/domain/mbpt/vac_av.hpp>
#include <chrono>
#include <typeinfo>
using namespace vf;
using namespace sequant;
namespace {
using IV = std::vector<Index>;
// anything the constructors accept, well formed or not
struct Odd {
  Rng& r; int budget = 14;
  Index index() {
    static const std::vector<std::wstring> sp{L"i", L"a", L"p", L"i", L"a", L"x", L"\u039a"};
    if (r.chance(1, 25)) return Index{};   // the null index
    std::wstring l = r.pick(sp) + L"_" + std::to_wstring(r.chance(1, 20) ? r(2000) : r.range(1, 4));
    if (r.chance(1, 15)) { IV p{Index(L"i_" + std::to_wstring(r.range(1, 3)))}; if (r.chance(1, 2)) p.push_back(Index(L"i_" + std::to_wstring(r.range(4, 5)))); return Index(l, p); }
    if (r.chance(1, 20)) { Index i(l); return r.chance(1, 2) ? mbpt::make_spinalpha(i) : mbpt::make_spinbeta(i); }
    return Index(l);
  }
  IV indices(int n) { IV v; for (int k = 0; k < n; ++k) v.push_back(index()); return v; }
  ExprPtr tensor() {
    static const std::vector<std::wstring> lab{L"t", L"g", L"f", L"\u0393", L"\u03bb", L"S", L"A", L"P", L"\u03b4", L"s", L"\u00c2", L"\u015c", L"h", L"\u03ba", L"\u03b3", L"I", L"C"};
    auto s = r.pick(std::vector<Symmetry>{Symmetry::Nonsymm, Symmetry::Symm, Symmetry::Antisymm});
    auto b = r.pick(std::vector<BraKetSymmetry>{BraKetSymmetry::Nonsymm, BraKetSymmetry::Symm, BraKetSymmetry::Conjugate});
    auto c = r.pick(std::vector<ColumnSymmetry>{ColumnSymmetry::Nonsymm, ColumnSymmetry::Symm, ColumnSymmetry::Symm});
    int nb = r(4), nk = r.chance(2, 3) ? nb : r(4), na = r.chance(1, 4) ? r(3) : 0;
    return ex<Tensor>(r.pick(lab), bra(indices(nb)), ket(indices(nk)), aux(indices(na)), s, b, c);
  }
  ExprPtr nop() {
    int c = r(4), a = r.chance(2, 3) ? c : r(4);
    auto cv = indices(c), av = indices(a);
    auto v = r.pick(std::vector<Vacuum>{Vacuum::SingleProduct, Vacuum::Physical});
    return ex<FNOperator>(cre(cv), ann(av), v);
  }
  Constant::scalar_type scalar() {
    switch (r(6)) {
      case 0: return 0; case 1: return -1; case 2: return rational(r.range(-9, 9), r.range(1, 7));
      case 3: return Constant::scalar_type(rational(1, 2), rational(-2, 3));
      case 4: return rational(std::numeric_limits<std::int64_t>::max(), 3); default: return 1;
    }
  }
  ExprPtr atom() {
    switch (r(10)) {
      case 0: return ex<Constant>(scalar());
      case 1: { auto v = ex<Variable>(std::wstring(r.chance(1, 2) ? L"\u03b1" : L"x")); if (r.chance(1, 3)) v->as<Variable>().conjugate(); return v; }
      case 2: return ex<Power>(r.chance(1, 2) ? ex<Constant>(scalar()) : ex<Variable>(L"\u03b1"), rational(r.range(-2, 3), r.range(1, 2)));
      case 3: if (r.chance(1, 2)) return nop(); [[fallthrough]];
      default: return tensor();
    }
  }
  ExprPtr expr(int depth = 3) {
    if (--budget < 0 || depth == 0) return atom();
    switch (r(6)) {
      case 0: case 1: case 2: { auto p = std::make_shared<Product>(); p->scale(scalar()); int n = r(5); for (int k = 0; k < n; ++k) p->append(1, r.chance(1, 4) ? expr(depth - 1) : atom(), r.chance(1, 2) ? Product::Flatten::Yes : Product::Flatten::No); return p; }
      case 3: case 4: { std::vector<ExprPtr> v; int n = r(4); for (int k = 0; k < n; ++k) v.push_back(r.chance(1, 4) && k ? v[0]->clone() : expr(depth - 1)); return std::make_shared<Sum>(v.begin(), v.end()); }
      default: return atom();
    }
  }
};
// a well-formed core with one thing spoiled: reaches deeper than arbitrary input
ExprPtr nearly(Rng& r) {
  GenParams p; p.spaces = {L"i", L"a"}; p.powers = true; p.max_tensors = r.range(1, 5); p.proto = r.chance(1, 5); p.traces = r.chance(1, 5); if (r.chance(1, 4)) { p.aux_spaces = {L"x"}; p.max_aux_dummies = 2; }
  Names n; Gen g(r, p); int k = r(3); auto e = g.externals(n, k, k); ExprPtr x = r.chance(1, 2) ? g.network(e, n) : g.nested(e, n, 2);
  if (r.chance(1, 3)) { Odd o{r}; auto s = o.atom(); x = r.chance(1, 2) ? x * s : s * x; }
  if (r.chance(1, 4)) x = x + g.network(e, n);
  long atoms = 0; x->visit([&](const ExprPtr& y) { atoms += y->is<Tensor>(); }); if (atoms > 10) throw Discard{};  // optimization is exponential
  return x;
}
struct Binarizer { template <class T> EvalNode<EvalExpr> operator()(T const& e) const { return binarize<EvalExpr>(e); } };
struct Call { const char* name; std::function<void(Rng&, const ExprPtr&)> f; };
container::svector<container::svector<SlottedIndex>> groups(const ExprPtr& e) {
  container::svector<container::svector<SlottedIndex>> g; auto u = get_unique_indices(e);
  for (size_t k = 0; k < std::max(u.bra.size(), u.ket.size()); ++k) { container::svector<SlottedIndex> v; if (k < u.bra.size()) v.push_back(SlottedIndex(u.bra[k], SlotType::Bra)); if (k < u.ket.size()) v.push_back(SlottedIndex(u.ket[k], SlotType::Ket)); g.push_back(v); }
  return g;
}
ResultExpr result(const ExprPtr& e) {
  auto u = get_unique_indices(e); if (u.bra.empty() && u.ket.empty() && u.aux.empty()) return ResultExpr(Variable(L"R"), e->clone());
  return ResultExpr(Tensor(L"R", bra(u.bra), ket(u.ket), aux(u.aux), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm), e->clone());
}
bool small(const ExprPtr& e, int n) { int t = 0; e->visit([&](const ExprPtr& x) { if (x->is<Tensor>()) t += (int)x->as<Tensor>().rank() * 2 + 1; else if (x->is<FNOperator>()) t += (int)x->as<FNOperator>().rank() * 2; else ++t; }); return t < n; }
template <class C> void configure(C& c) {
  auto reg = get_default_context().index_space_registry();
  for (auto& s : *reg) { try {
    if constexpr (requires { c.set_shape(s, "3"); }) c.set_shape(s, "3");
    if constexpr (requires { c.set_dim(s, "3"); }) { c.set_dim(s, "3"); c.set_tag(s, "o"); }
    if constexpr (std::is_same_v<C, ItfContext>) { c.set_name(s, "N" + toUtf8(s.base_key())); c.set_tag(s, "t"); }
  } catch (std::exception&) {} }
}
template <class G, class C> void exported(const ExprPtr& e) {
  auto t = to_export_tree(result(e)); C c; configure(c); G g; export_expression(t, g, c); (void)g.get_generated_code();
}
std::vector<Call> calls() {
  return {
    {"canonicalize", [](Rng& r, const ExprPtr& e) { auto c = e->clone(); canonicalize(c); (void)to_latex(c); }},
    {"rapid-canonicalize", [](Rng&, const ExprPtr& e) { auto c = e->clone(); c->rapid_canonicalize(); }},
    {"simplify", [](Rng&, const ExprPtr& e) { auto c = e->clone(); simplify(c); (void)c->hash_value(); }},
    {"expand", [](Rng&, const ExprPtr& e) { auto c = e->clone(); expand(c); flatten(c); }},
    {"rapid-simplify", [](Rng&, const ExprPtr& e) { auto c = e->clone(); rapid_simplify(c); non_canon_simplify(c); }},
    {"adjoint", [](Rng&, const ExprPtr& e) { auto c = e->clone(); c->adjoint(); (void)c->hash_value(); }},
    {"latex", [](Rng&, const ExprPtr& e) { (void)to_latex(e); (void)to_latex_align(e, 2, 1); }},
    {"serialize", [](Rng&, const ExprPtr& e) { auto t = serialize(e); auto f = deserialize<ExprPtr>(t); (void)(*f == *e); (void)serialize(result(e)); }},
    {"compare", [](Rng& r, const ExprPtr& e) { Odd o{r}; auto f = r.chance(1, 2) ? e->clone() : o.expr(2); (void)(*e == *f); (void)(*e < *f); (void)(e->hash_value() == f->hash_value()); }},
    {"arithmetic", [](Rng& r, const ExprPtr& e) { Odd o{r}; auto f = o.atom(); auto c = e->clone(); auto s = c + f; auto p = c * f; auto d = c - f; c += f; c *= f; c -= f; (void)to_latex(s); (void)to_latex(p); (void)to_latex(d); (void)to_latex(c); }},
    {"iterate", [](Rng&, const ExprPtr& e) { long n = 0; for (auto& x : e->expr()) n += x->size(); e->visit([&](const ExprPtr& x) { n += x->is_atom(); }, true); for (auto& x : *e) n += x->is_cnumber(); }},
    {"indices", [](Rng&, const ExprPtr& e) { (void)get_used_indices(e); (void)get_unique_indices(e); (void)get_used_indices_with_counts(e); (void)external_indices(e); }},
    {"network-v3", [](Rng& r, const ExprPtr& e) { TensorNetworkV3 tn(e); (void)tn.create_graph(); tn.canonicalize({L"t", L"g"}); (void)tn.canonicalize_slots({L"t"}); }},
    {"network-v3-slots", [](Rng& r, const ExprPtr& e) { TensorNetworkV3 tn(e); (void)tn.canonicalize_slots({L"t"}); (void)tn.ext_indices(); }},
    {"network-v2", [](Rng& r, const ExprPtr& e) { TensorNetworkV2 tn(e); (void)tn.create_graph(); tn.canonicalize({L"t", L"g"}); }},
    {"network-v1", [](Rng& r, const ExprPtr& e) { TensorNetworkV1 tn(e); (void)tn.make_bliss_graph(); tn.canonicalize({L"t", L"g"}); }},
    {"optimize", [](Rng& r, const ExprPtr& e) { if (!small(e, 40)) return; OptimizeOptions o; o.reorder = r.chance(1, 2) ? ReorderSum::Reorder : ReorderSum::NoReorder; (void)optimize(e, o); }},
    {"binarize", [](Rng&, const ExprPtr& e) { auto t = binarize<EvalExpr>(e); (void)to_expr(t); (void)asy_cost(t, Flops{}); (void)linearize_eval_node(t); }},
    {"binarize-result", [](Rng&, const ExprPtr& e) { auto t = binarize<EvalExpr>(result(e)); (void)min_storage(t); auto cm = cache_manager(std::vector<decltype(t)>{t, t}); (void)cm.size_in_bytes(); }},
    {"cse", [](Rng&, const ExprPtr& e) { std::vector<EvalNode<EvalExpr>> v{binarize<EvalExpr>(result(e)), binarize<EvalExpr>(result(e))}; opt::eliminate_common_subexpressions(v, Binarizer{}); }},
    {"export-text", [](Rng&, const ExprPtr& e) { exported<TextGenerator<TextGeneratorContext>, TextGeneratorContext>(e); }},
    {"export-numpy", [](Rng&, const ExprPtr& e) { exported<NumPyEinsumGenerator, NumPyEinsumGeneratorContext>(e); }},
    {"export-julia", [](Rng&, const ExprPtr& e) { exported<JuliaTensorOperationsGenerator<>, JuliaTensorOperationsGeneratorContext>(e); }},
    {"export-itf", [](Rng&, const ExprPtr& e) { exported<ItfGenerator<ItfContext>, ItfContext>(e); }},
    {"spintrace", [](Rng& r, const ExprPtr& e) { if (!small(e, 24)) return; (void)mbpt::spintrace(e, groups(e), r.chance(1, 2)); }},
    {"closed-shell", [](Rng& r, const ExprPtr& e) { if (!small(e, 30)) return; (void)mbpt::closed_shell_spintrace(e, groups(e), r.chance(1, 2)); }},
    {"open-shell", [](Rng& r, const ExprPtr& e) { if (!small(e, 24)) return; auto g = groups(e); if (g.empty()) return; (void)mbpt::open_shell_spintrace(e, g); }},
    {"spin-helpers", [](Rng& r, const ExprPtr& e) { (void)mbpt::swap_spin(e); (void)mbpt::remove_spin(e); (void)mbpt::swap_bra_ket(e); (void)mbpt::expand_antisymm(e); container::map<Index, Index> m; for (auto& i : get_used_indices(e)) if (i.nonnull()) m.emplace(i, mbpt::make_spinalpha(i)); (void)mbpt::append_spin(e, m); }},
    {"antisymmetrizers", [](Rng& r, const ExprPtr& e) { if (!small(e, 30)) return; (void)mbpt::expand_A_op(e->clone()); (void)mbpt::expand_P_op(e->clone()); (void)mbpt::symmetrize_expr(e->clone()); (void)mbpt::S_maps(e->clone()); }},
    {"density-fit", [](Rng& r, const ExprPtr& e) { auto reg = get_default_context().index_space_registry(); auto s = reg->retrieve(L"x"); (void)mbpt::density_fit(e, s, L"g", L"B"); (void)mbpt::tensor_hypercontract(e, s, L"g", L"X", L"Z"); }},
    {"csv", [](Rng& r, const ExprPtr& e) { auto reg = get_default_context().index_space_registry(); (void)mbpt::csv_transform(e, reg->retrieve(L"p"), L"C", {L"f", L"g", L"t"}); }},
    {"rdm", [](Rng& r, const ExprPtr& e) { if (!small(e, 20)) return; (void)mbpt::decompositions::cumu_to_density(e->clone()); (void)mbpt::decompositions::cumu2_to_density(e->clone()); (void)mbpt::decompositions::cumu3_to_density(e->clone()); }},
    {"wick", [](Rng& r, const ExprPtr& e) { if (!small(e, 22)) return; auto c = e->clone(); FWickTheorem w{c}; w.full_contractions(r.chance(1, 2)).use_topology(r.chance(1, 2)); (void)w.compute(); }},
    {"vacuum-average", [](Rng& r, const ExprPtr& e) { if (!small(e, 20)) return; (void)mbpt::screen_vac_av(e->clone()); (void)mbpt::op::ref_av(e); }},
    {"lower", [](Rng& r, const ExprPtr& e) { auto c = mbpt::lower_to_tensor_form(e->clone()); simplify(c); }},
    {"replace", [](Rng& r, const ExprPtr& e) { auto c = e->clone(); Odd o{r}; std::vector<ExprPtr> all; e->visit([&](const ExprPtr& x) { all.push_back(x); }); replace(c, all.empty() ? e : r.pick(all), o.expr(1)); (void)to_latex(c); }},
    {"transform-indices", [](Rng& r, const ExprPtr& e) { container::map<Index, Index> m; Odd o{r}; for (auto& i : get_used_indices(e)) if (i.nonnull() && r.chance(1, 2)) m.emplace(i, o.index()); (void)transform_expr(e, m); }},
    {"result", [](Rng& r, const ExprPtr& e) { auto x = result(e); canonicalize(x); simplify(x); expand(x); (void)x.index_particle_grouping<std::pair<Index, Index>>(); (void)mbpt::closed_shell_spintrace(x); }},
    {"shared", [](Rng& r, const ExprPtr& e) { auto p = std::make_shared<Product>(); p->append(1, e, Product::Flatten::No); p->append(1, e, Product::Flatten::No); auto s = std::make_shared<Sum>(); s->append(p); s->append(e); ExprPtr c = s->clone(); expand(c); simplify(c); }},
  };
}
void drive(Rng& r, Reporter& rep, const ExprPtr& e, int n) {
  static const std::vector<Call> all = calls();
  rep.distinct("nontrivial", hstr(narrow([&] { try { return to_latex(e); } catch (std::exception&) { return std::wstring(L"?"); } }())));
  for (int q = 0; q < n; ++q) {
    auto& c = all[r((int)all.size())];
    auto t0 = std::chrono::steady_clock::now(); static const bool trace = getenv("VF_TRACE");
    if (trace) fprintf(stderr, "  %s %s\n", c.name, show(e).c_str());
    struct Slow { const char* n; decltype(t0) t; ~Slow() { auto d = std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count(); if (trace && d > 0.5) fprintf(stderr, "SLOW %s %f\n", n, d); } } slow{c.name, t0};
    try { c.f(r, e); rep.count("returned"); rep.count(std::string("ok_") + c.name); }
    catch (std::exception& x) { rep.count("refused"); rep.distinct("distinct_refusals", hstr(std::string(c.name) + std::string(x.what()).substr(0, 60))); }
    catch (...) { rep.violation("foreign-exception:" + std::string(c.name), "something that is no std::exception was thrown"); }
  }
}
}  // namespace

int main(int argc, char** argv) {
  setup_common();
  { auto isr = mbpt::make_sr_spaces(); mbpt::add_df_spaces(isr); setup_with(isr, Vacuum::SingleProduct, SPBasis::Spinor, CanonicalizationMethod::Topological); }
  Suite s("C19");
  s.add("odd", 3000, 200000, [](Rng& r, long, Reporter& rep) { ExprPtr e; try { Odd o{r}; e = o.expr(); } catch (std::exception&) { rep.count("refused_construction"); throw Discard{}; } drive(r, rep, e, 8); });
  s.add("nearly", 2500, 150000, [](Rng& r, long, Reporter& rep) { ExprPtr e; try { e = nearly(r); } catch (std::exception&) { rep.count("refused_construction"); throw Discard{}; } drive(r, rep, e, 8); });
  // operators and their products, also ones without any sense
  s.add("operators", 600, 30000, [](Rng& r, long, Reporter& rep) {
    ExprPtr e;
    try { PoolParams p; p.max_rank = 2; int n = r.range(1, 3); for (int k = 0; k < n; ++k) { auto o = r.chance(1, 4) ? Odd{r}.atom() : random_op(r, p).op; e = e ? (r.chance(1, 5) ? e + o : e * o) : o; } }
    catch (std::exception&) { rep.count("refused_construction"); throw Discard{}; }
    drive(r, rep, e, 5); });
  return s.main(argc, argv);
}
