// C14: density fitting, tensor hypercontraction and CSV expansion replace every
// target tensor by its defining product and nothing else.
#include "common/gen.hpp"
#include "common/model.hpp"
#include "common/report.hpp"
#include "common/setup.hpp"
#include <SeQuant/core/expr.hpp>
#include <SeQuant/domain/mbpt/rules/csv.hpp>
#include <SeQuant/domain/mbpt/rules/df.hpp>
#include <SeQuant/domain/mbpt/rules/thc.hpp>
using namespace vf;
using namespace sequant;
namespace {
bool nonzero(const Arr& a) { for (auto& z : a.data) if (!z.zero()) return true; return false; }
ExprPtr prod(Constant::scalar_type c, const std::vector<ExprPtr>& v) { auto p = std::make_shared<Product>(); p->scale(c); for (auto& x : v) p->append(1, x, Product::Flatten::No); return p; }
ExprPtr sum(ExprPtr a, ExprPtr b) { std::vector<ExprPtr> v{a, b}; return std::make_shared<Sum>(v.begin(), v.end()); }
using Rule = std::function<ExprPtr(const Tensor&)>;   // null: keep
// the definition: every target tensor replaced where it stands, all new indices fresh
ExprPtr define(const ExprPtr& e, const Rule& f) {
  if (e->is<Tensor>()) { auto x = f(e->as<Tensor>()); return x ? x : e->clone(); }
  if (e->is<Sum>()) { std::vector<ExprPtr> v; for (auto& x : *e) v.push_back(define(x, f)); return std::make_shared<Sum>(v.begin(), v.end()); }
  if (e->is<Product>()) { std::vector<ExprPtr> v; for (auto& x : *e) v.push_back(define(x, f)); return prod(e->as<Product>().scalar(), v); }
  return e->clone();
}
void judge(Rng& r, Reporter& rep, const std::string& what, const ExprPtr& in, const ExprPtr& def, const std::function<ExprPtr(ExprPtr)>& f, const std::vector<Index>& ext, const ModelParams& mp,
           const std::function<bool(const Tensor&)>& target) {
  auto text = show(in); rep.sample(what, text); ExprPtr out;
  try { out = f(in); } catch (std::exception& x) { rep.violation("throws:" + what, what + " threw " + x.what() + " on " + text); return; }
  if (show(in) != text) { rep.violation("aliasing:" + what, what + " changed its argument " + text); return; }
  Model m(r.next(), mp); Arr a, b;
  { Evaluator ev(m); try { a = ev.eval(def, ext); } catch (EvalError& x) { rep.count(std::string("skipped:") + x.what()); throw Discard{}; } }
  rep.count("compared:" + what); rep.count("values_compared"); if (nonzero(a)) { rep.count("nonzero:" + what); rep.distinct("nontrivial", hstr(what + text)); }
  auto same = [&](const ExprPtr& o, const std::string& how) {
    Evaluator ev(m); try { b = ev.eval(o, ext); } catch (EvalError& x) { rep.violation("malformed:" + how, how + ": " + x.what() + "\n  input  " + text + "\n  output " + show(o)); return false; }
    long d = first_difference(a, b); if (d >= 0) { rep.violation("value:" + how, how + ": element " + std::to_string(d) + " differs from the definition\n  input  " + text + "\n  output " + show(o)); return false; } return true; };
  if (!same(out, what)) return;
  long left = 0; out->visit([&](const ExprPtr& x) { if (x->is<Tensor>()) left += target(x->as<Tensor>()); }, true); if (out->is<Tensor>()) left += target(out->as<Tensor>());
  if (left) { rep.violation("left:" + what, what + " left a target tensor\n  input  " + text + "\n  output " + show(out)); return; }
  auto o2 = out->clone(); try { simplify(o2); } catch (std::exception& x) { rep.violation("throws:simplify", std::string("simplify of the result threw ") + x.what() + "\n  " + show(out)); return; }
  rep.count("simplified"); same(o2, what + "+simplify");
}
Tensor relabel(const Tensor& t, const std::wstring& l) { return Tensor(l, bra(t.bra().value()), ket(t.ket().value()), aux(t.aux().value()), t.symmetry(), t.braket_symmetry(), t.column_symmetry()); }
// a sum of products in which every tensor matching `is` carries the label l
ExprPtr workload(Rng& r, Gen& g, Names& n, const Ext& e, int terms, int tens, const std::function<std::wstring(const Tensor&)>& lab) {
  std::vector<ExprPtr> v;
  for (int k = 0; k < terms; ++k) {
    auto f = g.network_tensors(e, n, r.range(1, tens)); std::vector<ExprPtr> w;
    for (auto& x : f) { if (!x->is<Tensor>()) { w.push_back(x); continue; } auto l = lab(x->as<Tensor>()); w.push_back(l.empty() ? x : ex<Tensor>(relabel(x->as<Tensor>(), l))); }
    if (r.chance(1, 4)) w.insert(w.begin() + r((int)w.size() + 1), ex<Variable>(L"z"));
    if (w.size() == 1 && r.chance(1, 2)) v.push_back(w[0]); else v.push_back(prod(g.scalar(), w));
  }
  return v.size() == 1 ? v[0] : ExprPtr(std::make_shared<Sum>(v.begin(), v.end()));
}
}  // namespace

int main(int argc, char** argv) {
  Suite s("C14"); setup_sr();
  ModelParams mp; mp.per_type_spin = 1; mp.max_extra = 1; mp.per_type = {{1, 1}, {8, 1}};
  auto two_body = [](const Tensor& t) { return t.bra_net_rank() == 2 && t.ket_net_rank() == 2 && t.bra_rank() == 2 && t.ket_rank() == 2 && t.aux_rank() == 0; };
  auto pick = [](Rng& r, GenParams& p) { p.spaces = {L"i", L"a"}; p.n_labels = r.range(1, 3); p.max_tensors = r.range(1, 4); p.max_dummies = 6; p.allow_bksymm = r.chance(1, 4); if (r.chance(1, 2)) { p.aux_spaces = {L"x"}; p.max_aux_dummies = 2; } };
  for (int thc = 0; thc < 2; ++thc)
    s.add(thc ? "thc" : "df", thc ? 1500 : 2500, thc ? 60000 : 100000, [&, thc](Rng& r, long, Reporter& rep) {
      GenParams p; pick(r, p); if (thc) p.max_tensors = r.range(1, 3); Gen g(r, p); Names n; int k = r.chance(1, 2) ? 2 : r(3); auto e = g.externals(n, k, k, p.aux_spaces.empty() ? 0 : r(2));
      int ng = 0, most = thc ? 2 : 3; bool all = r.chance(1, 2);
      auto in = workload(r, g, n, e, r.range(1, 3), p.max_tensors, [&](const Tensor& t) -> std::wstring { return two_body(t) && ng < most && (all || r.chance(2, 3)) ? ++ng, L"g" : !two_body(t) && r.chance(1, 4) ? rep.count("other_ranks"), L"g" : L""; });
      if (!ng) throw Discard{}; rep.count("targets", ng);
      // with auxiliary indices of the same space already there, or of another one
      auto isr = get_default_context().index_space_registry(); std::wstring as = p.aux_spaces.empty() ? r.pick(std::vector<std::wstring>{L"x", L"m"}) : r.chance(2, 3) ? L"x" : L"m"; if (as == L"x" && !p.aux_spaces.empty()) rep.count("auxiliary_space_in_use"); auto A = isr->retrieve(as);
      long c = 50; auto fresh = [&] { return Index(A, ++c); };
      auto target = [&](const Tensor& t) { return t.label() == L"g" && two_body(t); };
      auto B = [](Index b, Index k, Index x) { return ex<Tensor>(L"B", bra({b}), ket({k}), aux({x}), Symmetry::Nonsymm, Hermiticity::Hermitian); };
      auto one = [](Index b, bool isbra, Index x) { return isbra ? ex<Tensor>(L"B", bra({b}), ket(), aux({x})) : ex<Tensor>(L"B", bra(), ket({b}), aux({x})); };
      auto def = define(in, [&](const Tensor& t) -> ExprPtr {
        if (!target(t)) return nullptr; auto p = t.bra()[0], q = t.bra()[1], u = t.ket()[0], v = t.ket()[1];
        auto term = [&](Index b1, Index b2, int sign) { Index x = fresh(); if (!thc) return prod(sign, {B(b1, u, x), B(b2, v, x)}); Index y = fresh();
          return prod(sign, {one(b1, true, x), one(u, false, x), ex<Tensor>(L"Z", bra(), ket(), aux({x, y})), one(b2, true, y), one(v, false, y)}); };
        if (t.symmetry() == Symmetry::Antisymm) { rep.count("antisymmetric_targets"); return sum(term(p, q, 1), term(q, p, -1)); } return term(p, q, 1); });
      judge(r, rep, thc ? "tensor_hypercontract" : "density_fit", in, def, [&](ExprPtr x) { return thc ? mbpt::tensor_hypercontract(x, A, L"g", L"B", L"Z") : mbpt::density_fit(x, A, L"g", L"B"); }, sorted(e.all()), mp, target);
    });
  s.add("csv", 2500, 100000, [&](Rng& r, long, Reporter& rep) {
    GenParams p; pick(r, p); p.proto = true; Gen g(r, p); Names n; int k = r.range(1, 2); auto e = g.externals(n, k, k);
    auto has = [](const Tensor& t) { for (auto& i : t.const_braket_indices()) if (i.has_proto_indices()) return true; return false; };
    int ng = 0; auto in = workload(r, g, n, e, r.range(1, 3), p.max_tensors, [&](const Tensor& t) -> std::wstring { for (auto& i : t.aux()) if (i.has_proto_indices()) return L""; if (r.chance(1, 3)) return L""; if (has(t)) ++ng; if (t.bra_rank() == 1 && t.ket_rank() == 1 && t.aux_rank() == 0 && r.chance(1, 2)) return L"s"; return r.chance(1, 2) ? L"g" : L"f"; });
    if (!ng) throw Discard{}; rep.count("targets", ng); auto isr = get_default_context().index_space_registry(); auto A = isr->retrieve(L"a"); long c = 50;
    auto target = [&](const Tensor& t) { return (t.label() == L"g" || t.label() == L"f" || t.label() == L"s") && has(t); };
    auto def = define(in, [&](const Tensor& t) -> ExprPtr {
      if (!target(t)) return nullptr; std::vector<Index> b, k; std::vector<ExprPtr> f;
      if (t.label() == L"s") {  // the basis is orthonormal: overlaps become products of coefficients
        auto i = t.bra()[0], j = t.ket()[0]; rep.count("overlaps"); if (!i.has_proto_indices() || !j.has_proto_indices()) return ex<Tensor>(L"C", bra({i}), ket({j}));
        Index x(A, ++c); return prod(1, {ex<Tensor>(L"C", bra({i}), ket({x})), ex<Tensor>(L"C", bra({x}), ket({j}))}); }
      for (auto& i : t.bra()) if (i.has_proto_indices()) { Index x(A, ++c); f.push_back(ex<Tensor>(L"C", bra({i}), ket({x}), aux({}))); b.push_back(x); rep.count("csv_slots"); } else b.push_back(i);
      for (auto& i : t.ket()) if (i.has_proto_indices()) { Index x(A, ++c); f.push_back(ex<Tensor>(L"C", bra({x}), ket({i}), aux({}))); k.push_back(x); rep.count("csv_slots"); } else k.push_back(i);
      f.push_back(ex<Tensor>(t.label(), bra(b), ket(k), t.aux(), t.symmetry(), t.braket_symmetry(), t.column_symmetry())); return prod(1, f); });
    judge(r, rep, "csv_transform", in, def, [&](ExprPtr x) { return mbpt::csv_transform(x, A); }, sorted(e.all()), mp, target);
  });
  // several rules in a row, in one auxiliary space
  s.add("chain", 8000, 200000, [&](Rng& r, long, Reporter& rep) {
    GenParams p; pick(r, p); p.max_tensors = r.range(2, 3); Gen g(r, p); Names n; int k = r.chance(1, 2) ? 2 : r(3); auto e = g.externals(n, k, k, p.aux_spaces.empty() ? 0 : r(2));
    int ng = 0, nh = 0; auto in = workload(r, g, n, e, r.range(1, 3), p.max_tensors, [&](const Tensor& t) -> std::wstring { if (!two_body(t) || ng + nh > 3) return L""; return r.chance(1, 2) ? ++ng, L"g" : (++nh, L"h"); });
    if (!ng || !nh) throw Discard{}; auto A = get_default_context().index_space_registry()->retrieve(L"x"); long c = 50;
    auto rule = [&](std::wstring from, std::wstring to) -> Rule { return [&, from, to](const Tensor& t) -> ExprPtr {
      if (t.label() != from || !two_body(t)) return nullptr; auto one = [&](Index a, Index b, Index x) { return ex<Tensor>(to, bra({a}), ket({b}), aux({x}), Symmetry::Nonsymm, Hermiticity::Hermitian); };
      auto term = [&](int a, int b, int sign) { Index x(A, ++c); return prod(sign, {one(t.bra()[a], t.ket()[0], x), one(t.bra()[b], t.ket()[1], x)}); };
      return t.symmetry() == Symmetry::Antisymm ? sum(term(0, 1, 1), term(1, 0, -1)) : term(0, 1, 1); }; };
    auto def = define(define(in, rule(L"g", L"B")), rule(L"h", L"D")); int how = r(3);
    judge(r, rep, "chain", in, def, [&](ExprPtr x) { if (how == 1) { x = mbpt::density_fit(x, A, L"h", L"D"); return expand(mbpt::density_fit(x, A, L"g", L"B")); } x = mbpt::density_fit(x, A, L"g", L"B"); if (how == 2) expand(x); return mbpt::density_fit(x, A, L"h", L"D"); },
          sorted(e.all()), mp, [&](const Tensor& t) { return (t.label() == L"g" || t.label() == L"h") && two_body(t); });
  });
  return s.main(argc, argv);
}
