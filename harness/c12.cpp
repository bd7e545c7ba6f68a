// C12: integrating out spin preserves the value of every expression.
#include "common/evalx.hpp"
#include "common/gen.hpp"
#include "common/model.hpp"
#include "common/report.hpp"
#include "common/setup.hpp"
#include <SeQuant/core/expressions/result_expr.hpp>
#include <SeQuant/core/reserved.hpp>
#include <SeQuant/core/utility/expr.hpp>
#include <SeQuant/core/utility/indices.hpp>
#include <SeQuant/domain/mbpt/convention.hpp>
#include <SeQuant/domain/mbpt/spin.hpp>
#include <numeric>
using namespace vf;
using namespace sequant;
namespace {
using V = std::vector<Index>;
std::wstring wl(const Tensor& t) { return std::wstring(t.label()); }
// spin-orbital value of a spin-conserving tensor: sum over permutations of a direct tensor
void install(Model& m, bool spin_dependent) {
  m.hook = [&m, spin_dependent](const Tensor& t, const std::vector<u64>& bra, const std::vector<u64>& ket, const std::vector<u64>& aux, Z& out) {
    auto l = wl(t); if (l == reserved::kronecker_label() || l == reserved::overlap_label()) return false;
    auto slot = [&](u64 c) { return spin_dependent ? c : c >> 2; };
    auto direct = [&](const std::vector<std::size_t>& p) {
      std::vector<u64> b, k; for (std::size_t q = 0; q < bra.size(); ++q) { if ((bra[p[q]] & 3) != (ket[q] & 3)) return Z(0); b.push_back(slot(bra[p[q]])); k.push_back(slot(ket[q])); }
      return m.raw(hstr(l), b, k, aux, Symmetry::Nonsymm, t.braket_symmetry(), t.column_symmetry());
    };
    if (bra.size() != ket.size()) throw EvalError("rank");
    std::vector<std::size_t> p(bra.size()); std::iota(p.begin(), p.end(), 0);
    if (t.symmetry() != Symmetry::Antisymm) { out = direct(p); return true; }
    out = Z(0);
    do { int inv = 0; for (std::size_t a = 0; a < p.size(); ++a) for (std::size_t b = a + 1; b < p.size(); ++b) inv += p[a] > p[b]; auto d = direct(p); out += inv % 2 ? -d : d; } while (std::next_permutation(p.begin(), p.end()));
    return true;
  };
}
struct Opt { bool allow_A = true, all_A = false, allow_ext = true, mixed_ext = true, nonsymm_columns = true, aux = true; int maxcol = 4, maxext = 3; };
struct Input {
  V x, y, aux; bool A = false; std::vector<std::pair<ExprPtr, bool>> terms; ExprPtr expr;   // terms without the antisymmetrizer, and whether it acts on them
  V ext() const { V v; for (std::size_t k = 0; k < x.size(); ++k) { v.push_back(x[k]); v.push_back(y[k]); } for (auto& a : aux) v.push_back(a); return v; }
  Tensor Aop() const { return Tensor(reserved::antisymm_label(), bra(y), ket(x), sequant::aux{}, Symmetry::Antisymm); }
};
Input make(Rng& r, const Opt& o) {
  Input in; int e = o.allow_ext ? r(o.maxext + 1) : 0; in.A = o.all_A || (o.allow_A && e && r.chance(1, 2)); if (o.all_A && !e) e = r.range(1, o.maxext);
  const std::vector<std::wstring> sp{L"i", L"a"}; int ord = 1;
  auto fresh = [&](const std::wstring& s) { return Index(s + L"_" + std::to_wstring(ord++)); };
  auto sx = r.pick(sp), sy = r.pick(sp);
  if (in.A) { bool f = r.chance(1, 2); for (int k = 1; k <= e; ++k) { auto n = L"_" + std::to_wstring(k); in.x.push_back(Index((f ? L"i" : L"a") + n)); in.y.push_back(Index((f ? L"a" : L"i") + n)); } ord = e + 1; }
  else for (int k = 0; k < e; ++k) { bool mix = !in.A && o.mixed_ext && r.chance(1, 2); in.x.push_back(fresh(mix ? r.pick(sp) : sx)); in.y.push_back(fresh(mix ? r.pick(sp) : sy)); }
  int nt = r.range(1, 3); std::map<std::wstring, std::tuple<int, Symmetry, BraKetSymmetry, ColumnSymmetry>> kinds;
  for (int q = 0; q < nt; ++q) {
    int n = r.range(std::max(1, e), std::max(e, o.maxcol)); std::vector<int> ranks; for (int left = n; left;) { int k = r.range(1, std::min(left, 3)); ranks.push_back(k); left -= k; }
    V b(n), k(n); std::vector<int> pb(n), pk(n); std::iota(pb.begin(), pb.end(), 0); std::iota(pk.begin(), pk.end(), 0); r.shuffle(pb); r.shuffle(pk);
    for (int c = 0; c < e; ++c) { b[pb[c]] = in.x[c]; k[pk[c]] = in.y[c]; }
    int first = r.chance(1, 3) ? 1 : 0;
    for (int c = e; c < n; ++c) { auto i = fresh(r.chance(1, 12) ? L"p" : r.pick(sp)); (void)first; b[pb[c]] = i; k[pk[c]] = i; }
    std::vector<ExprPtr> f; int at = 0; Index K;
    bool df = o.aux && r.chance(1, 8) && ranks.size() > 1; if (df) K = fresh(L"\u039a");
    for (std::size_t t = 0; t < ranks.size(); ++t) {
      int rk = ranks[t]; std::wstring l; std::tuple<int, Symmetry, BraKetSymmetry, ColumnSymmetry> kind; bool ax = df && t < 2;
      for (int tr = 0;; ++tr) { l = std::wstring(1, L"FGTVW"[r(5)]) + std::to_wstring(rk) + (ax ? L"x" : L"") + (tr > 3 ? std::to_wstring(r(100)) : L""); auto it = kinds.find(l);
        if (it == kinds.end()) { auto s = r.chance(2, 3) && rk > 1 && !ax ? Symmetry::Antisymm : Symmetry::Nonsymm; kind = {rk, s, r.pick(std::vector<BraKetSymmetry>{BraKetSymmetry::Nonsymm, BraKetSymmetry::Nonsymm, BraKetSymmetry::Conjugate, BraKetSymmetry::Symm}), s == Symmetry::Antisymm || !o.nonsymm_columns || r.chance(2, 3) ? ColumnSymmetry::Symm : ColumnSymmetry::Nonsymm}; kinds.emplace(l, kind); break; }
        if (std::get<0>(it->second) == rk) { kind = it->second; break; } }
      V tb(b.begin() + at, b.begin() + at + rk), tk(k.begin() + at, k.begin() + at + rk); at += rk;
      f.push_back(ex<Tensor>(l, bra(tb), ket(tk), ax ? sequant::aux(V{K}) : sequant::aux(V{}), std::get<1>(kind), std::get<2>(kind), std::get<3>(kind)));
    }
    if (r.chance(1, 5)) f.push_back(ex<Variable>(r.chance(1, 2) ? L"α" : L"ω"));
    auto c = r.chance(1, 3) ? Constant::scalar_type(1) : Constant::scalar_type(rational(r.range(-5, 5) ? r.range(1, 5) : 7, r.range(1, 4)));
    auto bare = make_product(f, c); bool a = in.A && (o.all_A || r.chance(4, 5));
    in.terms.emplace_back(bare, a);
  }
  bool any = false; for (auto& t : in.terms) any |= t.second; if (in.A && !any) in.A = false;
  std::vector<ExprPtr> l;
  for (auto& [bare, a] : in.terms) {
    if (a) { auto p = std::make_shared<Product>(); p->scale(bare->as<Product>().scalar()); p->append(1, ex<Tensor>(in.Aop()), Product::Flatten::No); for (auto& q : bare->as<Product>()) p->append(1, q->clone(), Product::Flatten::No); l.push_back(p); }
    else { auto b = bare->clone(); if (b->as<Product>().size() == 1 && b->as<Product>().scalar() == 1 && r.chance(1, 2)) { auto q = b->as<Product>().factor(0)->clone(); bool traced = false; if (q->is<Tensor>()) for (auto& i : q->as<Tensor>().bra()) traced |= std::ranges::count(q->as<Tensor>().ket(), i) > 0; if (!traced) b = q; } l.push_back(b); }
  }
  in.expr = l.size() == 1 ? l[0] : ExprPtr(std::make_shared<Sum>(l.begin(), l.end()));
  return in;
}
// dense arrays over external slots
struct Dn { std::vector<int> dims; std::vector<Z> d; };
long at(const std::vector<int>& dims, const std::vector<int>& c) { long k = 0; for (std::size_t q = 0; q < dims.size(); ++q) k = k * dims[q] + c[q]; return k; }
void each(const std::vector<int>& dims, const std::function<void(const std::vector<int>&)>& f) { std::vector<int> c(dims.size(), 0); long n = 1; for (int x : dims) n *= x; for (long k = 0; k < n; ++k) { f(c); for (int q = (int)dims.size() - 1; q >= 0; --q) { if (++c[q] < dims[q]) break; c[q] = 0; } } }
Dn dense(const Arr& a) { return {a.dims, a.data}; }
void add(Dn& a, const Dn& b) { if (a.d.empty()) { a = b; return; } for (std::size_t k = 0; k < a.d.size(); ++k) a.d[k] += b.d[k]; }
int sign_of(const std::vector<int>& p) { int inv = 0; for (std::size_t a = 0; a < p.size(); ++a) for (std::size_t b = a + 1; b < p.size(); ++b) inv += p[a] > p[b]; return inv % 2 ? -1 : 1; }
Z inv_fact(int n) { Z f(1); for (int k = 2; k <= n; ++k) f = f * Z(k); return f.inv(); }
// average over permutations of the positions listed in each group (signed or not); groups permuted independently
Dn symmetrize(const Dn& a, const std::vector<std::vector<int>>& pos, bool anti) {
  Dn cur = a;
  for (auto& g : pos) {
    Dn o{a.dims, std::vector<Z>(a.d.size(), Z(0))}; std::vector<int> p(g.size()); std::iota(p.begin(), p.end(), 0);
    do { int s = anti ? sign_of(p) : 1; each(a.dims, [&](const std::vector<int>& c) { auto d = c; for (std::size_t q = 0; q < g.size(); ++q) d[g[q]] = c[g[p[q]]]; auto v = cur.d[at(a.dims, d)]; o.d[at(a.dims, c)] += s < 0 ? -v : v; }); } while (std::next_permutation(p.begin(), p.end()));
    auto f = inv_fact((int)g.size()); for (auto& z : o.d) z = z * f; cur = o;
  }
  return cur;
}
Dn sym_pairs(const Dn& a, int n) {   // permutes (x,y) pairs
  Dn o{a.dims, std::vector<Z>(a.d.size(), Z(0))}; std::vector<int> p(n); std::iota(p.begin(), p.end(), 0);
  do each(a.dims, [&](const std::vector<int>& c) { auto d = c; for (int q = 0; q < n; ++q) { d[2 * q] = c[2 * p[q]]; d[2 * q + 1] = c[2 * p[q] + 1]; } o.d[at(a.dims, c)] += a.d[at(a.dims, d)]; }); while (std::next_permutation(p.begin(), p.end()));
  auto f = inv_fact(n); for (auto& z : o.d) z = z * f; return o;
}
// value of the spin-orbital input
Dn value(Evaluator& ev, const Input& in, Rng*, long* work) {
  Dn plain, anti;
  for (auto& [t, a] : in.terms) add(a ? anti : plain, dense(ev.eval(t, in.ext())));
  int n = (int)in.x.size();
  if (!anti.d.empty()) { std::vector<int> px, py; for (int k = 0; k < n; ++k) { px.push_back(2 * k); py.push_back(2 * k + 1); } anti = symmetrize(anti, {px, py}, true); add(plain, anti); }
  if (work) *work += (long)plain.d.size();
  return plain;
}
// restricts the external groups to given spins; spin<0: sum over both
Dn restrict(const Dn& v, const std::vector<int>& spin) {
  int n = (int)spin.size(); Dn o; for (std::size_t q = 0; q < v.dims.size(); ++q) o.dims.push_back((int)q < 2 * n ? v.dims[q] / 2 : v.dims[q]);
  long tot = 1; for (int x : o.dims) tot *= x; o.d.assign(tot, Z(0));
  for (int m = 0; m < (1 << n); ++m) { bool ok = true; for (int k = 0; k < n; ++k) ok &= spin[k] < 0 || spin[k] == ((m >> k) & 1); if (!ok) continue;
    each(o.dims, [&](const std::vector<int>& c) { auto d = c; for (int k = 0; k < 2 * n; ++k) d[k] = 2 * c[k] + ((m >> (k / 2)) & 1); o.d[at(o.dims, c)] += v.d[at(v.dims, d)]; }); }
  return o;
}
// evaluates an output that may carry a leading symmetrizer
Dn output(Evaluator& ev, const ExprPtr& e, const V& ext, int n) {
  std::vector<ExprPtr> l; if (e->is<Sum>()) for (auto& t : e->as<Sum>().summands()) l.push_back(t); else l.push_back(e);
  Dn plain, symm;
  for (auto& t : l) {
    bool s = false; ExprPtr u = t; V names = ext;
    if (t->is<Product>()) { auto p = std::make_shared<Product>(); p->scale(t->as<Product>().scalar()); for (auto& f : t->as<Product>()) { if (f->is<Tensor>() && f->as<Tensor>().label() == reserved::symm_label()) { auto& S = f->as<Tensor>(); if (s || (int)S.bra_rank() != n || (int)S.ket_rank() != n) throw EvalError("symmetrizer rank"); s = true; for (int k = 0; k < n; ++k) { names[2 * k] = S.ket()[k]; names[2 * k + 1] = S.bra()[k]; } } else p->append(1, f, Product::Flatten::No); } if (s) u = p; }
    if (u->is<Constant>() && u->as<Constant>().is_zero()) continue;
    add(s ? symm : plain, dense(ev.eval(u, names)));
  }
  if (!symm.d.empty()) add(plain, sym_pairs(symm, n));
  return plain;
}
bool equal(const Dn& want, const Dn& got) { if (got.d.empty()) return std::ranges::all_of(want.d, [](const Z& z) { return z == Z(0); }); return want.d == got.d; }
ModelParams params(bool spins) { ModelParams p; p.spins = spins; p.per_type_spin = 2; p.spinless_if_unmarked = true; return p; }
using Groups = container::svector<container::svector<Index>>;
using SGroups = container::svector<container::svector<SlottedIndex>>;
Groups groups(const Input& in) { Groups g; for (std::size_t k = 0; k < in.x.size(); ++k) g.push_back({in.x[k], in.y[k]}); return g; }
SGroups sgroups(const Input& in, Rng& r) { SGroups g; for (std::size_t k = 0; k < in.x.size(); ++k) { SlottedIndex a{in.x[k], SlotType::Bra}, b{in.y[k], SlotType::Ket}; g.push_back({a, b}); } (void)r; return g; }
struct Models { Model so, sf; Evaluator eso, esf; Models(u64 seed, bool dep) : so(seed, params(true)), sf(seed, params(false)), eso(so), esf(sf) { install(so, dep); install(sf, false); } };
void note(Reporter& rep, const Input& in, const Dn& v) {
  rep.count("values_compared", (long)v.d.size()); bool z = std::ranges::all_of(v.d, [](const Z& z) { return z == Z(0); }); if (!z) { rep.distinct("nontrivial", hstr(show(in.expr))); rep.count(in.x.size() > 2 ? "rank3" : in.x.size() == 2 ? "rank2" : "rank01"); if (in.A) rep.count("with_antisymmetrizer"); } else rep.count("zero_values");
}
Dn val(Models& m, const Input& in) { try { return value(m.eso, in, nullptr, nullptr); } catch (EvalError&) { throw Discard{}; } }
void free_of_spin(Rng& r, Reporter& rep, bool closed) {
  Opt o; auto in = make(r, o); Models m(r.next(), false); auto v = val(m, in); auto want = restrict(v, std::vector<int>(in.x.size(), -1));
  std::string d = "  " + show(in.expr) + "\n"; bool full = r.chance(1, 3);
  guarded(rep, closed ? "closed" : "spintrace", d, [&] {
    auto e = in.expr->clone(); ExprPtr res;
    if (in.x.empty() && r.chance(1, 2)) res = closed ? mbpt::closed_shell_spintrace(e, {}, full) : mbpt::spintrace(e, {});
    else if (r.chance(1, 2)) res = closed ? mbpt::closed_shell_spintrace(e, groups(in), full) : mbpt::spintrace(e, groups(in));
    else res = closed ? mbpt::closed_shell_spintrace(e, sgroups(in, r), full) : mbpt::spintrace(e, sgroups(in, r));
    rep.count(full ? "full_expansion" : "partial_expansion");
    if (r.chance(1, 3)) { simplify(res); rep.count("simplified"); }
    auto got = output(m.esf, res, in.ext(), (int)in.x.size()); note(rep, in, want);
    if (!equal(want, got)) rep.violation(closed ? "closed:value" : "spintrace:value", "the spin-free result differs (full=" + std::to_string(full) + ")\n" + d + "  result: " + show(res).substr(0, 3000));
  });
}
V spin_ext(const Input& in, const std::vector<int>& s) { V v; for (std::size_t k = 0; k < in.x.size(); ++k) for (auto* i : {&in.x[k], &in.y[k]}) v.push_back(s[k] ? mbpt::make_spinbeta(*i) : mbpt::make_spinalpha(*i)); for (auto& a : in.aux) v.push_back(a); return v; }
void open(Rng& r, Reporter& rep) {
  Opt o; auto in = make(r, o); Models m(r.next(), true); auto v = val(m, in); int n = (int)in.x.size(); std::string d = "  " + show(in.expr) + "\n";
  guarded(rep, "open", d, [&] {
    std::optional<int> target; if (r.chance(1, 3)) target = r(n + 1);
    auto e = in.expr->clone(); auto res = !n && r.chance(1, 2) ? mbpt::open_shell_spintrace(e, {}, target) : r.chance(1, 2) ? mbpt::open_shell_spintrace(e, groups(in), target) : mbpt::open_shell_spintrace(e, sgroups(in, r), target);
    if ((int)res.size() != (target ? 1 : n + 1)) { rep.violation("open:cases", "wrong number of spin cases\n" + d); return; }
    for (int c = 0; c <= n; ++c) { if (target && *target != c) continue; std::vector<int> s(n, 0); for (int k = n - c; k < n; ++k) s[k] = 1; auto want = restrict(v, s); auto& x = res[target ? 0 : c]; auto got = output(m.eso, x, spin_ext(in, s), n); note(rep, in, want); rep.count("spin_cases");
      if (!equal(want, got)) { rep.violation("open:value", "spin case " + std::to_string(c) + " differs\n" + d + "  result: " + show(x).substr(0, 3000)); return; } }
  });
}
// indices that occur once in a term, with the slot they are in
std::set<std::pair<Index, bool>> free_slots(const ExprPtr& e) {
  std::set<std::pair<Index, bool>> out; std::vector<ExprPtr> l; if (e->is<Sum>()) for (auto& t : e->as<Sum>().summands()) l.push_back(t); else l.push_back(e);
  for (auto& t : l) { std::map<Index, std::pair<int, bool>> cnt; auto f = [&](const ExprPtr& z) { if (!z->is<Tensor>()) return; for (auto& i : z->as<Tensor>().bra()) { ++cnt[i].first; cnt[i].second = true; } for (auto& i : z->as<Tensor>().ket()) { ++cnt[i].first; cnt[i].second = false; } }; if (t->is_atom()) f(t); else t->visit(f, true);
    for (auto& [i, c] : cnt) if (c.first == 1) out.emplace(i, c.second); }
  return out;
}
void open_cc(Rng& r, Reporter& rep) {
  Opt o; bool energy = r.chance(1, 4); o.all_A = !energy; o.allow_ext = !energy; o.allow_A = !energy; auto in = make(r, o); Models m(r.next(), true); auto v = val(m, in); int n = (int)in.x.size(); std::string d = "  " + show(in.expr) + "\n";
  if (!in.expr->is<Sum>() && !in.expr->is<Product>()) throw Discard{};
  guarded(rep, "open_cc", d, [&] {
    auto res = mbpt::open_shell_CC_spintrace(in.expr->clone());
    if ((int)res.size() != n + 1) { rep.violation("open_cc:cases", "wrong number of spin cases\n" + d); return; }
    for (int c = 0; c <= n; ++c) {
      std::vector<int> s(n, 0); for (int k = n - c; k < n; ++k) s[k] = 1; auto want = restrict(v, s); auto ext = spin_ext(in, s);
      if (n > 2) {   // beyond doubles the external indices are renamed: take their names from the result
        std::map<std::pair<std::wstring, bool>, std::set<Index>> names; auto key = [](const Index& i, bool) { return std::make_pair(std::wstring(i.space().base_key()), true); };
        auto free = free_slots(res[c]); for (auto& [i, b] : free) names[key(i, b)].insert(i);
        bool ok = true; std::map<std::pair<std::wstring, bool>, std::size_t> used, want_n; for (std::size_t q = 0; q < (std::size_t)2 * n; ++q) ++want_n[key(ext[q], q % 2 == 0)];
        for (auto& [k, l] : names) ok &= want_n.count(k) && want_n[k] == l.size();
        if (!ok) { rep.violation("open_cc:externals", "the terms of spin case " + std::to_string(c) + " do not agree on the external indices\n" + d + "  result: " + show(res[c]).substr(0, 3000)); return; }
        if (!names.empty()) for (std::size_t q = 0; q < (std::size_t)2 * n; ++q) { auto k = key(ext[q], q % 2 == 0); auto it = names[k].begin(); std::advance(it, used[k]++); if (*it != ext[q]) rep.count("externals_renamed"); ext[q] = *it; }
      }
      auto got = output(m.eso, res[c], ext, n);
      if (n > 1 && !got.d.empty()) { std::vector<std::vector<int>> g(4); for (int k = 0; k < n; ++k) { g[2 * s[k]].push_back(2 * k); g[2 * s[k] + 1].push_back(2 * k + 1); } got = symmetrize(got, g, true); }   // what the result leaves to the antisymmetrizer of like spins
      note(rep, in, want); rep.count("cc_spin_cases");
      if (!equal(want, got)) { rep.violation("open_cc:value", "spin case " + std::to_string(c) + " differs\n" + d + "  result: " + show(res[c]).substr(0, 3000)); return; } }
  });
}
void labelled(Rng& r, Reporter& rep) {
  Opt o; o.allow_ext = false; auto in = make(r, o); Models m(r.next(), true); auto want = val(m, in); std::string d = "  " + show(in.expr) + "\n";
  guarded(rep, "labelled", d, [&] { auto res = mbpt::spintrace(in.expr->clone(), {}, false); auto got = output(m.eso, res, {}, 0); note(rep, in, want); if (!equal(want, got)) rep.violation("labelled:value", "the spin-labelled trace differs\n" + d + "  result: " + show(res).substr(0, 3000));
    auto sw = mbpt::swap_spin(res); bool dep = false; (void)dep;
    Models f(r.next(), false); auto a = output(f.eso, res, {}, 0), b = output(f.eso, sw, {}, 0); rep.count("swapped"); if (!(a.d == b.d)) rep.violation("swap_spin", "flipping every spin changes a closed-shell value\n" + d);
    auto rs = mbpt::remove_spin(res); (void)rs; });
}
// ResultExpr overloads: one result per pairing of external spaces
void result(Rng& r, Reporter& rep, bool closed) {
  Opt o; o.allow_A = false; o.nonsymm_columns = false; o.maxext = 3; auto in = make(r, o); int n = (int)in.x.size(); if (!n) throw Discard{};
  Models m(r.next(), false); auto v = val(m, in); bool anti = n > 1 && r.chance(2, 3); std::vector<int> px, py; for (int k = 0; k < n; ++k) { px.push_back(2 * k); py.push_back(2 * k + 1); }
  auto is_same = [](const V& v) { return std::ranges::all_of(v, [&](const Index& i) { return i.space() == v[0].space(); }); };
  std::string d = "  " + show(in.expr) + "\n";
  // an antisymmetric result needs an antisymmetric expression: antisymmetrize explicitly over both bundles
  if (anti) {
    std::vector<ExprPtr> l; std::vector<int> p(n), q(n); std::iota(p.begin(), p.end(), 0);
    do { std::iota(q.begin(), q.end(), 0); do { container::map<Index, Index> mp; for (int k = 0; k < n; ++k) { mp.emplace(in.x[k], in.x[p[k]]); mp.emplace(in.y[k], in.y[q[k]]); }
      // only legal if the spaces agree or tensors accept any space: all do
      for (auto& [t, a] : in.terms) { auto c = t->clone(); c->visit([&](ExprPtr& z) { if (z->is<Tensor>()) { auto& tt = z->as<Tensor>(); tt.transform_indices(mp); tt.reset_tags(); } }, true); l.push_back(ex<Constant>(sign_of(p) * sign_of(q)) * c); } } while (std::next_permutation(q.begin(), q.end())); } while (std::next_permutation(p.begin(), p.end()));
    in.expr = std::make_shared<Sum>(l.begin(), l.end()); try { v = dense(m.eso.eval(in.expr, in.ext())); } catch (EvalError&) { throw Discard{}; }
  }
  guarded(rep, "result", d, [&] {
    ResultExpr re(Tensor(L"R", bra(in.x), ket(in.y), aux{}, anti ? Symmetry::Antisymm : Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, anti ? ColumnSymmetry::Symm : ColumnSymmetry::Nonsymm), in.expr->clone());
    auto res = closed ? mbpt::closed_shell_spintrace(re) : mbpt::spintrace(re);
    std::set<std::multiset<std::pair<std::wstring, std::wstring>>> want_pairs, got_pairs; auto key = [](const Index& i) { return std::wstring(i.space().base_key()); };
    { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); bool all = anti && !is_same(in.x) && !is_same(in.y); do { std::multiset<std::pair<std::wstring, std::wstring>> s; for (int k = 0; k < n; ++k) s.emplace(key(in.x[p[k]]), key(in.y[k])); want_pairs.insert(s); } while (all && std::next_permutation(p.begin(), p.end())); }
    for (auto& x : res) {
      auto& b = x.bra(); auto& k = x.ket(); std::multiset<std::pair<std::wstring, std::wstring>> s; std::vector<int> p; V ext;
      for (int q = 0; q < n; ++q) { s.emplace(key(b[q]), key(k[q])); p.push_back((int)(std::ranges::find(in.x, b[q]) - in.x.begin())); int pk = (int)(std::ranges::find(in.y, k[q]) - in.y.begin()); if (pk != q) { rep.violation("result:slots", "the ket of the result was permuted\n" + d); return; } ext.push_back(b[q]); ext.push_back(k[q]); }
      if (!got_pairs.insert(s).second) rep.violation("result:duplicate", "one pairing of external spaces occurs twice\n" + d);
      if (x.symmetry() != Symmetry::Nonsymm) rep.violation("result:symmetry", "a traced result claims symmetry\n" + d);
      // V[b.., y..] as an array over the new pairs, signed
      Dn w; for (int q = 0; q < n; ++q) { w.dims.push_back(v.dims[2 * p[q]]); w.dims.push_back(v.dims[2 * q + 1]); } w.d.resize(v.d.size());
      each(w.dims, [&](const std::vector<int>& c) { std::vector<int> o(2 * n); for (int q = 0; q < n; ++q) { o[2 * p[q]] = c[2 * q]; o[2 * q + 1] = c[2 * q + 1]; } auto z = v.d[at(v.dims, o)]; w.d[at(w.dims, c)] = sign_of(p) < 0 ? -z : z; });
      auto want = restrict(w, std::vector<int>(n, -1)); auto got = output(m.esf, x.expression(), ext, n); note(rep, in, want); rep.count("results_traced");
      if (!equal(want, got)) { rep.violation("result:value", "a traced result differs\n" + d + "  result: " + show(x.expression()).substr(0, 2000)); return; }
    }
    rep.count("pairings", (long)got_pairs.size());
    if (got_pairs != want_pairs) rep.violation("result:pairings", "the traced results do not cover the pairings of external spaces: " + std::to_string(got_pairs.size()) + " of " + std::to_string(want_pairs.size()) + "\n" + d);
  });
}
void expand_anti(Rng& r, Reporter& rep) {
  Opt o; auto in = make(r, o); if (in.A) throw Discard{}; Models m(r.next(), true); auto v = val(m, in); int n = (int)in.x.size(); std::string d = "  " + show(in.expr) + "\n";
  guarded(rep, "expand_antisymm", d, [&] {
    // spins for every index
    container::map<Index, Index> mp; std::vector<int> s; for (int k = 0; k < n; ++k) { s.push_back(r(2)); for (auto* i : {&in.x[k], &in.y[k]}) mp.emplace(*i, s[k] ? mbpt::make_spinbeta(*i) : mbpt::make_spinalpha(*i)); }
    for (auto& i : get_used_indices<container::set<Index, Index::LabelCompare>>(in.expr)) if (i.space().base_key() != L"\u039a") if (!mp.count(i)) mp.emplace(i, r.chance(1, 2) ? mbpt::make_spinbeta(i) : mbpt::make_spinalpha(i));
    auto e = mbpt::append_spin(in.expr->clone(), mp); e->visit([](ExprPtr& z) { if (z->is<Tensor>()) z->as<Tensor>().reset_tags(); }, true);
    bool skip = r.chance(1, 2); auto x = mbpt::expand_antisymm(e->clone(), skip); auto ext = spin_ext(in, s); auto want = dense(m.eso.eval(e, ext)), got = output(m.eso, x, ext, n); note(rep, in, want); rep.count("expanded");
    if (!equal(want, got)) rep.violation("expand_antisymm", "expanding antisymmetric tensors changes a value (skip=" + std::to_string(skip) + ")\n" + d + "  spins: " + show(e) + "\n  result: " + show(x).substr(0, 2000));
    bool left = false; x->visit([&](const ExprPtr& z) { if (z->is<Tensor>()) { auto& t = z->as<Tensor>(); left |= t.symmetry() == Symmetry::Antisymm && t.bra_rank() > 1 && !(skip && mbpt::ms_uniform_tensor(t)); } }, true);
    if (left) rep.violation("expand_antisymm:left", "an antisymmetric tensor is left\n" + d);
  });
}
}  // namespace
int main(int argc, char** argv) {
  setup_min_sr(); { auto isr = get_default_context().mutable_index_space_registry(); mbpt::add_df_spaces(isr); }
  Suite s("C12");
  s.add("spintrace", 250, 10000, [](Rng& r, long, Reporter& rep) { free_of_spin(r, rep, false); });
  s.add("closed", 400, 20000, [](Rng& r, long, Reporter& rep) { free_of_spin(r, rep, true); });
  s.add("open", 250, 10000, [](Rng& r, long, Reporter& rep) { open(r, rep); });
  s.add("open_cc", 150, 5000, [](Rng& r, long, Reporter& rep) { open_cc(r, rep); });
  s.add("labelled", 150, 5000, [](Rng& r, long, Reporter& rep) { labelled(r, rep); });
  s.add("result", 100, 5000, [](Rng& r, long, Reporter& rep) { result(r, rep, r.chance(1, 2)); });
  s.add("expand", 300, 10000, [](Rng& r, long, Reporter& rep) { expand_anti(r, rep); });
  return s.main(argc, argv);
}
