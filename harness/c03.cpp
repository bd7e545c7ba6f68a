// C03: slot canonicalization of tensor networks (what subexpression matching relies on):
// networks reported as equal are equal in value under the reported index order and phase,
// and networks that differ by renaming/reordering/slot symmetry are reported as equal.
#include "common/gen.hpp"
#include "common/model.hpp"
#include "common/report.hpp"
#include "common/setup.hpp"
#include <SeQuant/core/bliss.hpp>
#include <SeQuant/core/expr.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>
#include <SeQuant/core/tensor_network/v1.hpp>
#include <SeQuant/core/tensor_network/v2.hpp>
#include <SeQuant/core/tensor_network/v3.hpp>
using namespace vf;
using namespace sequant;
namespace {
using NamedSet = container::set<Index, Index::FullLabelCompare>;
std::string show(const std::vector<ExprPtr>& f) { return vf::show(make_product(f, Constant::scalar_type(1))); }
std::string show_idx(const std::vector<Index>& v) { std::string s; for (auto& i : v) s += toUtf8(i.full_label()) + " "; return s; }

struct Canon { std::vector<Index> idx; int phase; size_t hash; std::shared_ptr<bliss::Graph> graph; };
template <class TN>
Canon slots(const std::vector<ExprPtr>& f, const NamedSet* named) {
  std::vector<ExprPtr> c; for (auto& x : f) c.push_back(x->clone());
  TN tn(c);
  NamedSet n; if (named) for (auto& i : *named) n.insert(i);
  auto md = tn.canonicalize_slots(TensorCanonicalizer::cardinal_tensor_labels(), named ? &n : nullptr);
  Canon r; for (auto it : md.named_indices_canonical) r.idx.push_back(*it);
  r.phase = md.phase; r.hash = md.hash_value(); r.graph = md.graph;
  return r;
}
bool same_graph(const Canon& a, const Canon& b) { return a.graph->cmp(*b.graph) == 0 && a.idx.size() == b.idx.size(); }
bool zero(const Arr& a) { for (auto& z : a.data) if (!z.zero()) return false; return true; }

// rebuild `t` with other indices / label / symmetry
ExprPtr rebuilt(const Tensor& x, std::vector<Index> b, std::vector<Index> k, std::vector<Index> a, std::wstring label, Symmetry s) {
  container::svector<Index> B(b.begin(), b.end()), K(k.begin(), k.end()), X(a.begin(), a.end());
  return ex<Tensor>(label, bra(B), ket(K), aux(X), s, x.braket_symmetry(), s == Symmetry::Nonsymm ? x.column_symmetry() : ColumnSymmetry::Symm);
}
template <class R> std::vector<Index> vec(R&& r) { std::vector<Index> v; for (auto& i : r) v.push_back(i); return v; }

// a slightly different network; empty if the mutation does not apply
std::vector<ExprPtr> mutate(Rng& r, std::vector<ExprPtr> f, bool symm) {
  int what = r(4);
  if (what == 1 && !symm) what = 0;
  // (moving an index between tensors of which some treat bra and ket alike may leave the domain)
  if (what > 1) for (auto& t : f) if (t->as<Tensor>().braket_symmetry() == BraKetSymmetry::Symm) what = 0;
  int t = r((int)f.size()), u = r((int)f.size());
  auto& T = f[t]->as<Tensor>();
  auto b = vec(T.bra()), k = vec(T.ket()), a = vec(T.aux());
  std::wstring lab(T.label()); auto sy = T.symmetry();
  if (what == 0) {  // another name
    lab += L"x";
    f[t] = rebuilt(T, b, k, a, lab, sy); return f;
  }
  if (what == 1) {  // another symmetry
    sy = sy == Symmetry::Antisymm ? Symmetry::Symm : sy == Symmetry::Symm ? Symmetry::Nonsymm : Symmetry::Antisymm;
    f[t] = rebuilt(T, b, k, a, lab, sy); return f;
  }
  // exchange two indices between slots of one kind
  auto& U = f[u]->as<Tensor>();
  auto ub = vec(U.bra()), uk = vec(U.ket()), ua = vec(U.aux());
  int kind = r(3);
  auto& p = kind == 0 ? b : kind == 1 ? k : a;
  if (t == u) {
    if (p.size() < 2) return {};
    int i = r((int)p.size()), j = r((int)p.size()); if (i == j) return {};
    std::swap(p[i], p[j]);
    f[t] = rebuilt(T, b, k, a, lab, sy); return f;
  }
  auto& q = kind == 0 ? ub : kind == 1 ? uk : ua;
  if (p.empty() || q.empty()) return {};
  int i = r((int)p.size()), j = r((int)q.size());
  std::swap(p[i], q[j]);
  for (auto* v : {&p, &q}) for (size_t x = 0; x < v->size(); ++x) for (size_t y = 0; y < x; ++y) if ((*v)[x].full_label() == (*v)[y].full_label()) return {};
  auto nt = rebuilt(T, b, k, a, lab, sy), nu = rebuilt(U, ub, uk, ua, std::wstring(U.label()), U.symmetry());
  f[t] = nt; f[u] = nu;
  return f;
}

struct Case { GenParams p; int nb = 0, nk = 0, na = 0; bool protoext = false; bool extra_named = true, old = false; };

template <class TN>
void run(Rng& r, Reporter& rep, const Case& c, const ModelParams& mp) {
  Gen g(r, c.p); Names n; Ext e;
  if (c.protoext) { int k = r(3); for (int i = 0; i < k; ++i) { e.bra.push_back(n.fresh(L"i")); e.ket.push_back(n.fresh(L"i")); } }
  else e = g.externals(n, c.nb, c.nk, c.na);
  auto ext = e.all();
  Names mine = n;
  auto f = g.network_tensors(e, mine);
  // (the earlier implementations identify neither the unpaired slots of nonsymmetric tensors nor tensors of one name but different symmetry)
  if (c.old) {
    std::map<std::wstring, Symmetry> sy;
    for (auto& t : f) { auto& x = t->as<Tensor>(); if (x.symmetry() == Symmetry::Nonsymm && x.bra_rank() != x.ket_rank()) throw Discard{}; if (sy.emplace(std::wstring(x.label()), x.symmetry()).first->second != x.symmetry()) throw Discard{}; }
  }
  // names that are not summed: externals, possibly some dummies
  NamedSet named(ext.begin(), ext.end());
  bool dflt = true, hyper = false;
  if (c.protoext) dflt = false;
  if (c.extra_named && r.chance(1, 3)) {
    std::map<std::wstring, int> cnt; std::map<std::wstring, bool> prim; std::vector<Index> all;
    for (auto& t : f) for (auto& i : t->as<Tensor>().const_indices()) if (i.nonnull()) { if (!cnt[std::wstring(i.full_label())]++) all.push_back(i); }
    for (auto& i : all) if (!named.count(i) && r.chance(1, 4) && !i.has_proto_indices()) { named.insert(i); dflt = false; if (cnt[std::wstring(i.full_label())] > 2) hyper = true; }
  }
  if (hyper) rep.count("named_hyperindices");
  std::vector<Index> names(named.begin(), named.end());
  Canon A = slots<TN>(f, dflt ? nullptr : &named);
  if (A.idx.size() != named.size()) { rep.violation("index-list", "the canonical index list has " + std::to_string(A.idx.size()) + " entries for " + std::to_string(named.size()) + " named indices\n  network " + show(f) + "\n  list " + show_idx(A.idx)); return; }
  Model m(r.next(), mp); Evaluator ev(m);
  auto prodA = make_product(f, Constant::scalar_type(1));
  Arr va; try { va = ev.eval(prodA, A.idx); } catch (EvalError&) { throw Discard{}; }
  bool z = zero(va);
  rep.count("networks"); rep.distinct("nontrivial", hstr(show(f))); rep.sample("network", show(f));
  if (z) rep.count("zero_networks"); else rep.count(A.phase < 0 ? "phase_minus" : "phase_plus");
  rep.maximum("named indices", (double)named.size());

  auto check = [&](const std::vector<ExprPtr>& h, const NamedSet& hn, const char* sig) {
    Canon B = slots<TN>(h, dflt ? nullptr : &hn);
    if (!same_graph(A, B)) return false;
    if (A.hash != B.hash) rep.violation("hash-differs", "equal canonical graphs with different hashes\n  A " + show(f) + "\n  B " + show(h));
    Arr vb = ev.eval(make_product(h, Constant::scalar_type(1)), B.idx);
    bool bad = vb.dims != va.dims || vb.data.size() != va.data.size();
    for (size_t i = 0; !bad && i < va.data.size(); ++i) { Z x = va.data[i], y = vb.data[i]; if (A.phase * B.phase < 0) y = -y; if (x != y) bad = true; }
    if (bad) rep.violation(sig, std::string("networks with equal canonical graphs have different values\n  A ") + show(f) + "\n    order " + show_idx(A.idx) + " phase " + std::to_string(A.phase) + "\n  B " + show(h) + "\n    order " + show_idx(B.idx) + " phase " + std::to_string(B.phase));
    return true;
  };
  for (int k = 0; k < 3; ++k) {
    // everything renamed, reordered, slots permuted
    Names fr(r.chance(1, 2) ? 30 + 9 * k : 1);
    std::map<std::wstring, Index> ren;
    Scrambled s;
    bool rename_ext = r.chance(2, 3);
    if (rename_ext) {
      // rename in one go: every slot index gets a fresh name; the map is recovered from an unpermuted copy
      Rng r2 = r; Names fr2 = fr;
      auto plain = scramble(r2, f, {}, fr2, true, false, false);
      for (size_t t = 0; t < f.size(); ++t) {
        auto x = vec(f[t]->as<Tensor>().const_indices()), y = vec(plain.factors[t]->as<Tensor>().const_indices());
        for (size_t i = 0; i < x.size(); ++i) ren.emplace(std::wstring(x[i].full_label()), y[i]);
      }
      s = scramble(r, plain.factors, {}, fr2, false, true, true);
    } else { if (fr.first_ < 30) fr = Names(30 + 5 * k); s = scramble(r, f, names, fr); }
    NamedSet hn; for (auto& i : names) { auto it = ren.find(std::wstring(i.full_label())); hn.insert(it == ren.end() ? i : it->second); }
    rep.count("equivalent_pairs");
    if (!check(s.factors, hn, "wrong-map")) rep.violation("not-matched", "equivalent networks have different canonical graphs\n  A " + show(f) + "\n  B " + show(s.factors) + "\n  named " + show_idx(names));
    // near misses
    auto mu = mutate(r, s.factors, !c.old);
    if (mu.empty()) continue;
    try {
      rep.count("near_misses");
      if (check(mu, hn, "false-match")) rep.count("near_misses_equal"); else rep.count("near_misses_told_apart");
    } catch (EvalError&) { rep.count("near_misses_ill_formed"); }
  }
}
// canonicalizing a network preserves its value
template <class TN>
void whole(Rng& r, Reporter& rep, const Case& c, const ModelParams& mp) {
  Gen g(r, c.p); Names n; Ext e;
  if (c.protoext) { int k = r(3); for (int i = 0; i < k; ++i) { e.bra.push_back(n.fresh(L"i")); e.ket.push_back(n.fresh(L"i")); } }
  else e = g.externals(n, c.nb, c.nk, c.na);
  auto ext = e.all();
  auto f = g.network_tensors(e, n);
  Model m(r.next(), mp); Evaluator ev(m);
  Arr va; try { va = ev.eval(make_product(f, Constant::scalar_type(1)), ext); } catch (EvalError&) { throw Discard{}; }
  std::vector<ExprPtr> c2; for (auto& x : f) c2.push_back(x->clone());
  TN tn(c2);
  ExprPtr bp;
  if constexpr (TN::version() == 3) {
    auto o = CanonicalizeOptions::default_options().copy_and_set(r.pick(std::vector<CanonicalizationMethod>{CanonicalizationMethod::Topological, CanonicalizationMethod::Complete, CanonicalizationMethod::Rapid, CanonicalizationMethod::Lexicographic}));
    bp = tn.canonicalize(TensorCanonicalizer::cardinal_tensor_labels(), o);
  } else bp = tn.canonicalize(TensorCanonicalizer::cardinal_tensor_labels(), r.chance(1, 2));
  std::vector<ExprPtr> out;
  for (auto& t : tn.tensors()) { auto p = std::dynamic_pointer_cast<Expr>(t); if (!p) throw std::runtime_error("not an expression"); out.push_back(ExprPtr(p)); }
  for (size_t k = 0; k < out.size(); ++k) {
    size_t o = tn.tensor_input_ordinals().at(k);
    if (o >= f.size() || f[o]->as<Tensor>().label() != out[k]->as<Tensor>().label()) rep.violation("input-ordinals", "tensor_input_ordinals() does not give the positions of the input tensors: " + show(f) + " -> " + show(out));
  }
  Constant::scalar_type ph = bp ? bp->as<Constant>().value() : Constant::scalar_type(1);
  rep.count("networks"); rep.distinct("nontrivial", hstr(show(f)));
  Arr vb = ev.eval(make_product(out, ph), ext);
  if (first_difference(va, vb) >= 0) rep.violation("value-changed", "canonicalizing a network changes its value\n  in  " + show(f) + "\n  out " + vf::show(make_product(out, ph)));
}
}  // namespace

int main(int argc, char** argv) {
  Suite s("C03");
  setup_sr();
  ModelParams mp; mp.per_type_spin = 2; mp.max_extra = 1; mp.per_type = {{1, 1}, {8, 1}};
  auto plain = [](Rng& r) {
    Case c; c.p.spaces = {L"i", L"a"}; if (r.chance(1, 3)) c.p.spaces.push_back(L"p");
    c.p.n_labels = r.range(1, 3); c.p.max_tensors = r.range(1, 5); c.p.max_dummies = 6; c.p.traces = r.chance(1, 6);
    c.p.allow_bksymm = r.chance(1, 3); c.nb = r(4); c.nk = r(4); return c; };
  auto aux = [](Rng& r) {
    Case c; c.p.aux_spaces = {L"p", L"x"}; c.p.spaces = {L"i", L"a"}; c.p.max_aux_dummies = 3; c.p.max_dummies = 4; c.p.max_tensors = 4;
    c.p.n_labels = r.range(1, 2); c.nb = r(3); c.nk = r(3); c.na = r(3); return c; };
  auto proto = [](Rng& r) {
    Case c; c.p.spaces = {L"i", L"a"}; c.p.proto = true; c.p.max_dummies = 5; c.p.max_tensors = 4; c.p.n_labels = 2;
    c.protoext = true; return c; };
  // what the earlier implementations are documented and tested for: no auxiliary hyperindices, no swaps of bra and ket
  auto old = [plain](Rng& r) { auto c = plain(r); c.p.allow_bksymm = false; c.p.allow_colnonsymm = false; c.p.traces = false; c.extra_named = false; c.old = true; return c; };
  using T1 = TensorNetworkV1; using T2 = TensorNetworkV2; using T3 = TensorNetworkV3;
  s.add("slots", 5000, 150000, [&](Rng& r, long, Reporter& rep) { run<T3>(r, rep, plain(r), mp); });
  s.add("slots-aux", 1500, 40000, [&](Rng& r, long, Reporter& rep) { run<T3>(r, rep, aux(r), mp); });
  s.add("slots-proto", 3000, 80000, [&](Rng& r, long, Reporter& rep) { run<T3>(r, rep, proto(r), mp); });
  s.add("slots-v2", 1500, 40000, [&](Rng& r, long, Reporter& rep) { run<T2>(r, rep, old(r), mp); });
  s.add("slots-v1", 1500, 40000, [&](Rng& r, long, Reporter& rep) { run<T1>(r, rep, old(r), mp); });
  s.add("whole", 2000, 60000, [&](Rng& r, long, Reporter& rep) { auto c = r(3); whole<T3>(r, rep, c == 0 ? plain(r) : c == 1 ? aux(r) : proto(r), mp); });
  s.add("whole-v2", 1500, 40000, [&](Rng& r, long, Reporter& rep) { whole<T2>(r, rep, old(r), mp); });
  s.add("whole-v1", 1500, 40000, [&](Rng& r, long, Reporter& rep) { whole<T1>(r, rep, old(r), mp); });
  return s.main(argc, argv);
}
