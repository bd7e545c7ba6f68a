// C06: Wick's theorem reproduces the operator algebra.
#include "common/gen.hpp"
#include "common/model.hpp"
#include "common/report.hpp"
#include "common/setup.hpp"
#include <SeQuant/core/expr.hpp>
#include <SeQuant/core/wick.hpp>
#include <iostream>
using namespace vf;
using namespace sequant;
namespace {
using OV = Evaluator::OpVal;
using Conn = std::vector<std::pair<int, int>>;

// independent brute-force enumeration of complete contractions; every pair in
// `need` must be directly connected, no pair in `avoid` may be
Z all_pairings(const std::vector<std::vector<OV>>& nops, const Conn& need, const Conn& avoid) {
  struct O { int nop, orb; bool cre, occ; };
  std::vector<O> s;
  int sign = 1;
  for (int q = 0; q < (int)nops.size(); ++q) {
    // inside a normal operator ops commute up to sign; contraction never happens inside
    for (auto& o : nops[q]) s.push_back({q, o.orb, o.cre, o.occ});
  }
  (void)sign;
  int n = (int)s.size();
  if (n % 2) return Z(0);
  std::vector<char> used(n, 0);
  std::map<std::pair<int, int>, int> links;
  std::function<i64(int)> rec = [&](int left) -> i64 {
    if (left == 0) {
      for (auto& [a, b] : need) { auto it = links.find({std::min(a, b), std::max(a, b)}); if (it == links.end() || it->second == 0) return 0; }
      return 1;
    }
    int i = 0; while (used[i]) ++i;
    // s[i] is the leftmost remaining: it must be a quasi-annihilator
    if (s[i].cre != s[i].occ) return 0;
    used[i] = 1; i64 tot = 0; int between = 0;
    for (int j = i + 1; j < n; ++j) {
      if (used[j]) continue;
      bool ok = s[j].nop != s[i].nop && s[j].orb == s[i].orb && s[j].cre != s[i].cre && (s[j].cre != s[j].occ);
      if (ok) for (auto& [a, b] : avoid) if ((a == s[i].nop && b == s[j].nop) || (b == s[i].nop && a == s[j].nop)) ok = false;
      if (ok) {
        used[j] = 1; auto key = std::make_pair(std::min(s[i].nop, s[j].nop), std::max(s[i].nop, s[j].nop)); ++links[key];
        i64 sub = rec(left - 2);
        tot += (between & 1) ? -sub : sub;
        --links[key]; used[j] = 0;
      }
      ++between;
    }
    used[i] = 0;
    return tot;
  };
  // contractions never span one normal operator, where quasi-creators precede
  // quasi-annihilators: reorder each accordingly (with sign)
  int pos = 0;
  for (auto& nop : nops) {
    for (int a = 1; a < (int)nop.size(); ++a)
      for (int b = a; b > 0; --b) {
        auto qc = [](const O& o) { return o.cre != o.occ; };
        if (qc(s[pos + b]) && !qc(s[pos + b - 1])) { std::swap(s[pos + b], s[pos + b - 1]); sign = -sign; } else break;
      }
    pos += (int)nop.size();
  }
  return Z(sign * rec(n));
}

struct World {
  ModelParams mp; std::vector<std::wstring> sp; Vacuum vac; bool spinfree = false;
};
std::vector<int> all_modes(Model& m, const std::vector<std::wstring>& sp) {
  std::set<int> s;
  auto isr = get_default_context().index_space_registry();
  for (auto& l : sp) for (int o : m.orbitals(isr->retrieve(l))) s.insert(o);
  return {s.begin(), s.end()};
}
// restricts a Fock map to the vacuum expectation value
std::map<u64, Z> vev(const std::map<std::tuple<u64, u64, u64>, Z>& f, u64 v) {
  std::map<u64, Z> r; for (auto& [k, z] : f) if (std::get<1>(k) == v && std::get<2>(k) == v) r[std::get<0>(k)] = z; return r;
}
template <class M> bool same(const M& a, const M& b) { return a == b; }

using Str = std::vector<std::pair<std::vector<Index>, std::vector<Index>>>;  // (cre, ann) per normal operator
template <class NOP, class SEQ> ExprPtr sequence(const Str& s) {
  std::vector<NOP> v; for (auto& [c, a] : s) v.emplace_back(cre(c), ann(a));
  switch (v.size()) {
    case 1: return ex<SEQ>(SEQ{v[0]});
    case 2: return ex<SEQ>(SEQ{v[0], v[1]});
    case 3: return ex<SEQ>(SEQ{v[0], v[1], v[2]});
    case 4: return ex<SEQ>(SEQ{v[0], v[1], v[2], v[3]});
  }
  throw std::logic_error("sequence length");
}
template <class NOP> ExprPtr product_of(const Str& s, const std::vector<ExprPtr>& pre = {}) {
  auto p = std::make_shared<Product>();
  for (auto& t : pre) p->append(1, t->clone(), Product::Flatten::No);
  for (auto& [c, a] : s) p->append(1, ex<NOP>(cre(c), ann(a)), Product::Flatten::No);
  return p;
}
std::string show(const Str& s) { std::string r; for (auto& [c, a] : s) { r += "{"; for (auto& i : c) r += narrow(i.full_label()) + "+ "; for (auto& i : a) r += narrow(i.full_label()) + " "; r += "}"; } return r; }

// number of creators minus annihilators kept zero so that results do not vanish trivially
Str random_string(Rng& r, Names& n, const World& w, int maxops, int maxnops, bool balanced_each) {
  for (;;) {
    Str s; int k = r.range(1, maxnops), tc = 0, ta = 0;
    for (int q = 0; q < k; ++q) {
      int c = r(3), a = balanced_each ? c : r(3);
      if (c + a == 0) { if (balanced_each) c = a = 1; else c = 1; }
      std::vector<Index> C, A;
      for (int i = 0; i < c; ++i) C.push_back(n.fresh(r.pick(w.sp)));
      for (int i = 0; i < a; ++i) A.push_back(n.fresh(r.pick(w.sp)));
      s.emplace_back(C, A); tc += c; ta += a;
    }
    if (tc == ta && tc + ta <= maxops) return s;
    n = Names();
  }
}
// strings that have at least one non-vanishing complete contraction
Str matched_string(Rng& r, Names& n, const World& w, int maxops, int maxnops, bool balanced_each) {
  bool hasp = false, hasi = false, hasa = false;
  for (auto& l : w.sp) { hasp |= l == L"p"; hasi |= l == L"i"; hasa |= l == L"a"; }
  for (int attempt = 0; attempt < 200; ++attempt) {
    n = Names();
    int k = r.range(2, maxnops), np = r.range(1, maxops / 2);
    std::vector<std::vector<std::wstring>> C(k), A(k);
    auto alias = [&](const std::wstring& b) { return hasp && (!(b == L"i" ? hasi : hasa) || r.chance(1, 3)) ? std::wstring(L"p") : b; };
    for (int t = 0; t < np; ++t) {
      int x = r(k), y = r(k); if (x == y) y = (x + 1) % k; if (x > y) std::swap(x, y);
      bool hole = w.vac == Vacuum::SingleProduct && r.chance(1, 2);
      if (hole) { C[x].push_back(alias(L"i")); A[y].push_back(alias(L"i")); }
      else { auto sp = w.vac == Vacuum::SingleProduct ? std::wstring(L"a") : r.pick(w.sp); A[x].push_back(alias(sp)); C[y].push_back(alias(sp)); }
    }
    bool ok = true;
    for (int q = 0; q < k; ++q) { if (C[q].size() > 3 || A[q].size() > 3 || (balanced_each && C[q].size() != A[q].size())) ok = false; if (C[q].empty() && A[q].empty()) ok = false; }
    if (!ok) continue;
    Str s;
    for (int q = 0; q < k; ++q) {
      std::vector<Index> c, a; r.shuffle(C[q]); r.shuffle(A[q]);
      for (auto& l : C[q]) c.push_back(n.fresh(l));
      for (auto& l : A[q]) a.push_back(n.fresh(l));
      s.emplace_back(c, a);
    }
    return s;
  }
  return random_string(r, n, w, maxops, maxnops, balanced_each);
}
Str some_string(Rng& r, Names& n, const World& w, int maxops, int maxnops, bool balanced_each) {
  return r.chance(3, 4) ? matched_string(r, n, w, maxops, maxnops, balanced_each) : random_string(r, n, w, maxops, maxnops, balanced_each);
}
std::vector<Index> indices(const Str& s) { std::vector<Index> v; for (auto& [c, a] : s) { for (auto& i : c) v.push_back(i); for (auto& i : a) v.push_back(i); } return v; }

void count_terms(Reporter& rep, const ExprPtr& e) {
  rep.count("terms_observed", e->is<Sum>() ? e->as<Sum>().size() : 1);
}
void mismatch(Reporter& rep, const std::string& sig, const std::string& in, const ExprPtr& out) {
  rep.violation(sig, "result differs from the operator algebra\n  input  " + in + "\n  result " + vf::show(out));
}

u64 vacuum_det(Model& m, const std::vector<int>& modes) {
  u64 v = 0; for (size_t i = 0; i < modes.size(); ++i) if (m.orb(modes[i]).type & m.occ_types) v |= u64(1) << i; return v;
}
World world(Rng& r, bool small) {
  World w; w.vac = r.chance(2, 3) ? Vacuum::SingleProduct : Vacuum::Physical;
  setup_min_sr(w.vac, SPBasis::Spinor, r.chance(1, 2) ? CanonicalizationMethod::Complete : CanonicalizationMethod::Topological);
  w.sp = {L"i", L"a", L"p"};
  if (r.chance(1, 3)) w.sp = {L"i", L"a"};
  if (r.chance(1, 6)) w.sp = {L"p"};
  w.mp.per_type_spin = 1; w.mp.per_type = small ? std::map<std::uint32_t, int>{{1, 1}, {2, 2}} : std::map<std::uint32_t, int>{{1, 2}, {2, 2}};
  return w;
}
Model make_model(Rng& r, const World& w) { Model m(r.next(), w.mp); if (w.vac == Vacuum::SingleProduct) m.occ_types = 1; return m; }

// attach antisymmetric (or arbitrary) tensors to the normal operators of a string
struct Attached { std::vector<ExprPtr> tensors; std::vector<Index> ext; };
Attached attach(Rng& r, Str& s, bool antisym, const World& w) {
  (void)w;
  Attached at;
  for (size_t q = 0; q < s.size(); ++q) {
    auto& [c, a] = s[q];
    if ((q == 0 || q + 1 == s.size()) && r.chance(1, 3)) { for (auto& i : c) at.ext.push_back(i); for (auto& i : a) at.ext.push_back(i); continue; }
    std::wstring label = r.chance(1, 2) ? L"g" : L"t";
    auto sym = antisym ? Symmetry::Antisymm : Symmetry::Nonsymm;
    at.tensors.push_back(ex<Tensor>(label, bra(c), ket(a), sym, Hermiticity::NonHermitian, ColumnSymmetry::Symm));
  }
  return at;
}
}  // namespace

int main(int argc, char** argv) {
  Suite s("C06");
  setup_min_sr();

  // strings of normal operators, all indices external
  s.add("sequence", 15000, 240000, [&](Rng& r, long, Reporter& rep) {
    World w = world(r, true); Names n;
    Str st = some_string(r, n, w, r.chance(1, 4) ? 8 : 6, 4, false);
    auto ext = sorted(indices(st));
    if (ext.size() > 8) throw Discard{};
    Model m = make_model(r, w); auto modes = all_modes(m, w.sp);
    Evaluator ev(m);
    auto ref = ev.eval_fock(product_of<FNOperator>(st), ext, modes);
    std::string in = show(st);
    rep.sample("sequence", in);
    ExprPtr full = FWickTheorem{sequence<FNOperator, FNOperatorSeq>(st)}.use_topology(false).compute();
    rep.count("full_contractions"); count_terms(rep, full);
    auto rv = vev(ref, vacuum_det(m, modes));
    if (!rv.empty()) { rep.count("nonzero_vacuum_average"); rep.distinct("nontrivial", hstr(in)); }
    { Evaluator e2(m); if (!same(vev(e2.eval_fock(full, ext, modes), vacuum_det(m, modes)), rv)) mismatch(rep, "full:sequence", in, full); }
    if (ext.size() <= 6) {
      ExprPtr part = FWickTheorem{sequence<FNOperator, FNOperatorSeq>(st)}.use_topology(false).full_contractions(false).compute();
      rep.count("partial_contractions"); count_terms(rep, part);
      Evaluator e3(m);
      if (!same(e3.eval_fock(part, ext, modes), ref)) mismatch(rep, "partial:sequence", in, part);
      else if (!ref.empty()) rep.distinct("nontrivial", hstr("p" + in));
    }
  });
  // an index may repeat in the string
  s.add("sequence-repeated", 3000, 48000, [&](Rng& r, long, Reporter& rep) {
    World w = world(r, true); Names n;
    Str st = some_string(r, n, w, 6, 4, false);
    auto all = indices(st); if (all.size() < 2) throw Discard{};
    // identify one creator with one annihilator of another normal operator
    std::vector<std::pair<int, int>> cs, as;
    for (int q = 0; q < (int)st.size(); ++q) { for (int k = 0; k < (int)st[q].first.size(); ++k) cs.push_back({q, k}); for (int k = 0; k < (int)st[q].second.size(); ++k) as.push_back({q, k}); }
    auto c = r.pick(cs), a = r.pick(as); if (c.first == a.first) throw Discard{};
    st[a.first].second[a.second] = st[c.first].first[c.second];
    std::set<Index, Index::FullLabelCompare> u; for (auto& i : indices(st)) u.insert(i);
    std::vector<Index> ext(u.begin(), u.end());
    Model m = make_model(r, w); auto modes = all_modes(m, w.sp);
    Evaluator ev(m); std::string in = show(st);
    auto ref = ev.eval_fock(product_of<FNOperator>(st), ext, modes);
    ExprPtr part = FWickTheorem{sequence<FNOperator, FNOperatorSeq>(st)}.use_topology(false).full_contractions(false).compute();
    rep.count("partial_contractions"); count_terms(rep, part);
    Evaluator e3(m);
    if (!ref.empty()) rep.distinct("nontrivial", hstr("r" + in));
    if (!same(e3.eval_fock(part, ext, modes), ref)) mismatch(rep, "partial:repeated-index", in, part);
  });
  // connectivity constraints on operator strings
  s.add("connectivity", 9000, 160000, [&](Rng& r, long, Reporter& rep) {
    World w = world(r, true); Names n;
    Str st; do { n = Names(); st = some_string(r, n, w, 8, 4, false); } while (st.size() < 2);
    auto ext = sorted(indices(st));
    Model m = make_model(r, w);
    Conn need, avoid; int k = (int)st.size();
    for (int i = 0; i < k; ++i) for (int j = i + 1; j < k; ++j) { int x = r(6); if (x == 0) need.push_back({i, j}); if (x == 1) avoid.push_back({i, j}); }
    if (need.empty() && avoid.empty()) { if (r.chance(1, 2)) need.push_back({0, 1}); else avoid.push_back({0, k - 1}); }
    Evaluator ev(m); std::string in = show(st) + " need"; for (auto& [a, b] : need) in += " " + std::to_string(a) + "-" + std::to_string(b);
    in += " avoid"; for (auto& [a, b] : avoid) in += " " + std::to_string(a) + "-" + std::to_string(b);
    auto ref = ev.eval_ops(product_of<FNOperator>(st), ext, [&](auto& v) { return all_pairings(v, need, avoid); });
    FWickTheorem wt{sequence<FNOperator, FNOperatorSeq>(st)};
    wt.use_topology(false);
    if (!need.empty()) wt.set_nop_connections(need);
    if (!avoid.empty()) wt.set_nop_avoided_connections(avoid);
    ExprPtr full = wt.compute();
    rep.count("constrained_contractions"); count_terms(rep, full);
    if (!ref.empty()) { rep.count("constrained_nonzero"); rep.distinct("nontrivial", hstr("c" + in)); }
    Evaluator e2(m);
    if (!same(e2.eval_ops(full, ext, [](auto&) { return Z(1); }), ref)) mismatch(rep, "connectivity:sequence", in, full);
  });
  // tensor expressions: vacuum averages, with and without topological shortcuts
  auto expr_case = [&](Rng& r, Reporter& rep, bool with_conn) {
    World w = world(r, true); Names n;
    Str st = some_string(r, n, w, 8, 4, r.chance(1, 2));
    auto at = attach(r, st, true, w);
    if (at.ext.size() > 6) throw Discard{};
    auto ext = sorted(at.ext);
    Model m = make_model(r, w); auto modes = all_modes(m, w.sp);
    std::vector<ExprPtr> terms{product_of<FNOperator>(st, at.tensors)};
    rational co(r.range(1, 5), r.range(1, 4));
    ExprPtr e = ex<Constant>(co) * terms[0];
    Conn need, avoid;
    if (with_conn) {
      int k = (int)st.size(); if (k < 2) throw Discard{};
      for (int i = 0; i < k; ++i) for (int j = i + 1; j < k; ++j) { int x = r(6); if (x == 0) need.push_back({i, j}); if (x == 1) avoid.push_back({i, j}); }
      if (need.empty() && avoid.empty()) need.push_back({0, k - 1});
      // constraints are given by position: keep the operators in the order given
      for (size_t q = 1; q < st.size(); ++q) (void)q;
    }
    std::string in = vf::show(e);
    in += " need"; for (auto& [a, b] : need) in += " " + std::to_string(a) + "-" + std::to_string(b);
    in += " avoid"; for (auto& [a, b] : avoid) in += " " + std::to_string(a) + "-" + std::to_string(b);
    Evaluator ev(m);
    std::map<u64, Z> ref = ev.eval_ops(e, ext, [&](auto& v) { return all_pairings(v, need, avoid); });
    if (!with_conn) { Evaluator ef(m); auto f = vev(ef.eval_fock(e, ext, modes), vacuum_det(m, modes)); rep.count("oracles_agree"); if (f != ref) throw std::runtime_error("the two oracles disagree on " + in); }
    if (!ref.empty()) { rep.count("nonzero_vacuum_average"); rep.distinct("nontrivial", hstr(in)); }
    rep.sample("expression", in);
    for (bool topo : {true, false}) {
      if (with_conn && r.chance(1, 2)) continue;
      FWickTheorem wt{e->clone()};
      wt.use_topology(topo);
      if (r.chance(1, 2)) wt.set_external_indices(ext);
      if (!need.empty()) wt.set_nop_connections(need);
      if (!avoid.empty()) wt.set_nop_avoided_connections(avoid);
      ExprPtr out;
      if (with_conn) out = wt.compute(false, true); else out = wt.compute();
      rep.count(topo ? "with_topology" : "without_topology"); count_terms(rep, out);
      Evaluator e2(m);
      std::string sig = std::string(with_conn ? "expr-connected:" : "expr-full:") + (topo ? "topology" : "no-topology");
      std::map<u64, Z> got;
      try { got = e2.eval_ops(out, ext, [](auto& v) { return v.empty() ? Z(1) : Z(0); }); }
      catch (EvalError& x) { rep.violation("malformed:" + sig, std::string(x.what()) + "\n  input " + in + "\n  result " + vf::show(out)); continue; }
      if (!same(got, ref)) mismatch(rep, sig, in, out);
    }
  };
  s.add("expression", 15000, 240000, [&](Rng& r, long, Reporter& rep) { expr_case(r, rep, false); });
  s.add("expression-connected", 4800, 80000, [&](Rng& r, long, Reporter& rep) { expr_case(r, rep, true); });
  // products as they arise in coupled cluster: projector, Hamiltonian, several identical excitation operators
  s.add("coupled-cluster", 1600, 20000, [&](Rng& r, long, Reporter& rep) {
    setup_min_sr(Vacuum::SingleProduct, SPBasis::Spinor, r.chance(1, 2) ? CanonicalizationMethod::Complete : CanonicalizationMethod::Topological);
    World w; w.vac = Vacuum::SingleProduct; w.sp = {L"i", L"a", L"p"}; w.mp.per_type_spin = 1; w.mp.per_type = {{1, r.chance(1, 4) ? 1 : 2}, {2, 2}};
    Names n; Str st; std::vector<ExprPtr> ten; std::vector<Index> ext;
    auto many = [&](const wchar_t* l, int k) { std::vector<Index> v; for (int i = 0; i < k; ++i) v.push_back(n.fresh(l)); return v; };
    auto op = [&](const wchar_t* label, std::vector<Index> c, std::vector<Index> a) {
      st.emplace_back(c, a); ten.push_back(ex<Tensor>(label, bra(c), ket(a), Symmetry::Antisymm, Hermiticity::NonHermitian, ColumnSymmetry::Symm)); };
    int nt = r.range(1, 3), nh = r.range(1, 2), tot = 0; std::vector<int> ranks;
    for (int t = 0; t < nt; ++t) { int k = r.chance(1, 3) ? 1 : 2; if (t && r.chance(2, 3)) k = ranks[0]; if (tot + k > 4) break; tot += k; ranks.push_back(k); }
    int np = tot + r.range(-nh, nh); if (np < 0 || np > 2) np = std::max(0, std::min(2, np));
    if (np) {
      auto c = many(L"i", np), a = many(L"a", np);
      if (r.chance(1, 2)) op(L"λ", c, a); else { st.emplace_back(c, a); ext = c; ext.insert(ext.end(), a.begin(), a.end()); } }
    auto gen = r.chance(3, 4);
    if (r.chance(4, 5)) op(nh == 1 ? L"f" : L"g", many(gen ? L"p" : r.chance(1, 2) ? L"i" : L"a", nh), many(gen ? L"p" : r.chance(1, 2) ? L"i" : L"a", nh));
    for (auto k : ranks) op(L"t", many(L"a", k), many(L"i", k));
    int nops = 0; for (auto& [c, a] : st) nops += (int)(c.size() + a.size());
    if (nops > 14 || (gen && nh == 2 && nops > 12) || st.size() < 2) throw Discard{};
    ext = sorted(ext); Model m = make_model(r, w);
    ExprPtr e = ex<Constant>(rational(1, r.range(1, 4))) * product_of<FNOperator>(st, ten);
    std::string in = vf::show(e);
    Conn need; if (r.chance(1, 3)) for (size_t q = 1; q < st.size(); ++q) if (q != (np ? 1 : 0) && r.chance(2, 3)) need.push_back({np ? 1 : 0, (int)q});
    for (auto& [a, b] : need) { if (a > b) std::swap(a, b); in += " need " + std::to_string(a) + "-" + std::to_string(b); }
    Evaluator ev(m); auto ref = ev.eval_ops(e, ext, [&](auto& v) { return all_pairings(v, need, {}); });
    rep.sample("coupled-cluster", in);
    if (!ref.empty()) { rep.count("nonzero_vacuum_average"); rep.count("nonzero_coupled_cluster"); rep.distinct("nontrivial", hstr(in)); }
    for (bool topo : {true, false}) {
      if (!topo && nops > 10) continue;
      FWickTheorem wt{e->clone()}; wt.use_topology(topo); if (r.chance(1, 2)) wt.set_external_indices(ext);
      if (!need.empty()) wt.set_nop_connections(need);
      ExprPtr out = need.empty() ? wt.compute() : wt.compute(false, true);
      rep.count(topo ? "with_topology" : "without_topology"); count_terms(rep, out);
      Evaluator e2(m); std::map<u64, Z> got; std::string sig = std::string("coupled-cluster:") + (topo ? "topology" : "no-topology");
      try { got = e2.eval_ops(out, ext, [](auto& v) { return v.empty() ? Z(1) : Z(0); }); }
      catch (EvalError& x) { rep.violation("malformed:" + sig, std::string(x.what()) + "\n  input " + in + "\n  result " + vf::show(out)); continue; }
      if (!same(got, ref)) mismatch(rep, sig, in, out);
    }
  });
  // all contractions of tensor expressions
  s.add("expression-partial", 3600, 60000, [&](Rng& r, long, Reporter& rep) {
    World w = world(r, true); Names n;
    Str st = some_string(r, n, w, 8, 3, true);
    auto at = attach(r, st, r.chance(1, 2), w);
    if (at.ext.size() > 4) throw Discard{};
    auto ext = sorted(at.ext);
    Model m = make_model(r, w); auto modes = all_modes(m, w.sp);
    ExprPtr e = product_of<FNOperator>(st, at.tensors);
    std::string in = vf::show(e);
    Evaluator ev(m); auto ref = ev.eval_fock(e, ext, modes);
    FWickTheorem wt{e->clone()}; wt.full_contractions(false).use_topology(false);
    if (r.chance(1, 2)) wt.set_external_indices(ext);
    ExprPtr out = wt.compute();
    rep.count("partial_contractions"); count_terms(rep, out);
    if (!ref.empty()) rep.distinct("nontrivial", hstr("p" + in));
    Evaluator e2(m);
    std::map<std::tuple<u64, u64, u64>, Z> got;
    try { got = e2.eval_fock(out, ext, modes); } catch (EvalError& x) { rep.violation("malformed:expr-partial", std::string(x.what()) + "\n  input " + in + "\n  result " + vf::show(out)); return; }
    if (!same(got, ref)) mismatch(rep, "expr-partial", in, out);
  });
  // sums, with terms of equal rank structure
  s.add("expression-sum", 3000, 48000, [&](Rng& r, long, Reporter& rep) {
    World w = world(r, true); Names n0;
    // common external operator, then several terms
    Str first = {{{n0.fresh(L"i")}, {n0.fresh(L"a")}}};
    auto ext = sorted(indices(first));
    Model m = make_model(r, w);
    auto sum = std::make_shared<Sum>();
    int k = r.range(2, 3);
    for (int t = 0; t < k; ++t) {
      Names n = n0; Str rest = some_string(r, n, w, 6, 2, true);
      if (indices(rest).size() + 2 > 10) throw Discard{};
      // some_string may have reset the name counter
      Names n2(30 + 10 * t); for (auto& [c, a] : rest) { for (auto& i : c) i = n2.fresh(std::wstring(i.space().base_key())); for (auto& i : a) i = n2.fresh(std::wstring(i.space().base_key())); }
      std::vector<ExprPtr> ten; for (auto& [c, a] : rest) ten.push_back(ex<Tensor>(r.chance(1, 2) ? L"g" : L"t", bra(c), ket(a), Symmetry::Antisymm, Hermiticity::NonHermitian, ColumnSymmetry::Symm));
      Str st = first; st.insert(st.end(), rest.begin(), rest.end());
      sum->append(ex<Constant>(rational(r.range(1, 5), 3)) * product_of<FNOperator>(st, ten));
    }
    ExprPtr e = sum; std::string in = vf::show(e);
    Evaluator ev(m); auto ref = ev.eval_ops(e, ext, [&](auto& v) { return all_pairings(v, {}, {}); });
    if (!ref.empty()) { rep.count("nonzero_vacuum_average"); rep.distinct("nontrivial", hstr(in)); }
    FWickTheorem wt{e->clone()}; if (r.chance(1, 2)) wt.set_external_indices(ext);
    ExprPtr out = wt.compute();
    rep.count("sums"); count_terms(rep, out);
    Evaluator e2(m);
    if (!same(e2.eval_ops(out, ext, [](auto& v) { return v.empty() ? Z(1) : Z(0); }), ref)) mismatch(rep, "expr-sum", in, out);
  });
  // spin-free operators
  s.add("spinfree", 3600, 60000, [&](Rng& r, long, Reporter& rep) {
    World w; w.vac = r.chance(2, 3) ? Vacuum::SingleProduct : Vacuum::Physical;
    setup_min_sr(w.vac, SPBasis::Spinfree, CanonicalizationMethod::Complete);
    w.sp = {L"i", L"a"}; if (r.chance(1, 3)) w.sp.push_back(L"p");
    w.mp.per_type_spin = 1; w.mp.per_type = {{1, 1}, {2, r.range(1, 2)}};
    Names n; Str st = some_string(r, n, w, r.chance(1, 3) ? 8 : 6, 3, true);
    bool with_tensors = r.chance(2, 3);
    Attached at; if (with_tensors) at = attach(r, st, false, w); else at.ext = indices(st);
    if (at.ext.size() > 6) throw Discard{};
    auto ext = sorted(at.ext);
    Model m = make_model(r, w); auto modes = all_modes(m, w.sp);
    if (modes.size() > 3) throw Discard{};
    ExprPtr e = product_of<FNOperator>(st, at.tensors);
    u64 v = 0; for (size_t i = 0; i < modes.size(); ++i) if (m.orb(modes[i]).type & m.occ_types) v |= u64(3) << (2 * i);
    Evaluator ev(m); ev.spinfree_ops = true; auto fock = ev.eval_fock(e, ext, modes); auto ref = vev(fock, v);
    std::string in = "spin-free " + vf::show(e);
    if (!ref.empty()) { rep.count("nonzero_vacuum_average"); rep.distinct("nontrivial", hstr(in)); }
    rep.sample("spinfree", in);
    auto wick = [&](bool full, bool topo) {
      if (with_tensors) { FWickTheorem wt{e->clone()}; wt.use_topology(topo).full_contractions(full); wt.set_external_indices(ext); return wt.compute(); }
      return FWickTheorem{sequence<FNOperator, FNOperatorSeq>(st)}.use_topology(false).full_contractions(full).compute();
    };
    for (bool topo : {true, false}) {
      ExprPtr out = wick(true, topo); rep.count("spinfree_full"); count_terms(rep, out);
      Evaluator e2(m); e2.spinfree_ops = true;
      if (!same(vev(e2.eval_fock(out, ext, modes), v), ref)) mismatch(rep, std::string("spinfree-full:") + (with_tensors ? topo ? "topology" : "no-topology" : "sequence"), in, out);
    }
    ExprPtr out = wick(false, false); rep.count("spinfree_partial"); count_terms(rep, out);
    Evaluator e2(m); e2.spinfree_ops = true;
    if (!same(e2.eval_fock(out, ext, modes), fock)) mismatch(rep, std::string("spinfree-partial:") + (with_tensors ? "tensors" : "sequence"), in, out);
  });
  // bosons
  s.add("boson", 3600, 60000, [&](Rng& r, long, Reporter& rep) {
    setup_min_sr(Vacuum::Physical);
    World w; w.vac = Vacuum::Physical; w.sp = {L"p"}; if (r.chance(1, 3)) w.sp = {L"i", L"a", L"p"};
    w.mp.per_type_spin = 1; w.mp.per_type = {{1, 1}, {2, 1}};
    Names n; Str st = some_string(r, n, w, r.chance(1, 3) ? 8 : 6, 4, false);
    auto ext = sorted(indices(st)); if (ext.size() > 6) throw Discard{};
    Model m = make_model(r, w); auto modes = all_modes(m, w.sp);
    Evaluator ev(m); auto ref = ev.eval_bose(product_of<BNOperator>(st), ext, modes, 3);
    std::string in = "boson " + show(st);
    if (!ref.empty()) rep.distinct("nontrivial", hstr(in));
    ExprPtr full = BWickTheorem{sequence<BNOperator, BNOperatorSeq>(st)}.use_topology(false).compute();
    ExprPtr part = BWickTheorem{sequence<BNOperator, BNOperatorSeq>(st)}.use_topology(false).full_contractions(false).compute();
    rep.count("boson_full"); rep.count("boson_partial"); count_terms(rep, part);
    Evaluator e2(m), e3(m);
    if (!same(vev(e2.eval_bose(full, ext, modes, 3), 0), vev(ref, 0))) mismatch(rep, "boson-full", in, full);
    if (!same(e3.eval_bose(part, ext, modes, 3), ref)) mismatch(rep, "boson-partial", in, part);
  });
  return s.main(argc, argv);
}
