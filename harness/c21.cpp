// C21: the coupled-cluster engine's equations are the Fock-space matrix
// elements that define them.
#include "common/mbptx.hpp"
#include <SeQuant/domain/mbpt/models/cc.hpp>
#include <SeQuant/domain/mbpt/utils.hpp>
#include <cstdlib>
using namespace vf;
using namespace sequant;
using CC = mb::CC;
namespace {
namespace op = mb::op;
using mb::nₚ; using mb::nₕ;
Mat operator+(Mat a, const Mat& b) { for (auto& [k, z] : b) a[k] += z; return a; }
Mat operator-(Mat a, const Mat& b) { for (auto& [k, z] : b) a[k] -= z; return a; }
Mat operator*(const Mat& a, const Mat& b) { return mul(a, b); }
Mat scaled(Mat a, Z c) { for (auto& [k, z] : a) z *= c; return a; }
Mat comm(const Mat& a, const Mat& b) { return a * b - b * a; }
struct World {
  Model m; std::vector<int> modes; u64 vac = 0; Mat one;
  World(u64 seed, const ModelParams& mp, const std::vector<std::wstring>& sp, int occ) : m(seed, mp) {
    m.occ_types = occ; std::set<int> s; for (auto& l : sp) for (int o : m.orbitals(get_default_context().index_space_registry()->retrieve(l))) s.insert(o);
    modes.assign(s.begin(), s.end()); for (size_t k = 0; k < modes.size(); ++k) if (m.orb(modes[k]).type & m.occ_types) vac |= u64(1) << k;
    for (u64 k = 0; k < (u64(1) << modes.size()); ++k) one[{k, k}] = Z(1);
  }
  Mat of(const ExprPtr& e) { Evaluator ev(m); return mat(ev.eval_fock(summed(e), {}, modes)); }
  static ExprPtr summed(const ExprPtr& e) { return lowered(e); }
  Mat null() const { return {}; }
  Z vev(const Mat& a) const { auto it = a.find({vac, vac}); return it == a.end() ? Z(0) : it->second; }
  Z value(const ExprPtr& e) { Evaluator ev(m); return ev.eval(plain_labels(e), {}).data.at(0); }
};
// sum_k [[A,B],B..]/k! up to order n
Mat bch(const Mat& a, const Mat& b, int n) { Mat r = a, c = a; Z f(1); for (int k = 1; k <= n; ++k) { c = comm(c, b); f *= Z(k).inv(); r = r + scaled(c, f); } return r; }
struct Conf { int N; CC::Ansatz a; bool screen, topo, skip1; std::optional<size_t> rank; int basis; CanonicalizationMethod cm; };
std::string name(const Conf& c) {
  return "CC(" + std::to_string(c.N) + ") ansatz " + std::vector<std::string>{"T", "oT", "U", "oU"}[(int)c.a] + (c.screen ? "" : " unscreened") + (c.topo ? "" : " no-topology") + (c.skip1 ? " no-singles" : "") + (c.rank ? " rank " + std::to_string(*c.rank) : "") + (c.basis ? " frozen-core basis" : "") + (c.cm == CanonicalizationMethod::Complete ? " complete" : "");
}
struct Setup { Conf c; ModelParams mp; std::vector<std::wstring> sp; int occ; };
Setup prepare(Rng& r, Conf c, bool three) {
  Setup s{c}; s.mp.per_type_spin = 1;
  if (c.basis == 0) { setup_min_sr(Vacuum::SingleProduct, SPBasis::Spinor, c.cm); s.sp = {L"i", L"a"}; s.occ = 1; s.mp.per_type = three ? std::map<std::uint32_t, int>{{1, 3}, {2, 3}} : std::map<std::uint32_t, int>{{1, r.range(2, 3)}, {2, 2}}; }
  else { setup_sr(Vacuum::SingleProduct, SPBasis::Spinor, c.cm); auto reg = get_default_context().index_space_registry(); s.sp = {L"o", L"i", L"a", L"g"};
    auto ty = [&](const wchar_t* l) { return (std::uint32_t)reg->retrieve(l).type().to_int32(); };
    s.occ = ty(L"o") | ty(L"i"); s.mp.per_type = {{ty(L"o"), 1}, {ty(L"i"), 2}, {ty(L"a"), 2}, {ty(L"g"), 1}}; for (auto& [k, v] : s.mp.per_type) if (!k) throw Discard{}; }
  return s;
}
CC engine(const Conf& c, std::optional<size_t> pert = std::nullopt) {
  CC::Options o{.ansatz = c.a, .skip_singles = c.skip1, .screen = c.screen, .use_topology = c.topo, .hbar_comm_rank = c.rank, .pertbar_comm_rank = pert};
  return CC(c.N, o);
}
void check(Reporter& rep, World& w, const std::string& what, const ExprPtr& got, Z want, const std::string& d) {
  Z v; try { v = got ? w.value(got) : Z(0); } catch (EvalError& x) { rep.violation("malformed:" + what, std::string(x.what()) + "\n  " + d + "\n  " + (got ? show(got).substr(0, 2000) : "")); return; }
  rep.count("elements_compared"); rep.count("compared:" + what); if (!want.zero()) { rep.count("nonzero_elements"); rep.distinct("nontrivial", hstr(d + what + want.str())); }
  if (!(v == want)) rep.violation("value:" + what, d + ": " + what + " is " + v.str() + " instead of " + want.str() + "\n  " + (got ? show(got).substr(0, 3000) : std::string("null")));
}
struct Ops { Mat H, T, S, E, L; };   // H, T, sigma, Hbar
Ops operators(World& w, const Conf& c, int rank) {
  Ops o; o.H = w.of(op::H(2)); o.T = w.of(op::T(c.N, c.skip1)); bool u = c.a == CC::Ansatz::U || c.a == CC::Ansatz::oU;
  o.S = u ? o.T - dagger(o.T) : o.T; o.E = bch(o.H, o.S, rank); return o;
}
Conf random_conf(Rng& r, int N, bool unitary) {
  Conf c; c.N = N; c.basis = r.chance(1, 4); c.screen = r.chance(2, 3); c.topo = r.chance(2, 3); c.cm = r.chance(1, 2) ? CanonicalizationMethod::Complete : CanonicalizationMethod::Topological;
  if (unitary) { c.a = r.chance(1, 2) ? CC::Ansatz::U : CC::Ansatz::oU; c.rank = r.range(1, 2); } else { c.a = r.chance(2, 3) ? CC::Ansatz::T : CC::Ansatz::oT; if (r.chance(1, 3)) c.rank = r.range(2, 4); }
  c.skip1 = c.a == CC::Ansatz::oT || c.a == CC::Ansatz::oU || (N > 1 && r.chance(1, 6)); if (c.skip1 && N == 1) { c.skip1 = false; c.a = unitary ? CC::Ansatz::U : CC::Ansatz::T; }
  return c;
}
void amplitudes(Rng& r, Reporter& rep, int N, bool unitary) {
  Conf c = random_conf(r, N, unitary); if (N > 2) { c.basis = 0; c.screen = true; }
  auto s = prepare(r, c, N > 2); World w(r.next(), s.mp, s.sp, s.occ); auto d = name(c); rep.sample("amplitudes", d);
  int pmax = N, pmin = 0; if (r.chance(1, 3)) { pmax = N > 2 || !c.screen || unitary ? N : r.range(1, N + 1); pmin = r.range(0, pmax); }
  auto cc = engine(c); auto eq = cc.t(pmax, pmin); auto o = operators(w, c, (int)c.rank.value_or(4));
  if ((int)eq.size() != pmax + 1) { rep.violation("shape", d + ": t() returns " + std::to_string(eq.size()) + " equations"); return; }
  for (int p = 0; p <= pmax; ++p) {
    if (p < pmin) { if (eq[p]) rep.violation("shape", d + ": an equation below pmin"); continue; }
    check(rep, w, "t", eq[p], w.vev(p ? w.of(op::P(nₚ(p))) * o.E : o.E), d + " projection " + std::to_string(p));
  }
  check(rep, w, "energy", cc.energy(), w.vev(o.E), d);
  if (r.chance(1, 2)) { int k = r.range(1, unitary ? 2 : 3); check(rep, w, "energy-truncated", cc.energy(k), w.vev(bch(o.H, o.S, k)), d + " at " + std::to_string(k)); }
}
void lambda(Rng& r, Reporter& rep, int N) {
  Conf c = random_conf(r, N, false); auto s = prepare(r, c, N > 2); World w(r.next(), s.mp, s.sp, s.occ); auto d = name(c);
  auto eq = engine(c).λ(); int rank = (int)c.rank.value_or(4); auto o = operators(w, c, rank - 1); Mat L = w.of(op::Λ(N, c.skip1));
  for (int p = 1; p <= N; ++p) check(rep, w, "lambda", eq.at(p), w.vev((w.one + L) * comm(o.E, w.of(op::P(nₚ(-p))))), d + " projection " + std::to_string(p));
  check(rep, w, "lambda-energy", eq.at(0), w.vev(bch(o.H, w.of(adjoint(op::Λ(N, c.skip1))), rank)), d);
}
void density(Rng& r, Reporter& rep, int N) {
  bool unitary = r.chance(1, 3); Conf c = random_conf(r, N, unitary); c.basis = 0; auto s = prepare(r, c, false); s.mp.per_type[1] = 2; World w(r.next(), s.mp, s.sp, s.occ); auto d = name(c);
  int rank = r.chance(2, 3) ? 1 : 2; if (unitary) rank = 1; std::optional<size_t> cr; if (r.chance(1, 4)) cr = r.range(1, 2);
  d += " density of rank " + std::to_string(rank) + (cr ? " at " + std::to_string(*cr) : "");
  auto g = engine(c).rdm(rank, cr); auto rep_op = lowered(op::ã(rank)); int order = cr ? (int)*cr : unitary ? (int)*c.rank : std::min(2 * rank, rank + N);
  std::vector<Index> ext; auto add = [&](const Index& i) { if (std::find(ext.begin(), ext.end(), i) == ext.end()) ext.push_back(i); };
  auto collect = [&](const ExprPtr& x) { if (x->is<FNOperator>()) { for (auto& o : x->as<FNOperator>().creators()) add(o.index()); for (auto& o : x->as<FNOperator>().annihilators()) add(o.index()); } };
  collect(rep_op); rep_op->visit(collect);
  Mat T = w.of(op::T(N, c.skip1)), S = unitary ? T - dagger(T) : T, left = unitary ? w.one : w.one + w.of(op::Λ(N, c.skip1));
  Evaluator ev(w.m); auto f = ev.eval_fock(rep_op, ext, w.modes); std::map<u64, Mat> by; for (auto& [k, z] : f) by[std::get<0>(k)][{std::get<1>(k), std::get<2>(k)}] += z;
  Arr a; try { Evaluator e2(w.m); a = e2.eval(plain_labels(g), ext); } catch (EvalError& x) { rep.violation("malformed:density", std::string(x.what()) + "\n  " + d + "\n  " + show(g).substr(0, 2000)); return; }
  size_t n = a.dims.empty() ? 0 : a.dims[0], tot = a.data.size();
  for (size_t k = 0; k < tot; ++k) {
    u64 key = 0; size_t q = k; std::vector<size_t> v(a.dims.size()); for (size_t j = a.dims.size(); j-- > 0;) { v[j] = q % a.dims[j]; q /= a.dims[j]; } for (size_t j = 0; j < v.size(); ++j) key = key * 8 + v[j];
    Z want(0); auto it = by.find(key); if (it != by.end()) want = w.vev(left * bch(it->second, S, order));
    rep.count("density_elements"); if (!want.zero()) { rep.count("nonzero_density_elements"); rep.distinct("nontrivial", hstr(d + want.str())); }
    if (!(a.data[k] == want)) { rep.violation("value:density", d + ": element " + std::to_string(k) + " is " + a.data[k].str() + " instead of " + want.str() + "\n  " + show(g).substr(0, 2500)); return; }
  } (void)n;
}
void perturbed(Rng& r, Reporter& rep, int N) {
  bool unitary = r.chance(1, 4); Conf c = random_conf(r, N, unitary); c.basis = 0; c.skip1 = false; c.a = unitary ? CC::Ansatz::U : CC::Ansatz::T; if (c.rank && !unitary) c.rank = std::nullopt;
  if (unitary) { c.N = N = std::min(N, 2); c.rank = 1; }
  auto s = prepare(r, c, false); World w(r.next(), s.mp, s.sp, s.occ); auto d = name(c); std::optional<size_t> pr; if (unitary) pr = r.range(1, 2); else if (r.chance(1, 4)) pr = r.range(1, 2);
  if (pr) d += " pertbar " + std::to_string(*pr);
  auto cc = engine(c, pr); auto o = operators(w, c, (int)c.rank.value_or(4)); Mat E3 = bch(o.H, o.S, (int)c.rank.value_or(3));
  Mat H1 = bch(w.of(op::Hʼ(1)), o.S, (int)pr.value_or(2)), T1 = w.of(op::Tʼ(N)); Z om = w.m.variable(L"ω");
  auto P = [&](int p) { return w.of(op::P(nₚ(p))); };
  auto eq = cc.tʼ();
  for (int p = 1; p <= N; ++p) check(rep, w, "t'", eq.at(p), w.vev(P(p) * (H1 + comm(E3, T1))) - om * w.vev(P(p) * w.of(op::tʼ(p))), d + " projection " + std::to_string(p));
  if (unitary) return;
  auto el = cc.λʼ(); Mat L = w.of(op::Λ(N, c.skip1)), L1 = w.of(op::Λʼ(N));
  for (int p = 1; p <= N; ++p) check(rep, w, "lambda'", el.at(p), w.vev((w.one + L) * comm(H1 + comm(bch(o.H, o.S, 3), T1), P(-p))) + w.vev(L1 * comm(o.E, P(-p))) + om * w.vev(w.of(op::λʼ(p)) * P(-p)), d + " projection " + std::to_string(p));
}
void eom(Rng& r, Reporter& rep) {
  static const std::vector<std::pair<int, int>> ranks{{1, 1}, {2, 2}, {1, 0}, {0, 1}, {2, 1}, {1, 2}, {2, 0}, {0, 2}};
  bool unitary = r.chance(1, 5); Conf c = random_conf(r, r.range(1, 2), unitary); c.basis = r.chance(1, 5); auto [np, nh] = r.pick(ranks); if (unitary) { c.rank = 1; }
  auto s = prepare(r, c, false); World w(r.next(), s.mp, s.sp, s.occ); auto d = name(c) + " eom(" + std::to_string(np) + "," + std::to_string(nh) + ")";
  auto cc = engine(c); auto o = operators(w, c, (int)c.rank.value_or(4)); rep.count("eom:" + std::to_string(np) + std::to_string(nh));
  auto norm = mb::Normalization::SquareRoot; Mat R = w.of(op::R(nₚ(np), nₕ(nh), norm));
  auto er = cc.eom_r(nₚ(np), nₕ(nh)); 
  for (int a = np, b = nh; a >= 0 && b >= 0 && a + b > 0; --a, --b) check(rep, w, "eom_r", er.at(std::min(a, b)), w.vev(w.of(op::δl(nₚ(a), nₕ(b))) * comm(o.E, R)), d + " projection " + std::to_string(a) + "," + std::to_string(b));
  if (unitary) return;
  Mat L = w.of(op::L(nₚ(np), nₕ(nh), norm)); auto el = cc.eom_l(nₚ(np), nₕ(nh));
  for (int a = np, b = nh; a >= 0 && b >= 0 && a + b > 0; --a, --b) { Mat X = w.of(op::δr(nₚ(a), nₕ(b))); bool odd = (a + b) % 2; Mat EX = odd ? o.E * X : o.E * X;
    check(rep, w, "eom_l", el.at(std::min(a, b)), w.vev(L * (EX - X * o.E)), d + " projection " + std::to_string(a) + "," + std::to_string(b)); }
}
int rank_of(const ExprPtr& e) { int k = 0; auto go = [&](const ExprPtr& x) { if (x->is<FNOperator>()) k = std::max<int>(k, (int)x->as<FNOperator>().size()); }; auto l = lowered(e); go(l); l->visit(go); return k; }
// e^{-B} A e^{B} of arbitrary operators in commutator form, and screening against a projector
void transform(Rng& r, Reporter& rep) {
  Conf c{2, CC::Ansatz::T, true, true, false, std::nullopt, 0, r.chance(1, 2) ? CanonicalizationMethod::Complete : CanonicalizationMethod::Topological};
  auto s = prepare(r, c, false); s.mp.per_type = {{1, 2}, {2, 2}}; World w(r.next(), s.mp, s.sp, s.occ);
  PoolParams pp; pp.max_rank = 2; pp.conserving_only = false; auto A = random_op(r, pp), B = random_op(r, pp); bool uni = r.chance(1, 3); int n = r.range(0, 3); if (uni) n = std::min(n, 2);
  auto d = "lst(" + A.name + ", " + B.name + ", " + std::to_string(n) + (uni ? ", unitary)" : ")");
  ExprPtr a = A.op->clone(), b = B.op->clone(); if (r.chance(1, 3)) { auto C = random_op(r, pp); b = b + ex<Constant>(rational(2, 3)) * C.op; d += " with + 2/3 " + C.name; }
  if (rank_of(a) + n * rank_of(b) * (uni ? 2 : 1) > (uni ? 12 : 10)) throw Discard{};
  Mat MA = w.of(a), MB = w.of(b), S = uni ? MB - dagger(MB) : MB; Mat want = bch(MA, S, n); auto a0 = a->clone(), b0 = b->clone();
  auto got = mb::lst(a, b, n, {.unitary = uni, .use_connected_form = false});
  if (!(*a == *a0) || !(*b == *b0)) rep.violation("argument-modified", d);
  Mat have; try { have = w.of(got); } catch (EvalError& x) { rep.violation("malformed:lst", d + ": " + x.what()); return; }
  rep.count("transformed"); Mat diff = have - want; for (auto& [k, z] : diff) if (!z.zero()) { rep.violation("value:lst", d + " is not the nested commutator series\n  " + show(lowered(got)).substr(0, 2000)); return; }
  auto sc = mb::screen_vac_av(got); Mat ms; if (sc->is<Constant>() && sc->as<Constant>().is_zero()) ; else ms = w.of(sc);
  rep.count("screened"); if (!(w.vev(ms) == w.vev(want))) rep.violation("value:screen", d + ": screening changes the vacuum average");
}
}  // namespace
int main(int argc, char** argv) {
  setup_common(); setup_min_sr();
  Suite s("C21");
  s.add("t1", 30, 600, [](Rng& r, long, Reporter& rep) { amplitudes(r, rep, 1, r.chance(1, 3)); });
  s.add("t2", 40, 1500, [](Rng& r, long, Reporter& rep) { amplitudes(r, rep, 2, false); });
  s.add("u2", 16, 300, [](Rng& r, long, Reporter& rep) { amplitudes(r, rep, 2, true); });
  s.add("t3", 4, 60, [](Rng& r, long, Reporter& rep) { amplitudes(r, rep, 3, false); });
  s.add("lambda", 30, 800, [](Rng& r, long, Reporter& rep) { lambda(r, rep, r.range(1, 2)); });
  s.add("density", 40, 800, [](Rng& r, long, Reporter& rep) { density(r, rep, r.range(1, 2)); });
  s.add("perturbed", 20, 500, [](Rng& r, long, Reporter& rep) { perturbed(r, rep, r.range(1, 2)); });
  s.add("eom", 60, 1200, [](Rng& r, long, Reporter& rep) { eom(r, rep); });
  s.add("transform", 300, 8000, [](Rng& r, long, Reporter& rep) { transform(r, rep); });
  return s.main(argc, argv);
}
