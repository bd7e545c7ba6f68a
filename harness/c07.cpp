// C07: expectation values of many-body operators.
#include "common/mbptx.hpp"
#include <SeQuant/core/wick.hpp>
#include <algorithm>
using namespace vf;
using namespace sequant;
namespace {
using OV = Evaluator::OpVal;
using Conn = std::vector<std::pair<int, int>>;
using LConn = mb::op::OpConnections<std::wstring>;

// brute-force sum over complete contractions of normal-ordered strings with
// required and forbidden pairs
Z all_pairings(const std::vector<std::vector<OV>>& nops, const Conn& need, const Conn& avoid) {
  struct O { int nop, orb; bool cre, occ; };
  std::vector<O> s; int sign = 1, pos = 0;
  for (int q = 0; q < (int)nops.size(); ++q) for (auto& o : nops[q]) s.push_back({q, o.orb, o.cre, o.occ});
  int n = (int)s.size(); if (n % 2) return Z(0);
  for (auto& nop : nops) {
    for (int a = 1; a < (int)nop.size(); ++a) for (int b = a; b > 0; --b) {
      auto qc = [](const O& o) { return o.cre != o.occ; };
      if (qc(s[pos + b]) && !qc(s[pos + b - 1])) { std::swap(s[pos + b], s[pos + b - 1]); sign = -sign; } else break;
    }
    pos += (int)nop.size();
  }
  std::vector<char> used(n, 0); std::map<std::pair<int, int>, int> links;
  std::function<i64(int)> rec = [&](int left) -> i64 {
    if (left == 0) { for (auto& [a, b] : need) { auto it = links.find({std::min(a, b), std::max(a, b)}); if (it == links.end() || !it->second) return 0; } return 1; }
    int i = 0; while (used[i]) ++i;
    if (s[i].cre != s[i].occ) return 0;
    used[i] = 1; i64 tot = 0; int between = 0;
    for (int j = i + 1; j < n; ++j) {
      if (used[j]) continue;
      bool ok = s[j].nop != s[i].nop && s[j].orb == s[i].orb && s[j].cre != s[i].cre && s[j].cre != s[j].occ;
      if (ok) for (auto& [a, b] : avoid) if ((a == s[i].nop && b == s[j].nop) || (b == s[i].nop && a == s[j].nop)) ok = false;
      if (ok) {
        used[j] = 1; auto key = std::make_pair(std::min(s[i].nop, s[j].nop), std::max(s[i].nop, s[j].nop)); ++links[key];
        i64 sub = rec(left - 2); tot += (between & 1) ? -sub : sub;
        --links[key]; used[j] = 0;
      }
      ++between;
    }
    used[i] = 0; return tot;
  };
  return Z(sign * rec(n));
}

struct World {
  ModelParams mp; u64 seed; std::vector<std::wstring> sp{L"i", L"a"};
  Model model() const { Model m(seed, mp); m.occ_types = 1; return m; }
  std::vector<int> modes(Model& m) const { std::set<int> s; for (auto& l : sp) for (int o : m.orbitals(get_default_context().index_space_registry()->retrieve(l))) s.insert(o); return {s.begin(), s.end()}; }
  u64 vacuum(Model& m) const { u64 v = 0; auto q = modes(m); for (std::size_t i = 0; i < q.size(); ++i) if (m.orb(q[i]).type & m.occ_types) v |= u64(1) << i; return v; }
  std::map<std::string, Mat> memo;
  // matrix of an operator (or a sum of operators)
  const Mat& matrix(const OpSpec& s) {
    auto it = memo.find(s.name); if (it != memo.end()) return it->second;
    Model m = model(); Evaluator ev(m); return memo[s.name] = mat(ev.eval_fock(lowered(s.op), {}, modes(m)));
  }
};
World world(Rng& r, bool three = false) {
  setup_min_sr(Vacuum::SingleProduct, SPBasis::Spinor, r.chance(1, 2) ? CanonicalizationMethod::Complete : CanonicalizationMethod::Topological);
  World w; w.seed = r.next(); w.mp.per_type_spin = 1; w.mp.per_type = three ? std::map<std::uint32_t, int>{{1, 3}, {2, 3}} : std::map<std::uint32_t, int>{{1, 2}, {2, r.chance(1, 4) ? 3 : 2}};
  return w;
}
Z scalar_value(const World& w, const ExprPtr& e) {
  Model m = w.model(); Evaluator ev(m); Arr a = ev.eval(plain_labels(e), {}); return a.data.at(0);
}
int rank_of(const OpSpec& s) { Z z; (void)z; auto t = lowered(s.op); int k = 0; t->visit([&](const ExprPtr& x) { if (x->is<FNOperator>()) k = std::max<int>(k, (int)x->as<FNOperator>().size()); }); return k; }

// a list of operators whose product is likely to have a non-zero average
std::vector<OpSpec> chain(Rng& r, int maxn, int maxops, const PoolParams& base) {
  for (int attempt = 0;; ++attempt) {
    std::vector<OpSpec> v; int tot = 0, n = r.range(2, maxn);
    for (int i = 0; i < n; ++i) {
      PoolParams p = base; auto s = random_op(r, p); int k = rank_of(s); if (tot + k > maxops) break; tot += k; v.push_back(s);
      if (r.chance(1, 3) && tot + k <= maxops && (int)v.size() < n) { v.push_back(s); tot += k; ++i; }
    }
    if (v.size() < 2) continue;
    if (attempt > 60) return v;
    // total quasiparticle bookkeeping: leave most impossible chains out
    auto p = std::make_shared<Product>(); for (auto& s : v) p->append(1, s.op, Product::Flatten::No);
    bool can = mb::op::can_change_qns(p, mb::qns_t{});
    if (can || r.chance(1, 12)) return v;
  }
}
std::string names(const std::vector<OpSpec>& v) { std::string s; for (auto& x : v) s += x.name + " "; return s; }
ExprPtr product(const std::vector<OpSpec>& v, Constant::scalar_type c = 1) { auto p = std::make_shared<Product>(); p->scale(c); for (auto& s : v) p->append(1, s.op->clone(), Product::Flatten::No); return p; }

// products and sums, no connectivity: plain vacuum expectation value
void plain(Rng& r, Reporter& rep) {
  World w = world(r); PoolParams pp; pp.max_rank = 2;
  auto v = chain(r, 4, 14, pp);
  Constant::scalar_type c(rational(r.range(1, 4), r.range(1, 3)), r.chance(1, 4) ? rational(1) : rational(0));
  bool summed = r.chance(1, 3); std::vector<OpSpec> alt; int at = -1; bool var = r.chance(1, 5);
  auto p = std::make_shared<Product>(); p->scale(c);
  Mat prod; bool first = true; std::string in;
  for (int i = 0; i < (int)v.size(); ++i) {
    Mat m = w.matrix(v[i]); in += v[i].name;
    if (summed && r.chance(1, 2)) {
      auto x = random_op(r, pp); if (rank_of(x) > 4) throw Discard{};
      for (auto& [k, z] : w.matrix(x)) m[k] += z * Z(2);
      std::vector<ExprPtr> two{v[i].op->clone(), ex<Constant>(2) * x.op->clone()};
      p->append(1, std::make_shared<Sum>(two.begin(), two.end()), Product::Flatten::No); in += "+2" + x.name; at = i;
    } else p->append(1, v[i].op->clone(), Product::Flatten::No);
    in += " "; prod = first ? m : mul(prod, m); first = false;
  }
  if (var) p->append(1, ex<Variable>(L"x"), Product::Flatten::No);
  (void)at;
  Model m = w.model(); u64 vac = w.vacuum(m); Z ref = prod.count({vac, vac}) ? prod[{vac, vac}] : Z(0);
  ref *= to_Z(c); if (var) { Model m2 = w.model(); ref *= m2.variable(L"x"); in += "x"; }
  ExprPtr e = p; if (r.chance(1, 4)) { auto c = e->clone(); simplify(c); e = c; }
  if (r.chance(1, 5)) { auto v2 = chain(r, 3, 8, pp); Mat q; bool f = true; for (auto& s : v2) { Mat x = w.matrix(s); q = f ? x : mul(q, x); f = false; } if (q.count({vac, vac})) ref += q[{vac, vac}]; in += " + " + names(v2); std::vector<ExprPtr> two{e, product(v2)}; e = std::make_shared<Sum>(two.begin(), two.end()); }
  rep.count("averages"); rep.sample("plain", in); if (!ref.zero()) { rep.count("nonzero_averages"); rep.distinct("nontrivial", hstr(in)); }
  auto before = e->clone(); std::string text = narrow(e->to_latex());
  for (int mode = 0; mode < 3; ++mode) {
    bool screen = mode != 1, topo = mode != 2, skip = mode == 0 && r.chance(1, 2);
    ExprPtr in_e = skip ? e->clone() : e;
    ExprPtr out = r.chance(1, 2) ? mb::op::vac_av(in_e, {.connect = {}, .screen = screen, .use_topology = topo, .skip_clone = skip}) : mb::op::ref_av(in_e, {.connect = {}, .screen = screen, .use_topology = topo, .skip_clone = skip});
    std::string sig = screen ? topo ? "plain" : "plain:no-topology" : "plain:unscreened"; rep.count("checked:" + sig);
    if (!skip && !(*e == *before)) rep.violation("argument-modified", text);
    Z got; try { got = scalar_value(w, out); } catch (EvalError& x) { rep.violation("malformed:" + sig, std::string(x.what()) + "\n  input " + in + "\n  result " + vf::show(out)); continue; }
    if (!(got == ref)) rep.violation("value:" + sig, "expectation value of " + in + " is " + got.str() + " instead of " + ref.str() + "\n  result " + vf::show(out));
  }
}

// connectivity by operator label
void connected(Rng& r, Reporter& rep, bool cc) {
  World w = world(r); w.mp.per_type = {{1, r.chance(1, 3) ? 1 : 2}, {2, 2}};
  PoolParams pp; pp.max_rank = 2; pp.adjoints = r.chance(1, 3);
  std::vector<OpSpec> v; LConn conn, avoid;
  if (cc) {   // P H T...T
    using mb::nₚ; using mb::nₕ; int h = r.range(1, 2), nt = r.range(1, 3), tot = 0; 
    std::vector<int> ks; for (int i = 0; i < nt; ++i) { int k = r.chance(1, 2) ? 1 : 2; if (tot + k > 4) break; tot += k; ks.push_back(k); }
    int np = std::max(0, std::min(2, tot + r.range(-h, h)));
    if (np) v.push_back(r.chance(1, 2) ? OpSpec{"P" + std::to_string(np), mb::op::P(nₚ(np), nₕ(np))} : OpSpec{"λ" + std::to_string(np), mb::op::λ(np)});
    v.push_back({"h" + std::to_string(h), mb::op::h(h)});
    for (int k : ks) v.push_back({"t" + std::to_string(k), mb::op::t(k)});
    conn = mb::op::default_op_connections();
    if (r.chance(1, 4)) conn = mb::op::concat(conn, LConn{{L"λ", L"t"}, {L"λ", L"f"}});
    if (2 * (tot + np + h) > (h == 2 ? 12 : 14)) throw Discard{};
  } else {
    v = chain(r, 4, 12, pp);
    std::vector<std::wstring> labels; for (auto& s : v) labels.push_back(std::wstring(s.op->as<mb::op_t>().label())); labels.push_back(L"zz");
    int k = r.range(1, 3); for (int i = 0; i < k; ++i) { auto a = r.pick(labels), b = r.pick(labels); auto& l = r.chance(1, 2) ? conn : avoid; std::pair<std::wstring, std::wstring> q{a, b}; if (std::find(conn.begin(), conn.end(), q) == conn.end() && std::find(avoid.begin(), avoid.end(), q) == avoid.end()) l.push_back(q); }
  }
  std::string in = names(v); Conn need, no;
  auto lower = [&](const LConn& l, Conn& o, const char* t) { for (auto& [a, b] : l) for (int i = 0; i < (int)v.size(); ++i) for (int j = i + 1; j < (int)v.size(); ++j) if (v[i].op->as<mb::op_t>().label() == a && v[j].op->as<mb::op_t>().label() == b) { o.push_back({i, j}); in += std::string(t) + std::to_string(i) + std::to_string(j); } };
  lower(conn, need, " need"); lower(avoid, no, " avoid");
  Model m = w.model(); Evaluator ev(m);
  auto e = product(v, Constant::scalar_type(rational(1, r.range(1, 3))));
  auto lo = lowered(e); expand(lo); flatten(lo);
  auto rm = ev.eval_ops(lo, {}, [&](auto& s) { return all_pairings(s, need, no); }); Z ref = rm.empty() ? Z(0) : rm.begin()->second;
  rep.count("connected_averages"); if (!need.empty()) rep.count("with_required"); if (!no.empty()) rep.count("with_avoided");
  rep.sample("connected", in); if (!ref.zero()) { rep.count("nonzero_connected"); rep.distinct("nontrivial", hstr(in)); }
  for (int mode = 0; mode < 3; ++mode) {
    bool screen = mode != 1, topo = mode != 2; if (!topo && in.size() > 60) continue;
    ExprPtr out = mb::op::vac_av(e, {.connect = conn, .do_not_connect = avoid, .screen = screen, .use_topology = topo});
    std::string sig = std::string(cc ? "cc" : "connected") + (screen ? topo ? "" : ":no-topology" : ":unscreened"); rep.count("checked:" + sig);
    Z got; try { got = scalar_value(w, out); } catch (EvalError& x) { rep.violation("malformed:" + sig, std::string(x.what()) + "\n  input " + in + "\n  result " + vf::show(out)); continue; }
    if (!(got == ref)) rep.violation("value:" + sig, "expectation value of " + in + " is " + got.str() + " instead of " + ref.str() + "\n  result " + vf::show(out));
  }
}

// rank of a determinant relative to the vacuum: (particles, holes)
std::pair<int, int> excitation(u64 d, u64 vac) { return {__builtin_popcountll(d & ~vac), __builtin_popcountll(vac & ~d)}; }
// screening: "cannot" must be true; operators that do reach a rank are never screened out
void screening(Rng& r, Reporter& rep) {
  World w = world(r, r.chance(1, 2)); PoolParams pp; pp.max_rank = r.chance(1, 4) ? 3 : 2; pp.primed = r.chance(1, 2);
  if (w.mp.per_type.at(1) < 3) pp.max_rank = 2;
  int n = r.range(1, 3); std::vector<OpSpec> v; Mat prod; bool first = true; int tot = 0;
  for (int i = 0; i < n; ++i) { auto s = random_op(r, pp); int k = rank_of(s); if (i && tot + k > 12) break; tot += k; v.push_back(s); auto& m = w.matrix(s); prod = first ? m : mul(prod, m); first = false; }
  ExprPtr e = v.size() == 1 && r.chance(1, 2) ? v[0].op : product(v, Constant::scalar_type(2)); std::string in = names(v);
  if (v.size() > 1 && r.chance(1, 5)) { auto p = product(v); p->as<Product>().append(1, ex<Variable>(L"x"), Product::Flatten::No); e = p; }
  Model m = w.model(); u64 vac = w.vacuum(m);
  std::set<int> raised, lowered_from; bool average = false;   // pure, conserving ranks
  std::set<std::pair<int, int>> up, down;
  for (auto& [k, z] : prod) { if (z.zero()) continue;
    if (k.second == vac) { auto [p, h] = excitation(k.first, vac); up.insert({p, h}); if (p == h) raised.insert(p); }
    if (k.first == vac) { auto [p, h] = excitation(k.second, vac); down.insert({p, h}); if (p == h) lowered_from.insert(p); }
    if (k.first == vac && k.second == vac) average = true; }
  rep.count("screened_products"); rep.sample("screening", in); if (!raised.empty() || !lowered_from.empty()) rep.distinct("nontrivial", hstr(in));
  auto need = [&](bool really, bool says, const char* what, int k) { rep.count(says ? "kept" : "screened_out"); if (really) rep.count("really_reaches"); if (really && !says) rep.violation(std::string("screened:") + what, in + (" is said not to satisfy " + std::string(what)) + " for rank " + std::to_string(k)); };
  using namespace mb::op;
  for (int k = 0; k <= 3; ++k) {
    if (k) { need(raised.count(k), raises_vacuum_to_rank(e, k), "raises_vacuum_to_rank", k); need(lowered_from.count(k), lowers_rank_to_vacuum(e, k), "lowers_rank_to_vacuum", k); }
    bool u = false, l = false; for (int q = 0; q <= k; ++q) { u |= raised.count(q) > 0; l |= lowered_from.count(q) > 0; }
    need(u, raises_vacuum_up_to_rank(e, k), "raises_vacuum_up_to_rank", k); need(l, lowers_rank_or_lower_to_vacuum(e, k), "lowers_rank_or_lower_to_vacuum", k);
  }
  need(average, can_change_qns(e, mb::qns_t{}), "can_change_qns(vacuum)", 0);
  // unequal ranks
  auto hole = sequant::get_hole_space(mb::Spin::any), part = sequant::get_particle_space(mb::Spin::any);
  for (int p = 0; p <= 2; ++p) for (int h = 0; h <= 2; ++h) { if (!p && !h) continue;
    need(up.count({p, h}), can_change_qns(e, mb::generic_excitation_qns(p, h, part, hole)), "can_change_qns(excited)", 10 * p + h);
    need(down.count({p, h}), can_change_qns(e, mb::qns_t{}, mb::generic_excitation_qns(p, h, part, hole)), "can_change_qns(to vacuum)", 10 * p + h); }
  // sharp where nothing is ambiguous: pure excitations and de-excitations only
  bool pure_up = true, pure_down = true; int total = 0;
  for (auto& s : v) { bool t = s.name[0] == 't' , l = s.name.rfind("λ", 0) == 0; bool adj = s.name.find("^+") != std::string::npos; int k = s.name[s.name.find_first_of("123456789")] - '0'; total += k; pure_up &= (t && !adj) || (l && adj); pure_down &= (t && adj) || (l && !adj); }
  for (int k = 1; k <= 4; ++k) {
    if (pure_up) { rep.count("sharp"); if (raises_vacuum_to_rank(e, k) != (k == total) || (total > 0 && can_change_qns(e, mb::qns_t{}))) rep.violation("sharp:raises_vacuum_to_rank", in + " rank " + std::to_string(k)); if (raises_vacuum_up_to_rank(e, k) != (k >= total)) rep.violation("sharp:raises_vacuum_up_to_rank", in + " rank " + std::to_string(k)); }
    if (pure_down) { rep.count("sharp"); if (lowers_rank_to_vacuum(e, k) != (k == total)) rep.violation("sharp:lowers_rank_to_vacuum", in + " rank " + std::to_string(k)); if (lowers_rank_or_lower_to_vacuum(e, k) != (k >= total)) rep.violation("sharp:lowers_rank_or_lower_to_vacuum", in + " rank " + std::to_string(k)); }
  }
}

// operator algebra: order, equality, simplification keep the operator
void algebra(Rng& r, Reporter& rep) {
  World w = world(r); PoolParams pp; pp.max_rank = 2; pp.roots = true; pp.primed = r.chance(1, 2);
  int nt = r.range(1, 4); std::vector<ExprPtr> terms; Mat ref; std::string in;
  std::vector<OpSpec> pool; for (int i = 0; i < 3; ++i) pool.push_back(random_op(r, pp));
  if (r.chance(1, 4)) {   // operators that differ by their normalization only
    using mb::nₚ; using mb::nₕ; using NN = mb::Normalization; int np = r.range(1, 2), nh = r.range(1, 2), q = r(4); auto tag = std::to_string(np) + "," + std::to_string(nh);
    auto mk = [&](std::optional<NN> n) { return q == 0 ? mb::op::r(nₚ(np), nₕ(nh), n.value_or(NN::Default)) : q == 1 ? mb::op::l(nₚ(np), nₕ(nh), n.value_or(NN::Default)) : q == 2 ? mb::op::A(nₚ(np), nₕ(nh), n) : mb::op::P(nₚ(np), nₕ(nh), n); };
    const char* nm[] = {"r", "l", "A", "P"}; rep.count("normalizations");
    pool = {{std::string("default-") + nm[q] + tag, mk({})}, {std::string("bare-") + nm[q] + tag, mk(q < 2 ? NN::Implicit : NN::Default)}, random_op(r, pp)};
    if (np == nh && r.chance(1, 2)) pool[1] = {std::string("root-") + nm[q] + tag, mk(NN::SquareRoot)};
  }
  for (int t = 0; t < nt; ++t) {
    int n = r.range(1, 3); std::vector<OpSpec> v; Mat m; bool f = true; for (int i = 0; i < n; ++i) { auto s = r.pick(pool); v.push_back(s); auto& x = w.matrix(s); m = f ? x : mul(m, x); f = false; }
    Constant::scalar_type c(rational(r.range(-2, 3), r.range(1, 2))); if (c.is_zero()) c = 1;
    for (auto& [k, z] : m) ref[k] += z * to_Z(c);
    terms.push_back(product(v, c)); in += " + " + std::to_string(t) + " " + names(v);
  }
  for (auto it = ref.begin(); it != ref.end();) it = it->second.zero() ? ref.erase(it) : std::next(it);
  ExprPtr e = nt == 1 ? terms[0] : std::make_shared<Sum>(terms.begin(), terms.end());
  rep.count("operator_sums"); rep.sample("algebra", in); if (!ref.empty()) rep.distinct("nontrivial", hstr(in));
  auto value = [&](const ExprPtr& x) {
    Mat tot; std::vector<ExprPtr> ts; if (x->is<Sum>()) for (auto& t : *x) ts.push_back(t); else ts.push_back(x);
    for (auto& t : ts) { Mat m; bool f = true; Z c(1);
      auto fac = [&](const ExprPtr& o) { if (o->is<Constant>()) { c *= to_Z(o->as<Constant>().value()); return; } Model mm = w.model(); Evaluator ev(mm); Mat q = mat(ev.eval_fock(lowered(o), {}, w.modes(mm))); m = f ? q : mul(m, q); f = false; };
      if (t->is<Product>()) { c = to_Z(t->as<Product>().scalar()); for (auto& o : t->as<Product>().factors()) fac(o); } else fac(t);
      if (f) { if (!c.zero()) throw EvalError("scalar term"); continue; }
      for (auto& [k, z] : m) tot[k] += z * c; }
    for (auto it = tot.begin(); it != tot.end();) it = it->second.zero() ? tot.erase(it) : std::next(it);
    return tot; };
  auto check = [&](const char* what, const ExprPtr& x) { rep.count(std::string("checked:") + what); Mat g; try { g = value(x); } catch (EvalError& y) { rep.violation(std::string("malformed:") + what, std::string(y.what()) + " " + narrow(x->to_latex())); return; } if (g != ref) rep.violation(std::string("value:") + what, "another operator\n  input  " + in + "  " + narrow(e->to_latex()) + "\n  output " + narrow(x->to_latex())); };
  { auto c = e->clone(); simplify(c); check("simplify", c); }
  { auto c = e->clone(); canonicalize(c); check("canonicalize", c); }
  { auto c = e->clone(); expand(c); check("expand", c); }
  { auto c = mb::lower_to_tensor_form(const_cast<const ExprPtr&>(e)); if (!c->is<mb::op_t>()) { c = plain_labels(c); simplify(c); rep.count("checked:lowered"); Model mm = w.model(); Evaluator ev(mm); Mat g; try { g = mat(ev.eval_fock(c, {}, w.modes(mm))); } catch (EvalError& y) { if (std::string(y.what()).find("too large") != std::string::npos) throw Discard{}; rep.violation("malformed:lowered", std::string(y.what()) + " " + vf::show(c)); return; } if (g != ref) rep.violation("value:lowered", "another operator\n  input " + in + "\n  output " + vf::show(c)); } }
}
}  // namespace

int main(int argc, char** argv) {
  Suite s("C07");
  setup_min_sr();
  s.add("plain", 1600, 60000, [](Rng& r, long, Reporter& rep) { plain(r, rep); });
  s.add("connected", 1200, 40000, [](Rng& r, long, Reporter& rep) { connected(r, rep, false); });
  s.add("cc", 600, 20000, [](Rng& r, long, Reporter& rep) { connected(r, rep, true); });
  s.add("screening", 3000, 100000, [](Rng& r, long, Reporter& rep) { screening(r, rep); });
  s.add("algebra", 1500, 60000, [](Rng& r, long, Reporter& rep) { algebra(r, rep); });
  return s.main(argc, argv);
}
