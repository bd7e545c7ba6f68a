// C15: adjoint() is the Hermitian conjugation.
#include "common/mbptx.hpp"
#include <SeQuant/core/wick.hpp>
#include <algorithm>
using namespace vf;
using namespace sequant;
namespace {
bool nonzero(const Arr& a) { for (auto& z : a.data) if (!z.zero()) return true; return false; }
Arr conj(Arr a) { for (auto& z : a.data) z = z.conj(); return a; }

// structure-level laws that hold for every expression
void laws(Reporter& rep, const ExprPtr& e, const ExprPtr& adj, const ExprPtr& before, const std::string& kind) {
  if (!(*e == *before)) rep.violation(kind + ":argument-modified", "adjoint() changed its argument " + vf::show(before) + " into " + vf::show(e));
  auto twice = adjoint(adj);
  rep.count("double_adjoints");
  auto copy = adj->clone();
  if (!(*copy == *adj) || copy->hash_value() != adj->hash_value()) rep.violation(kind + ":stale", "adjoint differs from its own copy: " + vf::show(adj));
  bool nested = false;
  e->visit([&](const ExprPtr& x) { if (x->is<Product>() || x->is<Sum>()) for (auto& c : *x) if (c->is<Product>() && x->is<Product>()) nested = true; });
  if (e->is<Product>()) for (auto& c : *e) nested |= c->is<Product>();
  if (!nested && !(*twice == *e)) rep.violation(kind + ":not-involutive", "adjoint of adjoint of " + vf::show(e) + " is " + vf::show(twice));
}

void cnumber(Rng& r, Reporter& rep) {
  setup_sr();
  GenParams gp; gp.spaces = r.chance(1, 2) ? std::vector<std::wstring>{L"i", L"a"} : std::vector<std::wstring>{L"i", L"a", L"p"};
  gp.max_tensors = r.range(1, 4); gp.max_dummies = r.range(1, 4); gp.max_rank = r.range(1, 3); gp.powers = r.chance(1, 3);
  gp.proto = r.chance(1, 6); gp.n_labels = r.range(1, 3);
  if (r.chance(1, 4)) { gp.aux_spaces = {L"x"}; gp.max_aux_dummies = 1; }
  bool real = r.chance(1, 4); gp.allow_bksymm = real; gp.allow_bkconj = !real;
  if (gp.proto) gp.aux_spaces.clear();
  Gen g(r, gp); Names n;
  Ext ext = g.externals(n, r(3), r(3), gp.aux_spaces.empty() ? 0 : r(2));
  ExprPtr e = r.chance(1, 2) ? g.network(ext, n) : g.nested(ext, n, r.range(1, 3));
  auto sext = sorted(ext.all());
  ModelParams mp; mp.per_type_spin = 1; u64 seed = r.next();
  auto value = [&](const ExprPtr& x) { Model m(seed, mp); m.real_tensors = real; Evaluator ev(m); return ev.eval(x, sext); };
  Arr ref; try { ref = conj(value(e)); } catch (EvalError&) { throw Discard{}; }
  auto before = e->clone();
  if (r.chance(1, 2)) e->hash_value();
  ExprPtr adj = adjoint(e);
  rep.count("cnumber_adjoints"); std::string in = vf::show(e); rep.sample("cnumber", in);
  if (nonzero(ref)) rep.distinct("nontrivial", hstr(in));
  auto check = [&](const char* what, const ExprPtr& x) {
    rep.count(std::string("checked:") + what);
    Arr got; try { got = value(x); } catch (EvalError& y) { rep.violation(std::string("malformed:") + what, std::string(y.what()) + "\n  input " + in + "\n  result " + vf::show(x)); return; }
    if (first_difference(ref, got) >= 0) rep.violation(std::string("value:") + what, "not the complex conjugate\n  input  " + in + "\n  result " + vf::show(x));
  };
  check("adjoint", adj);
  laws(rep, e, adj, before, "cnumber");
  { auto c = e->clone(); c->adjoint(); check("in place", c); if (!(*c == *adj)) rep.violation("in-place-differs", "in-place adjoint of " + in + " is " + vf::show(c)); }
  { auto c = adj->clone(); check("simplify(adjoint)", simplify(c)); }
  { auto c = e->clone(); c = simplify(c); rep.count("simplified"); check("adjoint(simplify)", adjoint(c)); }
  { auto c = adj->clone(); check("expand(adjoint)", expand(c)); }
  { auto c = adj->clone(); expand(c); canonicalize(c); auto d = adjoint(c); Arr v; try { v = conj(value(d)); } catch (EvalError& y) { rep.violation("malformed:adjoint(canonicalize(adjoint))", y.what()); return; }
    if (first_difference(ref, v) >= 0) rep.violation("value:adjoint(canonicalize(adjoint))", "input " + in + "\n  result " + vf::show(d)); }
}

// sums and products of normal operators with attached tensors
template <class NOP> ExprPtr op_term(Rng& r, Names& n, const std::vector<std::wstring>& sp, Vacuum vac, int maxnops, int maxops, std::vector<Index>& ext, bool external) {
  auto p = std::make_shared<Product>(); int used = 0, k = r.range(1, maxnops);
  p->scale(Constant::scalar_type(rational(r.range(1, 3), r.range(1, 3)), r.chance(1, 3) ? rational(r.range(-2, 2)) : rational(0)));
  std::vector<ExprPtr> fs;
  for (int q = 0; q < k; ++q) {
    int c = r(3), a = r(3); if (c + a == 0) c = 1; if (used + c + a > maxops) break; used += c + a;
    std::vector<Index> C, A; for (int i = 0; i < c; ++i) C.push_back(n.fresh(r.pick(sp))); for (int i = 0; i < a; ++i) A.push_back(n.fresh(r.pick(sp)));
    if (external && q == 0) { for (auto& i : C) ext.push_back(i); for (auto& i : A) ext.push_back(i); }
    else {
      bool anti = r.chance(1, 2) && C.size() == A.size();
      auto h = r.chance(1, 3) ? Hermiticity::Hermitian : Hermiticity::NonHermitian;
      fs.push_back(ex<Tensor>(r.chance(1, 2) ? L"g" : L"t", bra(C), ket(A), anti ? Symmetry::Antisymm : Symmetry::Nonsymm, h, anti ? ColumnSymmetry::Symm : ColumnSymmetry::Nonsymm));
    }
    fs.push_back(ex<NOP>(cre(C), ann(A), vac));
  }
  if (r.chance(1, 3)) fs.insert(fs.begin() + r((int)fs.size() + 1), ex<Variable>(r.chance(1, 2) ? L"x" : L"y"));
  for (auto& f : fs) p->append(1, f, Product::Flatten::No);
  return p;
}
void operators(Rng& r, Reporter& rep) {
  bool bose = r.chance(1, 4);
  auto vac = bose ? Vacuum::Physical : r.chance(2, 3) ? Vacuum::SingleProduct : Vacuum::Physical;
  setup_min_sr(vac);
  std::vector<std::wstring> sp{L"i", L"a", L"p"}; if (r.chance(1, 3)) sp = {L"i", L"a"};
  ModelParams mp; mp.per_type_spin = 1; mp.per_type = bose ? std::map<std::uint32_t, int>{{1, 1}, {2, 1}} : std::map<std::uint32_t, int>{{1, r.range(1, 2)}, {2, 2}};
  u64 seed = r.next();
  Names n; std::vector<Index> ext; bool external = r.chance(1, 3); ExprPtr e;
  auto term = [&](Names& n, int nops, int ops, bool x) { return bose ? op_term<BNOperator>(r, n, sp, vac, nops, ops, ext, x) : op_term<FNOperator>(r, n, sp, vac, nops, ops, ext, x); };
  if (external) e = term(n, 3, 6, true);
  else if (r.chance(1, 3)) { std::vector<ExprPtr> v; int k = r.range(2, 3); for (int i = 0; i < k; ++i) v.push_back(term(n, 2, 5, false)); e = std::make_shared<Sum>(v.begin(), v.end()); }
  else if (r.chance(1, 3)) { auto p = std::make_shared<Product>(); p->append(1, term(n, 1, 4, false), Product::Flatten::No); std::vector<ExprPtr> v; for (int i = 0; i < 2; ++i) v.push_back(term(n, 1, 4, false)); p->append(1, std::make_shared<Sum>(v.begin(), v.end()), Product::Flatten::No); e = p; }
  else e = term(n, 3, 8, false);
  if (ext.size() > 4) throw Discard{};
  ext = sorted(ext);
  auto eval = [&](const ExprPtr& x) {
    Model m(seed, mp); if (vac == Vacuum::SingleProduct) m.occ_types = 1;
    std::set<int> s; for (auto& l : sp) for (int o : m.orbitals(get_default_context().index_space_registry()->retrieve(l))) s.insert(o);
    std::vector<int> modes(s.begin(), s.end());
    Evaluator ev(m);
    if (!bose) return ev.eval_fock(x, ext, modes);
    // creation raises the occupation without bound: keep the square block of small occupations
    auto small = [&](u64 st) { int t = 0; while (st) { t += st & 63; st >>= 6; } return t <= 2; };
    Fock f; for (auto& [k, z] : ev.eval_bose(x, ext, modes, 2)) {
      // normalized states: <m|A|n> in the unnormalized basis differs by m!/n!
      auto fact = [&](u64 st) { i64 p = 1; while (st) { for (int q = st & 63; q > 1; --q) p *= q; st >>= 6; } return p; };
      if (small(std::get<1>(k)) && small(std::get<2>(k))) f[k] = z * Z(fact(std::get<1>(k))) ;
    }
    return f;
  };
  Fock ref; try { ref = dagger(eval(e)); } catch (EvalError&) { throw Discard{}; }
  auto before = e->clone(); if (r.chance(1, 2)) e->hash_value();
  ExprPtr adj = adjoint(e); std::string in = vf::show(e);
  rep.count(bose ? "boson_adjoints" : vac == Vacuum::SingleProduct ? "fermi_vacuum_adjoints" : "physical_vacuum_adjoints"); rep.sample("operators", in);
  if (!ref.empty()) rep.distinct("nontrivial", hstr(in));
  auto check = [&](const char* what, const ExprPtr& x) {
    rep.count(std::string("checked-operators:") + what);
    Fock got; try { got = eval(x); } catch (EvalError& y) { rep.violation(std::string("operators:malformed:") + what, std::string(y.what()) + "\n  input " + in + "\n  result " + vf::show(x)); return; }
    if (got != ref) rep.violation(std::string("operators:value:") + what, "not the conjugate transpose\n  input  " + in + "\n  result " + vf::show(x));
  };
  check("adjoint", adj); laws(rep, e, adj, before, "operators");
  { auto c = adj->clone(); check("simplify(adjoint)", simplify(c)); }
  { auto c = e->clone(); expand(c); check("adjoint(expand)", adjoint(c)); }
  // Wick's theorem on the adjoint = adjoint of Wick's theorem
  if (!bose && e->is<Product>() && !external && r.chance(1, 2)) {
    auto c = adj->clone(); expand(c); std::size_t maxn = 0; bool ok = true;
    auto look = [&](const ExprPtr& t) { std::size_t k = 0; if (t->is<Product>()) { for (auto& f : t->as<Product>().factors()) { if (f->is<FNOperator>()) k += f->as<FNOperator>().size(); if (f->is<Variable>()) ok = false; } } else ok = false; maxn = std::max(maxn, k); };
    if (c->is<Sum>()) for (auto& t : *c) look(t); else look(c);
    if (ok && maxn <= 8) {
      FWickTheorem wt{c}; wt.full_contractions(false).use_topology(false); ExprPtr out = wt.compute(); rep.count("wick_of_adjoint"); check("wick(adjoint)", out);
    }
  }
}
template <class NOP, class SEQ> void sequences(Rng& r, Reporter& rep, Vacuum vac) {
  setup_min_sr(vac);
  Names n; std::vector<NOP> v; std::vector<std::wstring> sp{L"i", L"a", L"p"}; int k = r.range(1, 3);
  for (int q = 0; q < k; ++q) { int c = r(3), a = r(3); if (c + a == 0) a = 1; std::vector<Index> C, A; for (int i = 0; i < c; ++i) C.push_back(n.fresh(r.pick(sp))); for (int i = 0; i < a; ++i) A.push_back(n.fresh(r.pick(sp))); v.emplace_back(cre(C), ann(A), vac); }
  SEQ s = k == 1 ? SEQ{v[0]} : k == 2 ? SEQ{v[0], v[1]} : SEQ{v[0], v[1], v[2]};
  const SEQ before = s; if (r.chance(1, 2)) s.hash_value();
  SEQ t = sequant::adjoint(s); rep.count("sequences"); rep.distinct("nontrivial", hstr(narrow(s.to_latex())));
  bool ok = s.size() == t.size() && t.vacuum() == s.vacuum();
  for (std::size_t q = 0; ok && q < s.size(); ++q) {
    auto& a = s[q]; auto& b = t[s.size() - 1 - q];
    ok = a.ncreators() == b.nannihilators() && a.nannihilators() == b.ncreators() && b.vacuum() == a.vacuum() && a.size() == b.size();
    auto ac = a.creators() | ranges::views::transform([](auto& o) { return o.index(); }) | ranges::to_vector; auto bc = b.creators() | ranges::views::transform([](auto& o) { return o.index(); }) | ranges::to_vector;
    auto aa = a.annihilators() | ranges::views::transform([](auto& o) { return o.index(); }) | ranges::to_vector; auto ba = b.annihilators() | ranges::views::transform([](auto& o) { return o.index(); }) | ranges::to_vector;
    if (ok && (std::vector<Index>(ac.begin(), ac.end()) != std::vector<Index>(ba.begin(), ba.end()) || std::vector<Index>(aa.begin(), aa.end()) != std::vector<Index>(bc.begin(), bc.end()))) ok = false;
  }
  if (!ok) rep.violation("sequence:shape", "adjoint of " + narrow(s.to_latex()) + " is " + narrow(t.to_latex()));
  const Expr &se = s, &be = before, &te = t;
  if (!(se == be)) rep.violation("sequence:argument-modified", narrow(s.to_latex()));
  SEQ back = sequant::adjoint(t); const Expr& ke = back;
  if (!(ke == se) || back.hash_value() != s.hash_value()) rep.violation("sequence:not-involutive", narrow(s.to_latex()) + " becomes " + narrow(back.to_latex()));
  SEQ copy = t; const Expr& ce = copy; if (!(ce == te) || copy.hash_value() != t.hash_value()) rep.violation("sequence:stale", narrow(t.to_latex()));
}

// many-body operators: tensor form, quantum numbers, label, identity
void manybody(Rng& r, Reporter& rep) {
  setup_min_sr();
  PoolParams pp; pp.adjoints = false; pp.roots = true; pp.max_rank = r.chance(1, 3) ? 3 : 2;
  ModelParams mp; mp.per_type_spin = 1; mp.per_type = {{1, 2}, {2, 2}}; if (pp.max_rank == 3) mp.per_type = {{1, 2}, {2, 3}};
  u64 seed = r.next();
  auto eval = [&](const ExprPtr& x) {
    Model m(seed, mp); m.occ_types = 1; std::set<int> s; for (auto l : {L"i", L"a"}) for (int o : m.orbitals(get_default_context().index_space_registry()->retrieve(l))) s.insert(o);
    Evaluator ev(m); return mat(ev.eval_fock(lowered(x), {}, {s.begin(), s.end()}));
  };
  auto check_op = [&](const OpSpec& s) {
    using mb::op_t;
    auto& op = s.op; auto adj = adjoint(op); auto back = adjoint(adj); std::string in = s.name;
    rep.count("manybody_adjoints"); rep.distinct("nontrivial", hstr("mb" + in));
    auto& o = op->as<op_t>(); auto& a = adj->as<op_t>(); auto& b = back->as<op_t>();
    if (!(*back == *op) || back->hash_value() != op->hash_value()) rep.violation("manybody:not-involutive", in);
    if (*adj == *op) rep.violation("manybody:adjoint-equal", in);
    std::wstring want(o.label()); want.push_back(adjoint_label);
    if (a.label() != want || b.label() != o.label()) rep.violation("manybody:label", in + ": label of the adjoint is " + narrow(std::wstring(a.label())));
    if (a.order() != o.order() || a.batch_ordinals() != o.batch_ordinals() || b.order() != o.order()) rep.violation("manybody:attributes", in);
    // what it does to the particle numbers is reversed
    auto q = o(), qa = a(), qb = b();
    bool ok = q == qb && q.size() == qa.size();
    for (std::size_t k = 0; ok && k < q.size(); k += 2) ok = equal(q[k], qa[k + 1]) && equal(q[k + 1], qa[k]);
    if (!ok) rep.violation("manybody:quantum-numbers", in);
    Mat m, ma, mb_;
    try { m = eval(op); ma = eval(adj); mb_ = eval(back); } catch (EvalError& x) { rep.violation("manybody:malformed", in + ": " + x.what() + " " + vf::show(lowered(adj))); return Mat{}; }
    if (ma != dagger(m)) rep.violation("manybody:value", in + ": tensor form " + vf::show(lowered(adj)) + " is not the conjugate transpose of " + vf::show(lowered(op)));
    if (mb_ != m) rep.violation("manybody:value-twice", in);
    if (m.empty() && pp.max_rank < 3) rep.count("zero_matrices");
    return m;
  };
  // one, then a product
  auto s = random_op(r, pp); auto m1 = check_op(s);
  if (pp.max_rank == 3) return;
  int k = r.range(2, 3); std::vector<ExprPtr> fs; std::string names; Mat prod; bool first = true; bool outer = r.chance(1, 3);
  for (int i = 0; i < k; ++i) {
    auto x = random_op(r, pp); if (r.chance(1, 3)) { x.op = adjoint(x.op); x.name += "^+"; }
    if (outer && i == 1) { auto y = random_op(r, pp); x.op = x.op->clone() + y.op; x.name = "(" + x.name + "+" + y.name + ")"; }
    Mat m = eval(x.op);
    fs.push_back(x.op); names += x.name + " "; prod = first ? m : mul(prod, m); first = false;
  }
  Constant::scalar_type c(rational(r.range(1, 3), 2), rational(r.range(-1, 1)));
  auto p = std::make_shared<Product>(); p->scale(c); for (auto& f : fs) p->append(1, f, Product::Flatten::No);
  ExprPtr e = p; auto before = e->clone(); auto adj = adjoint(e); rep.count("manybody_products"); rep.distinct("nontrivial", hstr("mp" + names)); rep.sample("manybody", names);
  Mat want; for (auto& [kk, z] : dagger(prod)) { Z v = z * to_Z(c).conj(); want[kk] = v; }
  // evaluate factor by factor: reversed order
  Mat got; first = true; if (adj->is<Product>()) for (auto& f : adj->as<Product>().factors()) { Mat m = eval(f); got = first ? m : mul(got, m); first = false; }
  Z sc = to_Z(adj->as<Product>().scalar()); for (auto& [kk, z] : got) z *= sc;
  if (got != want) rep.violation("manybody:product", "adjoint of " + names + " is " + narrow(adj->to_latex()));
  laws(rep, e, adj, before, "manybody");
}
}  // namespace

int main(int argc, char** argv) {
  Suite s("C15");
  setup_min_sr();
  s.add("cnumber", 12000, 300000, [](Rng& r, long, Reporter& rep) { cnumber(r, rep); });
  s.add("operators", 6000, 200000, [](Rng& r, long, Reporter& rep) { operators(r, rep); });
  s.add("sequence", 3000, 60000, [](Rng& r, long, Reporter& rep) { int k = r(3); if (k == 0) sequences<BNOperator, BNOperatorSeq>(r, rep, Vacuum::Physical); else sequences<FNOperator, FNOperatorSeq>(r, rep, k == 1 ? Vacuum::Physical : Vacuum::SingleProduct); });
  s.add("manybody", 1500, 60000, [](Rng& r, long, Reporter& rep) { manybody(r, rep); });
  return s.main(argc, argv);
}
