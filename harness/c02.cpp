// C02: canonicalization maps equivalent expressions to one form and is idempotent.
#include "common/gen.hpp"
#include "common/model.hpp"
#include "common/report.hpp"
#include "common/setup.hpp"
#include <SeQuant/core/expr.hpp>
#include <iostream>
using namespace vf;
using namespace sequant;
namespace {
using CM = CanonicalizationMethod;
bool nonzero(const Arr& a) { for (auto& z : a.data) if (!z.zero()) return true; return false; }
bool is_zero(const ExprPtr& e) { return e->is<Constant>() && e->as<Constant>().is_zero(); }
size_t nterms(const ExprPtr& e) { return e->is<Sum>() ? e->as<Sum>().size() : is_zero(e) ? 0 : 1; }

struct Case { GenParams p; int nb, nk, na = 0; bool protoext = false; };

void one(Rng& r, Reporter& rep, const Case& c, const ModelParams& mp) {
  CM method = r.chance(1, 2) ? CM::Topological : CM::Complete;
  auto opt = CanonicalizeOptions::default_options().copy_and_set(method).copy_and_set(CanonicalizeOptions::IgnoreNamedIndexLabel::No);
  const char* mname = method == CM::Topological ? "topological" : "complete";
  Gen g(r, c.p); Names n;
  Ext e;
  if (c.protoext) { int k = r(3); for (int i = 0; i < k; ++i) { e.bra.push_back(n.fresh(L"i")); e.ket.push_back(n.fresh(L"i")); } }
  else e = g.externals(n, c.nb, c.nk, c.na);
  auto ext = e.all();
  auto sext = sorted(ext);
  Model m(r.next(), mp);
  Evaluator ev(m);
  // single terms
  Names mine = n;
  auto f = g.network_tensors(e, mine);
  ExprPtr A = make_product(f, Constant::scalar_type(1));
  Arr ref;
  try { ref = ev.eval(A, sext); } catch (EvalError&) { throw Discard{}; }
  if (!nonzero(ref)) { rep.count("zero_by_symmetry"); throw Discard{}; }
  rep.count("terms"); rep.distinct("nontrivial", hstr(show(A)));
  rep.sample("term", show(A));
  ExprPtr ca = A->clone(); canonicalize(ca, opt);
  ExprPtr again = ca->clone(); canonicalize(again, opt);
  rep.count("idempotence_checked");
  if (!(*again == *ca)) rep.violation(std::string("not-idempotent:") + mname, "canonicalizing twice changes the form\n  input " + show(A) + "\n  once  " + show(ca) + "\n  twice " + show(again));
  for (int k = 0; k < 4; ++k) {
    Names fr(r.chance(1, 2) ? 20 + 7 * k : 1 + r(3));
    // labels handed out by `fr` must not collide with externals: only use fresh numbers
    if (fr.first_ < 20) fr = Names(30 + 5 * k);
    auto s = scramble(r, f, ext, fr);
    ExprPtr B = make_product(s.factors, Constant::scalar_type(s.sign));
    ExprPtr cb = B->clone(); canonicalize(cb, opt);
    rep.count("equivalent_pairs");
    if (show(A) == show(B)) rep.count("identical_pairs");
    if (!(*cb == *ca)) {
      // are the values really equal? (guards the monitor itself)
      Model m2(m.seed(), mp); Evaluator e2(m2);
      if (first_difference(ref, e2.eval(B, sext)) >= 0) throw std::runtime_error("monitor produced a non-equivalent copy of " + show(A) + " : " + show(B));
      rep.violation(std::string("two-forms:") + mname, "two forms for one value\n  A " + show(A) + "\n  B " + show(B) + "\n  canonical A " + show(ca) + "\n  canonical B " + show(cb));
    } else if (cb->hash_value() != ca->hash_value()) rep.violation("hash-differs", "equal canonical forms with different hashes: " + show(ca));
    // difference vanishes
    ExprPtr d = ex<Sum>(ExprPtrList{A->clone(), make_product(s.factors, Constant::scalar_type(-s.sign))});
    canonicalize(d, opt); rapid_simplify(d);
    rep.count("differences_checked");
    if (!is_zero(d)) rep.violation(std::string("difference-not-zero:") + mname, "A - A does not cancel\n  A " + show(A) + "\n  B " + show(B) + "\n  result " + show(d));
  }
}

void groups(Rng& r, Reporter& rep, const Case& c, const ModelParams& mp) {
  Gen g(r, c.p); Names n;
  Ext e;
  if (c.protoext) { int k = r(3); for (int i = 0; i < k; ++i) { e.bra.push_back(n.fresh(L"i")); e.ket.push_back(n.fresh(L"i")); } }
  else e = g.externals(n, c.nb, c.nk, c.na);
  auto ext = e.all(); auto sext = sorted(ext);
  Model m(r.next(), mp); Evaluator ev(m);
  int ng = r.range(1, 4);
  std::vector<std::pair<Arr, Constant::scalar_type>> vals;   // distinct up to sign
  std::vector<ExprPtr> terms;
  for (int q = 0; q < ng; ++q) {
    Names mine = n;
    auto f = g.network_tensors(e, mine);
    ExprPtr A = make_product(f, Constant::scalar_type(1));
    Arr v; try { v = ev.eval(A, sext); } catch (EvalError&) { throw Discard{}; }
    if (!nonzero(v)) continue;
    int k = r.range(1, 4); rational tot = 0;
    for (int i = 0; i < k; ++i) {
      Names fr(20 + 9 * i);
      auto s = scramble(r, f, ext, fr);
      rational co(r.range(-3, 3), r.range(1, 3));
      if (i == k - 1 && r.chance(1, 2)) co = -tot;
      if (co == 0) continue;
      tot += co;
      terms.push_back(make_product(s.factors, Constant::scalar_type(co * s.sign)));
    }
    // same value as an earlier group (up to sign)?
    bool found = false;
    for (auto& [w, t] : vals) {
      bool same = first_difference(w, v) < 0, opp = true;
      for (size_t i = 0; i < v.data.size(); ++i) if (v.data[i] != -w.data[i]) opp = false;
      if (same || opp) { t += Constant::scalar_type(same ? tot : -tot); found = true; break; }
    }
    if (!found) vals.emplace_back(v, Constant::scalar_type(tot));
  }
  if (terms.empty()) throw Discard{};
  size_t expected = 0;
  for (auto& [w, t] : vals) if (!(t.real() == 0)) ++expected;
  ExprPtr S = std::make_shared<Sum>(terms.begin(), terms.end());
  std::string in = show(S);
  rep.distinct("nontrivial", hstr(in));
  ExprPtr s1 = S->clone(); simplify(s1);
  rep.count("sums"); rep.count("summands_in", terms.size()); rep.count("summands_out", nterms(s1));
  rep.sample("sum", in);
  if (nterms(s1) > expected) rep.violation("terms-not-merged", "simplify left " + std::to_string(nterms(s1)) + " terms where " + std::to_string(expected) + " are distinct\n  input " + in + "\n  output " + show(s1));
  if (nterms(s1) < expected) rep.violation("terms-lost", "simplify left " + std::to_string(nterms(s1)) + " terms where " + std::to_string(expected) + " distinct values are present\n  input " + in + "\n  output " + show(s1));
  r.shuffle(terms);
  ExprPtr s2 = std::make_shared<Sum>(terms.begin(), terms.end()); simplify(s2);
  rep.count("order_independence_checked");
  auto key = [](const ExprPtr& x) { std::vector<std::string> v; if (x->is<Sum>()) for (auto& t : *x) v.push_back(show(t)); else v.push_back(show(x)); std::sort(v.begin(), v.end()); std::string k; for (auto& t : v) k += t + "\n"; return k; };
  if (key(s1) != key(s2)) rep.violation("order-dependent", "the order of summands changes the result\n  input " + in + "\n  " + show(s1) + "\n  " + show(s2));
  // (a sum that collapses to one term leaves the domain: default options ignore external labels there)
  if (!s1->is<Sum>()) return;
  rep.count("idempotence_checked");
  ExprPtr s3 = s1->clone(); simplify(s3);
  if (key(s3) != key(s1)) rep.violation("simplify-not-idempotent", "simplify twice changes the form\n  input " + in + "\n  once " + show(s1) + "\n  twice " + show(s3));
}
}  // namespace
int main(int argc, char** argv) {
  Suite s("C02");
  setup_sr();
  ModelParams mp; mp.per_type_spin = 1; mp.max_extra = 1; mp.per_type = {{1, 1}, {8, 1}};
  mp.per_type_spin = 2;
  auto plain = [](Rng& r) {
    Case c; c.p.spaces = {L"i", L"a"}; if (r.chance(1, 3)) c.p.spaces.push_back(L"p");
    c.p.n_labels = r.range(1, 3); c.p.max_tensors = r.range(1, 6); c.p.max_dummies = 8; c.p.traces = r.chance(1, 5);
    c.p.allow_bksymm = r.chance(1, 3); c.nb = r(3); c.nk = r(3); return c; };
  auto aux = [](Rng& r) {
    Case c; c.p.aux_spaces = {L"p", L"x"}; c.p.spaces = {L"i", L"a"}; c.p.max_aux_dummies = 3; c.p.max_dummies = 4; c.p.max_tensors = 5;
    c.p.n_labels = r.range(1, 2); c.nb = r(2); c.nk = r(2); c.na = r(2); return c; };
  auto proto = [](Rng& r) {
    Case c; c.p.spaces = {L"i", L"a"}; c.p.proto = true; c.p.max_dummies = 5; c.p.max_tensors = 4; c.p.n_labels = 2;
    c.protoext = true; c.nb = c.nk = 0; return c; };
  s.add("term", 6000, 200000, [&](Rng& r, long, Reporter& rep) { one(r, rep, plain(r), mp); });
  s.add("term-aux", 2000, 60000, [&](Rng& r, long, Reporter& rep) { one(r, rep, aux(r), mp); });
  s.add("term-proto", 2000, 60000, [&](Rng& r, long, Reporter& rep) { one(r, rep, proto(r), mp); });
  s.add("sum", 2500, 80000, [&](Rng& r, long, Reporter& rep) { groups(r, rep, plain(r), mp); });
  s.add("sum-aux", 800, 30000, [&](Rng& r, long, Reporter& rep) { groups(r, rep, aux(r), mp); });
  s.add("sum-proto", 800, 30000, [&](Rng& r, long, Reporter& rep) { groups(r, rep, proto(r), mp); });
  return s.main(argc, argv);
}
