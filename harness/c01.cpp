// C01: rewriting an expression never changes its value.
#include "common/gen.hpp"
#include "common/model.hpp"
#include "common/report.hpp"
#include "common/setup.hpp"
#include <SeQuant/core/expr.hpp>
#include <iostream>
using namespace vf;
using namespace sequant;

namespace {
struct Ctx { ModelParams mp; };

std::string diff_text(const std::string& what, const ExprPtr& before, const ExprPtr& after, long at, const Arr& a, const Arr& b) {
  return what + ": element " + std::to_string(at) + " is " + (at < (long)b.data.size() ? b.data[at].str() : "?") + ", expected " +
         (at < (long)a.data.size() ? a.data[at].str() : "?") + "\n  input  " + show(before) + "\n  output " + show(after);
}

// evaluates `after` and compares with the reference value of `before`
void check_same(Reporter& rep, u64 seed, const ModelParams& mp, const std::string& what, const ExprPtr& before, const Arr& ref,
                const ExprPtr& after, const std::vector<Index>& ext) {
  Model m(seed, mp);
  Evaluator ev(m);
  rep.count("values_compared");
  rep.count("checked:" + what);
  Arr got;
  try { got = ev.eval(after, ext); }
  catch (EvalError& e) { rep.violation("malformed:" + what, std::string("result is not a well-formed expression (") + e.what() + ")\n  input  " + show(before) + "\n  output " + show(after)); return; }
  rep.distinct("distinct_values", [&] { u64 h = 1; for (auto& z : got.data) { h = comb(h, z.re); h = comb(h, z.im); } return h; }());
  long d = first_difference(ref, got);
  if (d >= 0) rep.violation("value:" + what, diff_text(what, before, after, d, ref, got));
}

bool nonzero(const Arr& a) { for (auto& z : a.data) if (!z.zero()) return true; return false; }

using Op = std::pair<const char*, std::function<ExprPtr(ExprPtr)>>;
std::vector<Op> rewrites() {
  using CM = CanonicalizationMethod;
  auto opt = [](CM m) { return CanonicalizeOptions::default_options().copy_and_set(m); };
  return {
      {"expand", [](ExprPtr e) { expand(e); return e; }},
      {"flatten", [](ExprPtr e) { flatten(e); return e; }},
      {"non_canon_simplify", [](ExprPtr e) { non_canon_simplify(e); return e; }},
      {"rapid_simplify", [](ExprPtr e) { rapid_simplify(e); return e; }},
      {"simplify", [](ExprPtr e) { simplify(e); return e; }},
      {"canonicalize(topological)", [=](ExprPtr e) { canonicalize(e, opt(CM::Topological)); return e; }},
      {"canonicalize(complete)", [=](ExprPtr e) { canonicalize(e, opt(CM::Complete)); return e; }},
      {"canonicalize(rapid)", [=](ExprPtr e) { canonicalize(e, opt(CM::Rapid)); return e; }},
      {"simplify(complete)", [=](ExprPtr e) { simplify(e, SimplifyOptions(opt(CM::Complete))); return e; }},
      {"expand+canonicalize", [](ExprPtr e) { expand(e); flatten(e); canonicalize(e); return e; }},
      {"simplify twice", [](ExprPtr e) { simplify(e); simplify(e); return e; }},
      {"expand(rvalue)", [](ExprPtr e) { return expand(std::move(e)); }},
      {"simplify(rvalue)", [](ExprPtr e) { return simplify(std::move(e)); }},
      {"flatten(rvalue)", [](ExprPtr e) { return flatten(std::move(e)); }},
      {"canonicalize(rvalue)", [](ExprPtr e) { return canonicalize(std::move(e)); }},
      {"canonicalize(rvalue,rapid)", [=](ExprPtr e) { return canonicalize(std::move(e), opt(CM::Rapid)); }},
      {"result:expand", [](ExprPtr e) { ResultExpr x(Variable(L"R"), e); expand(x); return x.expression(); }},
      {"result:flatten", [](ExprPtr e) { ResultExpr x(Variable(L"R"), e); flatten(x); return x.expression(); }},
      {"result:canonicalize", [](ExprPtr e) { ResultExpr x(Variable(L"R"), e); canonicalize(x); return x.expression(); }},
      {"result:rapid_simplify", [](ExprPtr e) { ResultExpr x(Variable(L"R"), e); rapid_simplify(x); return x.expression(); }},
      {"result:simplify", [](ExprPtr e) { ResultExpr x(Variable(L"R"), e); simplify(x); return x.expression(); }},
      {"result:non_canon_simplify", [](ExprPtr e) { ResultExpr x(Variable(L"R"), e); non_canon_simplify(x); return x.expression(); }},
      {"result:canonicalize(rvalue)", [](ExprPtr e) { ResultExpr x = canonicalize(ResultExpr(Variable(L"R"), e)); return x.expression(); }},
      {"result:expand(rvalue)", [](ExprPtr e) { ResultExpr x = expand(ResultExpr(Variable(L"R"), e)); return x.expression(); }},
      {"result:flatten(rvalue)", [](ExprPtr e) { ResultExpr x = flatten(ResultExpr(Variable(L"R"), e)); return x.expression(); }},
      {"result:rapid_simplify(rvalue)", [](ExprPtr e) { ResultExpr x = rapid_simplify(ResultExpr(Variable(L"R"), e)); return x.expression(); }},
      {"result:simplify(rvalue)", [](ExprPtr e) { ResultExpr x = simplify(ResultExpr(Variable(L"R"), e)); return x.expression(); }},
      {"result:non_canon_simplify(rvalue)", [](ExprPtr e) { ResultExpr x = non_canon_simplify(ResultExpr(Variable(L"R"), e)); return x.expression(); }},
  };
}

void run_rewrites(Rng& r, Reporter& rep, const ModelParams& mp, const ExprPtr& e, const std::vector<Index>& ext, int nops) {
  Model m(r.next(), mp);
  Evaluator ev(m);
  Arr ref;
  try { ref = ev.eval(e, ext); } catch (EvalError& x) { rep.count(std::string("skipped:") + x.what()); throw Discard{}; }
  rep.count("expressions");
  if (nonzero(ref)) { rep.count("nonzero_reference"); rep.distinct("nontrivial", hstr(show(e))); } else rep.count("zero_reference");
  rep.sample("expression", show(e));
  auto ops = rewrites();
  std::string before_text = show(e);
  for (int i = 0; i < nops; ++i) {
    auto& op = ops[r((int)ops.size())];
    ExprPtr c = e->clone();
    ExprPtr out;
    try { out = op.second(c); }
    catch (std::exception& x) { rep.violation(std::string("throws:") + op.first, std::string(op.first) + " threw " + x.what() + " on " + before_text); continue; }
    check_same(rep, m.seed(), mp, op.first, e, ref, out, ext);
    if (show(e) != before_text) { rep.violation(std::string("aliasing:") + op.first, std::string(op.first) + " on a clone changed the original " + before_text); return; }
  }
}
}  // namespace

int main(int argc, char** argv) {
  Suite s("C01");
  setup_sr();
  ModelParams mp; mp.per_type_spin = 1; mp.max_extra = 1; mp.per_type = {{1, 1}, {8, 1}};

  // products of tensors
  s.add("network", 15000, 400000, [&](Rng& r, long, Reporter& rep) {
    setup_sr(Vacuum::SingleProduct, SPBasis::Spinor, r.chance(1, 2) ? CanonicalizationMethod::Topological : CanonicalizationMethod::Complete);
    GenParams p; p.spaces = {L"i", L"a", r.chance(1, 2) ? L"p" : L"x"}; p.n_labels = r.range(1, 3); p.max_tensors = r.range(1, 5); p.max_dummies = 7;
    p.traces = r.chance(1, 5); p.allow_bksymm = r.chance(1, 3);
    if (r.chance(1, 4)) p.spaces = {L"i", L"a", L"m", L"e"};
    Gen g(r, p); Names n;
    Ext e = g.externals(n, r(3), r(3));
    run_rewrites(r, rep, mp, g.network(e, n), sorted(e.all()), 5);
  });
  // sums of products with shared externals, some of them rewrites of each other
  s.add("bare", 3000, 40000, [&](Rng& r, long, Reporter& rep) {
    GenParams p; p.spaces = {L"i", L"a"}; p.n_labels = 2; p.max_rank = 3; p.allow_bksymm = r.chance(1, 3); if (r.chance(1, 3)) p.aux_spaces = {L"p"};
    Gen g(r, p); Names n; Ext e = g.externals(n, r(4), r(4), p.aux_spaces.empty() ? 0 : r(3));
    if (e.all().empty()) throw Discard{};
    r.shuffle(e.bra); r.shuffle(e.ket);
    auto t = g.tensor(0, e.bra, e.ket, e.aux);
    run_rewrites(r, rep, mp, t, sorted(e.all()), 6);
  });
  s.add("sum", 5000, 140000, [&](Rng& r, long, Reporter& rep) {
    GenParams p; p.n_labels = r.range(1, 3); p.max_tensors = r.range(1, 4); p.allow_bksymm = r.chance(1, 3); p.powers = r.chance(1, 4);
    if (r.chance(1, 2)) p.spaces = {L"i", L"a"};
    Gen g(r, p); Names n;
    Ext e = g.externals(n, r(3), r(3));
    auto ext = e.all();
    auto sum = std::make_shared<Sum>();
    int k = r.range(2, 5);
    for (int t = 0; t < k; ++t) {
      Names mine = n;
      auto f = g.network_tensors(e, mine);
      Constant::scalar_type c = g.scalar();
      sum->append(make_product(f, c));
      int copies = r(3);
      for (int q = 0; q < copies; ++q) {
        Names fr(20 + q * 7);
        auto sc = scramble(r, f, ext, fr);
        sum->append(make_product(sc.factors, r.chance(1, 2) ? Constant::scalar_type(-c.real() * sc.sign, -c.imag() * sc.sign) : g.scalar()));
      }
      rep.count("scrambled_copies", copies);
    }
    run_rewrites(r, rep, mp, ExprPtr(sum), sorted(ext), 4);
  });
  // nested sums and products
  s.add("nested", 6000, 150000, [&](Rng& r, long, Reporter& rep) {
    GenParams p; p.n_labels = 3; p.max_tensors = 2; p.max_dummies = 2; p.max_rank = 3; p.powers = r.chance(1, 4);
    p.spaces = {L"i", L"a"};
    Gen g(r, p); Names n;
    Ext e = g.externals(n, r(2), r(2));
    run_rewrites(r, rep, mp, g.nested(e, n, r.range(1, 3)), sorted(e.all()), 5);
  });
  // auxiliary indices (shared by any number of tensors)
  s.add("aux", 3600, 90000, [&](Rng& r, long, Reporter& rep) {
    GenParams p; p.aux_spaces = {L"p", L"x"}; p.spaces = {L"i", L"a"}; p.max_aux_dummies = 3; p.max_dummies = 3; p.max_tensors = 4; p.n_labels = 2;
    Gen g(r, p); Names n;
    Ext e = g.externals(n, r(2), r(2), r(2));
    run_rewrites(r, rep, mp, g.network(e, n), sorted(e.all()), 4);
  });
  // indices with proto indices
  s.add("proto", 3000, 80000, [&](Rng& r, long, Reporter& rep) {
    GenParams p; p.spaces = {L"i", L"a"}; p.proto = true; p.max_dummies = 5; p.max_tensors = 3; p.n_labels = 2; p.allow_antisymm = r.chance(1, 2);
    Gen g(r, p); Names n;
    Ext e; int k = r(3);
    for (int i = 0; i < k; ++i) { e.bra.push_back(n.fresh(L"i")); e.ket.push_back(n.fresh(L"i")); }
    run_rewrites(r, rep, mp, g.network(e, n), sorted(e.all()), 4);
  });
  return s.main(argc, argv);
}
