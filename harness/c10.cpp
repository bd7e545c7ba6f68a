// C10: common-subexpression elimination and subtree extraction preserve the
// value of every expression, define before use and reuse what is equal.
#include "common/evalx.hpp"
#include <SeQuant/core/optimize/common_subexpression_elimination.hpp>
#include <SeQuant/core/optimize/extract_subtrees.hpp>
namespace {
struct Binarizer {
  Node operator()(ExprPtr const& e) const { return binarize<EvalX>(e); }
  Node operator()(ResultExpr const& e) const { return binarize<EvalX>(e); }
};
std::wstring root_label(Node const& n) { return n->is_tensor() ? std::wstring(n->as_tensor().label()) : std::wstring(n->as_variable().label()); }
// evaluates trees in order; a tree's value is stored under its root's name and found again by leaves of that name
struct Program {
  Leaves* L; std::map<std::wstring, ResultPtr> named; std::map<std::wstring, long> uses; std::set<std::wstring> undefined; std::set<std::wstring> names;
  ResultPtr operator()(Node const& n) {
    if (n->is_tensor() || n->is_variable()) {
      auto l = root_label(n);
      if (names.count(l)) {
        ++uses[l]; auto it = named.find(l);
        if (it == named.end()) { undefined.insert(l); throw std::runtime_error("a value is used before it is defined: " + toUtf8(l)); }
        return it->second->is<XT>() ? eval_result<XT>(it->second->as<XT>().d()) : ResultPtr(eval_result<ResultScalar<Z>>(it->second->as<ResultScalar<Z>>().value()));
      }
    }
    return (*L)(n);
  }
  struct Ref { Program* p; ResultPtr operator()(Node const& n) const { return (*p)(n); } };
  std::vector<Z> run(Node const& t) {
    Ref r{this}; ResultPtr v;
    if (t->is_tensor()) { std::vector<Index> slots; for (auto& i : t->as_tensor().const_slots()) if (i.nonnull()) slots.push_back(i); v = evaluate(t, labels(slots), r); }
    else v = evaluate(t, r);
    auto l = root_label(t); named[l] = v; names.insert(l);
    return data_of(v);
  }
};
std::string list(const std::vector<Node>& v) { std::string s; for (auto& t : v) s += "    " + toUtf8(root_label(t)) + (t->is_tensor() ? " " + show(t->expr()) : "") + " = " + show(to_expr(t)) + "\n"; return s; }

void each_node(Node const& n, const std::function<void(Node const&)>& f) { f(n); if (!n.leaf()) { each_node(n.left(), f); each_node(n.right(), f); } }
// a list of results; later ones may use earlier ones
struct List {
  World w; std::vector<Node> nodes; std::vector<ExprPtr> terms; std::string d; std::vector<bool> dep;
  List(Rng& r, Reporter& rep, GenParams gp, bool sums, int n) : w(r, rep, gp, sums) {
    w.flat = !sums && r.chance(1, 2);
    int nb = r(3), nk = r.chance(2, 3) ? nb : r(3);
    w.init(nb, nk, 0, r.range(1, 3));
    for (int k = 0; k < n; ++k) {
      int m = r.chance(1, 2) ? 1 : r.range(2, 3); std::vector<ExprPtr> l;
      bool uses = k && r.chance(1, 5);
      for (int q = 0; q < m; ++q) {
        ExprPtr t = relabel(k && r.chance(1, 8) && !uses ? again(terms[r(k)]) : w.term());
        // one result may enter a later one
        if (uses && q == 0) { int o = r(k); ExprPtr f = w.ext.empty() ? ex<Variable>(L"R" + std::to_wstring(o)) : ex<Tensor>(L"R" + std::to_wstring(o), bra(w.E.bra), ket(w.E.ket), aux(w.E.aux), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm); t = w.ext.empty() ? make_product({f, t}, 1) : ExprPtr(f); }
        l.push_back(t);
      }
      ExprPtr e = m == 1 ? l[0] : ExprPtr(std::make_shared<Sum>(l.begin(), l.end()));
      if (!e->is<Sum>() && !e->is<Product>() && !e->is<Tensor>()) throw Discard{};
      dep.push_back(uses); terms.push_back(e);
      auto name = L"R" + std::to_wstring(k);
      auto re = w.ext.empty() ? ResultExpr(Variable(name), e) : ResultExpr(Tensor(name, bra(w.E.bra), ket(w.E.ket), aux(w.E.aux), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm), e);
      nodes.push_back(binarize<EvalX>(re));
    }
    double c = 0; for (auto& t : nodes) c += tree_cost(t); if (c > 3e5) throw Discard{};
    d = "  results\n" + list(nodes);
  }
  ExprPtr again(const ExprPtr& t) { World::Map m; for (auto& i : w.ext) m.emplace(i, i); if (has_result(t)) return w.term(); return w.rename(t, m); }
  static bool has_result(const ExprPtr& t) { bool b = false; t->visit([&](auto const& x) { if (x->template is<Tensor>() && x->template as<Tensor>().label()[0] == L'R') b = true; if (x->template is<Variable>() && x->template as<Variable>().label()[0] == L'R') b = true; }, true); return b; }
};
template <bool Collide> void cse(Rng& r, Reporter& rep, List& f, ModelParams mp) {
  Model m(r.next(), mp); Evaluator ev(m); Leaves L{&m}; L.fresh = true;
  rep.sample("results", f.d);
  guarded(rep, "cse", f.d, [&] {
    std::map<std::wstring, std::vector<Z>> want; std::vector<std::wstring> order; std::set<std::wstring> orig;
    Program a{&L}; for (size_t k = 0; k < f.nodes.size(); ++k) {
      auto l = root_label(f.nodes[k]); orig.insert(l); order.push_back(l); want[l] = a.run(f.nodes[k]);
      if (!f.dep[k]) { try { if (ev.eval(f.terms[k], f.w.ext).data != want[l]) { rep.violation("value:plain", "a tree evaluated on its own differs from its expression\n" + f.d); return; } rep.count("anchored_to_expression"); } catch (EvalError&) { throw Discard{}; } }
    }
    auto trees = f.nodes;
    opt::CSEOptions<Node> o{}; int style = r(3); std::vector<std::wstring> gen;
    auto accept = [style](Node const& n, std::size_t u) { return style == 0 ? true : style == 1 ? n.size() > 3 : (n->is_tensor() ? n->canon_indices().size() <= 2 : true) && u < 5; };
    o.filter_predicate = accept;
    std::size_t calls = 0; o.label_gen = [&calls](Node const&, std::size_t c) { ++calls; return "J" + std::to_string(c); };
    std::unordered_map<Node, long, TreeNodeHasher<Node>, TreeNodeEqualityComparator<Node>> cnt;
    for (auto& t : trees) t.visit_internal([&](Node const& n) { ++cnt[n]; });
    if (r.chance(1, 4)) { each_node(trees[r((int)trees.size())], [&](Node const& n) { if (n.leaf() && n->is_tensor() && r.chance(1, 3)) for (auto& i : n->as_tensor().const_indices()) if (r.chance(1, 2)) o.batch_indices.push_back(i); }); rep.count("batch_indices", o.batch_indices.size()); }
    auto idx = opt::eliminate_common_subexpressions<decltype(trees), Binarizer, Collide>(trees, Binarizer{}, o);
    std::string after = f.d + "  after elimination\n" + list(trees);
    rep.count("lists"); rep.count("subexpressions_named", idx.size()); if (!idx.empty()) rep.distinct("nontrivial", hstr(f.d));
    // bookkeeping: the returned positions are exactly the definitions; the results keep their order
    if (trees.size() != f.nodes.size() + idx.size()) { rep.violation("structure", "the number of trees is not results + definitions\n" + after); return; }
    std::set<size_t> is(idx.begin(), idx.end()); std::set<std::wstring> names; std::vector<std::wstring> seen;
    for (size_t k = 0; k < trees.size(); ++k) { auto l = root_label(trees[k]); if (is.count(k)) { if (orig.count(l) || !names.insert(l).second) rep.violation("structure", "a definition's name is not new\n" + after); } else seen.push_back(l); }
    if (seen != order) rep.violation("structure", "the results are not the original ones in the original order\n" + after);
    if (is.size() != idx.size()) rep.violation("structure", "duplicate definition positions\n" + after);
    if (calls != idx.size()) rep.violation("structure", "label_gen was called " + std::to_string(calls) + " times for " + std::to_string(idx.size()) + " definitions\n" + after);
    if (rep.any_violation()) return;
    Leaves L2{&m}; L2.fresh = true; Program b{&L2}; b.names = orig; b.names.insert(names.begin(), names.end());
    for (auto& t : trees) { auto l = root_label(t); auto v = b.run(t); if (names.count(l)) continue; rep.count("values_compared"); if (v != want[l]) { rep.violation("value:cse", "the value of " + toUtf8(l) + " changed\n" + after); return; } }
    for (auto& n : names) if (!b.uses[n]) { rep.violation("unused-definition", "the definition of " + toUtf8(n) + " is never used\n" + after); return; }
    // nothing rejected by the filter was named, and nothing acceptable is left twice in the results
    std::unordered_map<Node, long, TreeNodeHasher<Node>, TreeNodeEqualityComparator<Node>> left;
    for (size_t k = 0; k < trees.size(); ++k) if (!is.count(k)) trees[k].visit_internal([&](Node const& n) { if (!n.root()) ++left[n]; });
    for (auto& [n, c] : left) { auto it = cnt.find(n); if (it == cnt.end()) continue; rep.count("leftovers_checked"); if (style == 0 && o.batch_indices.empty() && c >= 2) { rep.violation("missed", "a subexpression still occurs " + std::to_string(c) + " times: " + show(to_expr(n)) + "\n" + after); return; } }
    for (size_t k : idx) { auto t = Binarizer{}(to_expr(trees[k])); rep.count("definitions_checked"); if (style == 1 && trees[k].size() <= 3) { rep.violation("filter", "a subexpression rejected by the filter was named: " + toUtf8(root_label(trees[k])) + "\n" + after); return; } }
  });
}
// maximal subtrees whose nodes satisfy a predicate are moved out, and nothing else changes
void extract(Rng& r, Reporter& rep, List& f, ModelParams mp) {
  Model m(r.next(), mp); Leaves L{&m}; L.fresh = true; rep.sample("results", f.d);
  guarded(rep, "extract", f.d, [&] {
    using Cmp = TreeNodeEqualityComparator<Node>;
    std::vector<std::vector<Z>> want; Program a{&L}; for (auto& t : f.nodes) want.push_back(a.run(t));
    std::set<std::wstring> labs, vl; for (auto& t : f.nodes) each_node(t, [&](Node const& n) { if (n.leaf() && n->is_tensor()) labs.insert(std::wstring(n->as_tensor().label())); });
    for (auto& l : labs) if (r.chance(1, 3)) vl.insert(l);
    int style = r(3); u64 salt = r.next(); long calls = 0, inconsistent = 0;
    auto base = [&](Node const& n, bool pl, bool pr) -> bool {
      if (style == 0) { if (n.leaf()) return false; auto ok = [&](Node const& c, bool pc) { return c.leaf() ? c->is_tensor() && !vl.count(std::wstring(c->as_tensor().label())) : pc; }; return ok(n.left(), pl) && ok(n.right(), pr); }
      if (style == 1) return n.leaf() ? false : n->is_tensor() && n->canon_indices().size() <= 2;
      return !n.leaf() && (comb(salt, n->hash_value()) % 3) == 0;
    };
    auto forest = f.nodes; std::vector<bool> expect_calls;
    // reference: which nodes of the original forest are captured, by address
    std::map<Node const*, bool> val; std::set<Node const*> cap;
    std::function<bool(Node const&)> go = [&](Node const& n) { bool pl = false, pr = false; if (!n.leaf()) { pl = go(n.left()); pr = go(n.right()); } bool p = base(n, pl, pr); val[&n] = p; return p; };
    for (auto& t : f.nodes) go(t);
    std::function<void(Node const&, bool)> mark = [&](Node const& n, bool parent) { if (val[&n] && !parent) cap.insert(&n); if (!n.leaf()) { mark(n.left(), val[&n]); mark(n.right(), val[&n]); } };
    for (auto& t : f.nodes) mark(t, false);
    std::vector<std::pair<bool, bool>> args;
    auto res = opt::extract_subtrees(forest, [&](Node const& n, bool pl, bool pr) { ++calls; if (n.leaf() && (pl || pr)) ++inconsistent; return base(n, pl, pr); });
    long nodes = 0; for (auto& t : f.nodes) nodes += (long)t.size();
    rep.count("forests"); rep.count("captured", cap.size()); if (!cap.empty()) rep.distinct("nontrivial", hstr(f.d + std::to_string(style) + std::to_string(salt % 7)));
    if (calls != nodes || inconsistent) { rep.violation("predicate-calls", "the predicate was called " + std::to_string(calls) + " times for " + std::to_string(nodes) + " nodes\n" + f.d); return; }
    // every captured node is in the result, and nothing else
    std::function<Node(Node const&, bool)> collapse = [&](Node const& n, bool top) -> Node {
      if (!top && cap.count(&n)) { auto x = *n; EvalOpSetter{}.reset(static_cast<EvalExpr&>(x)); return Node{std::move(x)}; }
      if (n.leaf()) return Node{EvalX(*n)};
      return Node{EvalX(*n), collapse(n.left(), false), collapse(n.right(), false)};
    };
    auto nested = [&](Node const* n) { bool b = false; each_node(*n, [&](Node const& x) { b |= &x != n && cap.count(&x); }); return b; };
    std::unordered_set<Node, TreeNodeHasher<Node>, Cmp> exp; for (auto* n : cap) exp.insert(collapse(*n, true));
    if (exp.size() != res.size()) { rep.violation("captured-set", "the number of distinct extracted subtrees is wrong\n" + f.d); return; }
    for (auto& n : exp) if (!res.count(n)) { rep.violation("captured-set", "a maximal matching subtree was not extracted: " + show(to_expr(n)) + "\n" + f.d); return; }
    // the collapsed forest: same shape outside, a leaf with the same payload where a subtree was
    std::map<Node const*, Node const*> at;   // collapsed leaf -> original
    std::function<bool(Node const&, Node const&)> same = [&](Node const& o, Node const& c) -> bool {
      rep.count("nodes_compared");
      if (o->hash_value() != c->hash_value() || o->canon_indices() != c->canon_indices() || o->canon_phase() != c->canon_phase() || !(*o->expr() == *c->expr()) || o->has_connectivity_graph() != c->has_connectivity_graph()) return false;
      if (cap.count(&o)) { at[&c] = &o; return c.leaf() && !c->op_type(); }
      if (o->op_type() != c->op_type() || o.leaf() != c.leaf()) return false;
      return o.leaf() || (same(o.left(), c.left()) && same(o.right(), c.right()));
    };
    for (size_t k = 0; k < forest.size(); ++k) if (!same(f.nodes[k], forest[k])) { rep.violation("collapsed-forest", "the forest after extraction is not the original with the matching subtrees as leaves\n" + f.d); return; }
    // the value of an extracted representative stands for every subtree it replaces
    for (auto& [c, o] : at) {
      if (o->leaf() || nested(o)) continue;
      auto rp = res.find(*o); Program p{&L}; p.names = a.names; p.named = a.named;
      Program::Ref le{&p};
      auto raw = [&](Node const& n) { auto v = data_of(n->is_tensor() ? evaluate(n, n->annot(), le) : evaluate(n, le)); for (auto& z : v) z *= Z((i64)n->canon_phase()); return v; };
      rep.count("representatives_compared");
      if (raw(*rp) != raw(*o)) { rep.violation("value:representative", "the representative " + show(to_expr(*rp)) + " of an extracted subtree has another value than " + show(to_expr(*o)) + "\n" + f.d); return; }
    }
  });
}
}  // namespace
int main(int argc, char** argv) {
  Suite s("C10");
  setup_sr();
  ModelParams mp; mp.per_type_spin = 2; mp.per_type = {{1, 1}, {4, 3}, {8, 1}};
  auto mk = [](Rng& r, Reporter& rep, bool sums) { GenParams p; p.spaces = {L"i", L"a"}; p.n_labels = r.range(1, 3); p.max_dummies = 4; p.max_tensors = 3; p.max_rank = 2; p.allow_bksymm = r.chance(1, 3); p.variables = true; return List(r, rep, p, sums, r.range(2, 5)); };
  s.add("products", 3000, 80000, [&](Rng& r, long, Reporter& rep) { auto f = mk(r, rep, false); if (r.chance(1, 3)) cse<true>(r, rep, f, mp); else cse<false>(r, rep, f, mp); });
  s.add("sums", 3000, 80000, [&](Rng& r, long, Reporter& rep) { auto f = mk(r, rep, true); if (r.chance(1, 3)) cse<true>(r, rep, f, mp); else cse<false>(r, rep, f, mp); });
  s.add("extract", 2000, 60000, [&](Rng& r, long, Reporter& rep) { auto f = mk(r, rep, r.chance(1, 2)); extract(r, rep, f, mp); });
  return s.main(argc, argv);
}
