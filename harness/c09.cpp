// C09: evaluation trees, evaluated with and without the common-subexpression
// cache, reproduce the expression's value.
#include "common/evalx.hpp"
namespace {
// one expression, no cache
void tree(Rng& r, Reporter& rep, GenParams gp, ModelParams mp, bool opt) {
  Gen g(r, gp); Names n; Ext e = g.externals(n, r(3), r(3), gp.aux_spaces.empty() ? 0 : r(2));
  ExprPtr in = opt ? g.network(e, n, r.range(1, 4)) : r.chance(1, 3) ? g.network(e, n, r.range(1, 4)) : g.nested(e, n, r.range(1, 2)); in = relabel(in);
  int nt = 0; in->visit([&](auto const& x) { nt += x->template is<Tensor>(); }, true); if (nt > 12) throw Discard{};
  auto ext = e.all(); Model m(r.next(), mp); Evaluator ev(m);
  Arr A; try { A = ev.eval(in, ext); } catch (EvalError&) { throw Discard{}; }
  std::string d = "  expression " + show(in); rep.sample("expression", d);
  ExprPtr used = in->clone();
  Leaves L{&m}; L.fresh = r.chance(1, 2); LeafRef le{&L};
  guarded(rep, "tree", d, [&] {
    if (opt) used = optimize(used);
    auto lay = ext; r.shuffle(lay);
    bool lhs = r.chance(2, 3);
    if (!lhs && (ev.free_indices(in).size() != ext.size() || ext.empty() == false && used->is<Sum>() && false)) lhs = true;
    BinarizationOptions bo; bo.merge_indices = r.chance(1, 5) && !lhs;
    Node t = lhs ? binarize<EvalX>(result_expr(e, used)) : binarize<EvalX>(used, IndexSet{}, bo);
    if (tree_cost(t) > 3e5) throw Discard{};
    auto want = permuted(A, ext, lay);
    auto check = [&](const char* how, const ResultPtr& p) { rep.count("values_compared"); if (data_of(p) != want) rep.violation(std::string("value:") + how, std::string("the evaluated tree differs from the expression (") + how + ", " + (lhs ? "binarize(ResultExpr)" : "binarize(ExprPtr)") + ")\n" + d + "\n  evaluated " + show(used) + "\n  tree " + show(to_expr(t))); };
    if (ext.empty()) check("no-layout", evaluate(t, le));
    else { check("layout", evaluate(t, labels(lay), le)); }
    // canon_indices must be exactly the externals
    if (t->is_tensor() || !ext.empty()) { auto a = t->annot(), b = labels(ext); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) rep.violation("root-indices", "the root's indices are not the expression's external indices\n" + d); }
    // the tree read back as an expression is the same expression (an index in three or more
    // slots is outside: nested products do not say where it is summed)
    std::map<std::wstring, int> occ; World::each_index(in, [&](const Index& i) { ++occ[std::wstring(i.full_label())]; });
    bool hyper = false; if (!gp.aux_spaces.empty()) for (auto& [k, v] : occ) hyper |= v > 2;
    if (!hyper) try { if (first_difference(ev.eval(to_expr(t), ext), A) >= 0) rep.violation("value:to_expr", "to_expr(binarize(x)) differs from x\n" + d + "\n  tree " + show(to_expr(t))); else rep.count("to_expr_compared"); } catch (EvalError& x) { rep.violation("to_expr-malformed", std::string(x.what()) + "\n" + d + "\n  tree " + show(to_expr(t))); }
    if (L.damaged()) rep.violation("leaf-modified", "evaluation changed the leaf evaluator's own data\n" + d);
    if (t.size() > 5) rep.distinct("nontrivial", hstr(d));
    rep.count("nodes_evaluated", t.size());
  });
}
// counts cache misses on internal nodes through the custom-evaluator hook
template <typename CM> struct Visits {
  std::unordered_map<Node, long, TreeNodeHasher<Node>, TreeNodeEqualityComparator<Node>> v;
};
template <bool Collide>
void cached(Rng& r, Reporter& rep, Forest& f, ModelParams mp) {
  Model m(r.next(), mp); Evaluator ev(m);
  auto& ext = f.w.ext; auto lay = ext; r.shuffle(lay); Lab L0 = labels(lay);
  std::vector<std::vector<Z>> each; std::vector<Z> total;
  for (auto& t : f.terms) { try { each.push_back(permuted(ev.eval(t, ext), ext, lay)); } catch (EvalError&) { throw Discard{}; } total = plus(total, each.back()); }
  Leaves L{&m}; L.fresh = r.chance(1, 2); LeafRef le{&L};
  rep.sample("forest", f.d);
  guarded(rep, "cache", f.d, [&] {
    // reference: no cache
    for (size_t k = 0; k < f.nodes.size(); ++k) {
      auto p = ext.empty() ? evaluate(f.nodes[k], le) : evaluate(f.nodes[k], L0, le); rep.count("values_compared");
      if (data_of(p) != each[k]) { rep.violation("value:uncached", "a term evaluated without a cache differs from the expression: term " + std::to_string(k) + "\n" + f.d); return; }
    }
    size_t mr = r.chance(3, 4) ? 2 : r.range(1, 3);   // access counts are exact only when every repeated node is cached (min_repeats <= 2)
    auto cm = cache_manager<Collide>(f.nodes, mr);
    std::unordered_map<Node, long, TreeNodeHasher<Node>, TreeNodeEqualityComparator<Node>> visits; bool watch = r.chance(2, 3);
    if (watch) cm.set_custom_evaluator([&](Node const& n, auto&) -> ResultPtr { ++visits[n]; return nullptr; });
    long keys = 0; cm.for_each_key([&](Node const&) { ++keys; });
    rep.count("cache_keys", keys); if (keys) rep.distinct("nontrivial", hstr(f.d));
    int rounds = r.range(1, 3);
    for (int q = 0; q < rounds; ++q) {
      cm.reset(); visits.clear();
      bool together = r.chance(1, 2); const char* how = together ? "cached-range" : "cached";
      if (together) {
        auto p = ext.empty() ? evaluate(f.nodes, le, cm) : evaluate(f.nodes, L0, le, cm); rep.count("values_compared");
        if (data_of(p) != total) { rep.violation("value:cached-range", "the cached evaluation of a sum of terms differs from the expression (round " + std::to_string(q) + ", " + std::to_string(keys) + " cached nodes)\n" + f.d); return; }
      } else {
        std::vector<ResultPtr> res;
        for (auto& t : f.nodes) res.push_back(ext.empty() ? evaluate(t, le, cm) : evaluate(t, L0, le, cm));
        for (size_t k = 0; k < res.size(); ++k) { rep.count("values_compared"); if (data_of(res[k]) != each[k]) { rep.violation("value:cached", "a term evaluated with the cache differs from the expression: term " + std::to_string(k) + " (round " + std::to_string(q) + ")\n" + f.d); return; } }
      }
      if (L.damaged()) { rep.violation("leaf-modified", std::string("evaluation changed the leaf evaluator's own data (") + how + ")\n" + f.d); return; }
      // lifecycle: everything cached was computed once, used as often as promised, and released
      if (mr <= 2) cm.for_each_key([&](Node const& k) {
        if (rep.any_violation()) return;
        rep.count("entries_checked");
        if (cm.life(k) != 0 || cm.alive(k)) rep.violation("lifecycle:not-drained", "a cached intermediate is still held after its last use: life " + std::to_string(cm.life(k)) + " of " + std::to_string(cm.max_life(k)) + "\n  node " + show(to_expr(k)) + "\n" + f.d);
        if (watch && visits[k] != 1) rep.violation("lifecycle:recomputed", "a cached intermediate was computed " + std::to_string(visits[k]) + " times in one evaluation\n  node " + show(to_expr(k)) + "\n" + f.d);
        if (watch) rep.count("computed_once_checked");
      });
      if (mr <= 2 && cm.alive_count() != 0) rep.violation("lifecycle:alive_count", "alive_count is " + std::to_string(cm.alive_count()) + " after everything was used\n" + f.d);
      if (rep.any_violation()) return;
    }
  });
}
// repeated evaluation with some tensors changing between iterations
void iterate(Rng& r, Reporter& rep, Forest& f, ModelParams mp) {
  auto& ext = f.w.ext; auto lay = ext; r.shuffle(lay); Lab L0 = labels(lay);
  std::set<std::wstring> vl; for (int k = 0; k < f.w.gp.n_labels; ++k) vl.insert({});
  std::set<std::wstring> labs;
  for (auto& t : f.terms) t->visit([&](auto const& x) { if (x->template is<Tensor>()) labs.insert(std::wstring(x->template as<Tensor>().label())); }, true);
  vl.clear(); for (auto& l : labs) if (r.chance(1, 2)) vl.insert(l);
  u64 s0 = r.next();
  auto vol_leaf = [&](Node const& n) { return n.leaf() && n->is_tensor() && vl.count(std::wstring(n->as_tensor().label())); };
  guarded(rep, "iterate", f.d, [&] {
    double cap = r.chance(1, 4) ? r.range(2, 30) : 0;
    auto foot = [&](Node const& n) { double v = 1; for (size_t k = 0; k < n->canon_indices().size(); ++k) v *= 2; return v; };
    bool veto = r.chance(1, 5); auto batchable = [&](Index const& i) { return veto && i.space().base_key() == L"a"; };
    auto cm = cache_manager<false>(f.nodes, vol_leaf, r.chance(3, 4) ? 2 : 3, foot, cap, batchable);
    std::unordered_map<Node, long, TreeNodeHasher<Node>, TreeNodeEqualityComparator<Node>> visits;
    cm.set_custom_evaluator([&](Node const& n, auto&) -> ResultPtr { ++visits[n]; return nullptr; });
    long np = 0; cm.for_each_key([&](Node const& k) { np += cm.persistent(k); if (cap > 0 && foot(k) > cap) rep.violation("gate", "a node above the footprint limit is cached\n" + f.d); });
    rep.count("persistent_nodes", np);
    if (np) rep.distinct("nontrivial", hstr(f.d));
    std::unordered_map<Node, long, TreeNodeHasher<Node>, TreeNodeEqualityComparator<Node>> all;
    std::string vs; for (auto& v : vl) vs += toUtf8(v) + " ";
    for (int it = 0; it < 3; ++it) {
      // a fresh model for the volatile tensors, the same one for the others
      Model mc(s0, mp), mv(s0 + 77 + it, mp);
      Leaves L{&mc}; L.fresh = true; L.pick = [&](const Tensor& t) { return vl.count(std::wstring(t.label())) ? &mv : &mc; };
      LeafRef le{&L};
      cm.reset(); visits.clear();
      for (size_t k = 0; k < f.nodes.size(); ++k) {
        Leaves L2 = L; LeafRef le2{&L2};
        auto want = data_of(ext.empty() ? evaluate(f.nodes[k], le2) : evaluate(f.nodes[k], L0, le2));
        auto got = data_of(ext.empty() ? evaluate(f.nodes[k], le, cm) : evaluate(f.nodes[k], L0, le, cm));
        rep.count("values_compared");
        if (want != got) { rep.violation("value:iterated", "iteration " + std::to_string(it) + ", term " + std::to_string(k) + ": the value with persistent intermediates differs from the plain evaluation; volatile: " + vs + "\n" + f.d); return; }
      }
      for (auto& [k, v] : visits) all[k] += v;
      cm.for_each_key([&](Node const& k) {
        if (rep.any_violation()) return;
        rep.count("entries_checked");
        bool pers = cm.persistent(k);
        bool v = subtree_any(k, vol_leaf);
        if (pers && v) rep.violation("persistent-volatile", "a volatile node is persistent\n  node " + show(to_expr(k)) + "\n" + f.d);
        if (pers && !cm.alive(k)) rep.violation("lifecycle:persistent-lost", "a persistent intermediate is not held after an evaluation\n  node " + show(to_expr(k)) + "\n" + f.d);
        if (!pers && cm.alive(k) && np == 0) rep.violation("lifecycle:not-drained", "a cached intermediate is still held after its last use\n  node " + show(to_expr(k)) + "\n" + f.d);
        if (pers && all[k] > 1) rep.violation("lifecycle:persistent-recomputed", "a persistent intermediate was computed " + std::to_string(all[k]) + " times\n  node " + show(to_expr(k)) + "\n" + f.d);
      });
      if (rep.any_violation()) return;
    }
  });
}
void batched(Rng& r, Reporter& rep, Forest& f, ModelParams mp) {
  auto& ext = f.w.ext; auto lay = ext; r.shuffle(lay); Lab L0 = labels(lay);
  Model m(r.next(), mp); Evaluator ev(m);
  std::vector<std::vector<Z>> each; std::vector<Z> total;
  for (auto& t : f.terms) { try { each.push_back(permuted(ev.eval(t, ext), ext, lay)); } catch (EvalError&) { throw Discard{}; } total = plus(total, each.back()); }
  Leaves L{&m}; L.fresh = r.chance(1, 2); LeafRef le{&L};
  std::set<std::wstring> labs, vl;
  for (auto& t : f.terms) t->visit([&](auto const& x) { if (x->template is<Tensor>()) labs.insert(std::wstring(x->template as<Tensor>().label())); }, true);
  for (auto& l : labs) if (r.chance(1, 3)) vl.insert(l);
  auto vol_leaf = [&](Node const& n) { return n.leaf() && n->is_tensor() && vl.count(std::wstring(n->as_tensor().label())); };
  guarded(rep, "batched", f.d, [&] {
    size_t target = r.range(1, 2); std::wstring sp = r.chance(1, 2) ? L"i" : r.chance(1, 2) ? L"a" : L"";
    std::function<bool(Index const&)> accept = [sp](Index const& i) { return sp.empty() || i.space().base_key() == sp; };
    std::function<size_t(Index const&)> tgt = [target](Index const&) { return target; };
    bool kind = r.chance(1, 2); long nb = 0;
    auto run = [&](auto cm) {
      std::string cfg = "  batched over " + toUtf8(sp) + " by " + std::to_string(target) + (kind ? ", volatile" : ", no volatile"); if (kind) for (auto& v : vl) cfg += " " + toUtf8(v);
      cm.for_each_key([&](Node const& k) { cfg += "\n  cached " + show(to_expr(k)) + (cm.persistent(k) ? " (persistent)" : ""); }); cfg += "\n";
      if (r.chance(1, 2)) {
        BatchPolicy pol; pol.is_batchable_index = accept; pol.batch_target_size = tgt; pol.persistent_only = r.chance(1, 3);
        pol.is_volatile_leaf = [&](Tensor const& t) { return vl.count(std::wstring(t.label())) > 0; };
        auto fn = make_evaluator(pol, le);
        cm.set_custom_evaluator([&, fn](Node const& n, auto& c) { auto p = fn(n, c); if (p) ++nb; return p; });
      } else {
        auto fn = make_batched_custom_evaluator(le, tgt, accept);
        cm.set_custom_evaluator([&, fn](Node const& n, auto& c) { auto p = fn(n, c); if (p) ++nb; return p; });
      }
      for (int q = 0; q < 2; ++q) {
        cm.reset();
        if (r.chance(1, 2)) {
          auto p = ext.empty() ? evaluate(f.nodes, le, cm) : evaluate(f.nodes, L0, le, cm); rep.count("values_compared");
          if (data_of(p) != total) { rep.violation("value:batched-range", "batched evaluation of a sum of terms differs from the expression, round " + std::to_string(q) + "\n" + cfg + f.d); return; }
        } else for (size_t k = 0; k < f.nodes.size(); ++k) {
          auto p = ext.empty() ? evaluate(f.nodes[k], le, cm) : evaluate(f.nodes[k], L0, le, cm); rep.count("values_compared");
          if (data_of(p) != each[k]) { rep.violation("value:batched", "batched evaluation differs from the expression: term " + std::to_string(k) + ", round " + std::to_string(q) + "\n" + cfg + f.d); return; }
        }
        if (L.damaged()) { rep.violation("leaf-modified", "batched evaluation changed the leaf evaluator's own data\n" + f.d); return; }
      }
      rep.count("batched_nodes", nb); if (nb) rep.distinct("nontrivial", hstr(f.d));
    };
    if (kind) run(cache_manager<false>(f.nodes, vol_leaf)); else if (r.chance(1, 2)) run(cache_manager<false>(f.nodes)); else run(CacheManager<Node>::empty());
  });
}
}  // namespace
int main(int argc, char** argv) {
  Suite s("C09");
  setup_sr();
  ModelParams mp; mp.per_type_spin = 2; mp.per_type = {{1, 1}, {4, 3}, {8, 1}};   // i: 2, a: 3, x: 5
  auto par = [](Rng& r) { GenParams p; p.spaces = {L"i", L"a"}; p.n_labels = r.range(1, 4); p.max_dummies = 4; p.max_tensors = 3; p.max_rank = 2; p.allow_bksymm = r.chance(1, 3); p.variables = true; p.powers = r.chance(1, 4); return p; };
  s.add("tree", 4000, 100000, [&](Rng& r, long, Reporter& rep) { auto p = par(r); tree(r, rep, p, mp, false); });
  s.add("tree-aux", 2000, 50000, [&](Rng& r, long, Reporter& rep) { auto p = par(r); p.aux_spaces = {L"x"}; p.max_aux_dummies = 2; tree(r, rep, p, mp, false); });
  s.add("tree-optimized", 2000, 50000, [&](Rng& r, long, Reporter& rep) { auto p = par(r); p.max_tensors = 4; tree(r, rep, p, mp, true); });
  auto forest = [&](Rng& r, Reporter& rep, bool sums, bool opt) { auto p = par(r); p.powers = false; p.n_labels = r.range(1, 3); int nb = r(3), nk = r.chance(2, 3) ? nb : r(3); return Forest(r, rep, p, sums, nb, nk, r.range(2, 5), opt); };
  s.add("cache-products", 3000, 80000, [&](Rng& r, long, Reporter& rep) { auto f = forest(r, rep, false, r.chance(1, 3)); if (r.chance(1, 3)) cached<true>(r, rep, f, mp); else cached<false>(r, rep, f, mp); });
  s.add("cache-sums", 3000, 80000, [&](Rng& r, long, Reporter& rep) { auto f = forest(r, rep, true, false); if (r.chance(1, 3)) cached<true>(r, rep, f, mp); else cached<false>(r, rep, f, mp); });
  s.add("iterate", 2000, 50000, [&](Rng& r, long, Reporter& rep) { auto f = forest(r, rep, r.chance(1, 3), r.chance(1, 3)); iterate(r, rep, f, mp); });
  s.add("batched", 2000, 50000, [&](Rng& r, long, Reporter& rep) { auto f = forest(r, rep, r.chance(1, 3), r.chance(1, 3)); batched(r, rep, f, mp); });
  // sums that look alike: only the way the modes of the summands line up differs
  s.fixed("alike", 4, [&](Rng&, long k, Reporter& rep) {
    std::vector<std::vector<const wchar_t*>> t = {
      {L"(A{i_3,i_4;}:N-N-S + B{i_3,i_4;}:N-N-S) C{;i_3,i_4}:N-N-S", L"(A{i_3,i_4;}:N-N-S + B{i_4,i_3;}:N-N-S) C{;i_3,i_4}:N-N-S", L"(A{i_3,i_4;}:N-N-S + B{i_3,i_4;}:N-N-S) D{;i_3,i_4}:N-N-S"},
      {L"(A{i_3,i_4;}:N-N-N + B{i_3,i_4;}:N-N-N) C{;i_3,i_4}:N-N-N", L"(A{i_4,i_3;}:N-N-N + B{i_4,i_3;}:N-N-N) C{;i_3,i_4}:N-N-N"},
      {L"(A{i_3;i_4}:N-N-N + B{i_3;i_4}:N-N-N) (C{i_4;i_5}:N-N-N + D{i_4;i_5}:N-N-N) E{i_5;i_3}:N-N-N", L"(A{i_4;i_5}:N-N-N + B{i_4;i_5}:N-N-N) (C{i_3;i_4}:N-N-N + D{i_3;i_4}:N-N-N) E{i_5;i_3}:N-N-N"},
      {L"(A{i_3,i_4;}:A-N-S + B{i_3,i_4;}:N-N-S) C{;i_3,i_4}:N-N-S", L"(A{i_4,i_3;}:A-N-S + B{i_3,i_4;}:N-N-S) C{;i_3,i_4}:N-N-S"}};
    Model m(5, mp); Evaluator ev(m); Leaves L{&m}; LeafRef le{&L}; std::vector<Node> ns; std::vector<Z> w; std::string d;
    for (auto* x : t[k]) { auto e = deserialize(x); d += "  " + show(e) + "\n"; w.push_back(ev.eval(e, {}).data[0]); ns.push_back(binarize<EvalX>(e)); }
    auto cm = cache_manager<false>(ns);
    for (size_t q = 0; q < ns.size(); ++q) { rep.count("values_compared"); if (data_of(evaluate(ns[q], le, cm))[0] != w[q]) rep.violation("value:alike", "term " + std::to_string(q) + " differs from its expression when evaluated with the others\n" + d); }
  });
  return s.main(argc, argv);
}
