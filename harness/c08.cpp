// C08: optimize() preserves value and finds a cheapest contraction tree.
#include "common/gen.hpp"
#include "common/model.hpp"
#include "common/report.hpp"
#include "common/setup.hpp"
#include <SeQuant/core/expr.hpp>
#include <SeQuant/core/optimize/optimize.hpp>
#include <SeQuant/core/optimize/fusion.hpp>
#include <SeQuant/core/optimize/sum.hpp>
#include <cmath>
#include <limits>
using namespace vf;
using namespace sequant;
namespace {
using D = long double;
std::vector<Index> slots_of(const Tensor& t) {
  std::vector<Index> v;
  for (auto& i : t.bra()) if (i.nonnull()) v.push_back(i);
  for (auto& i : t.ket()) if (i.nonnull()) v.push_back(i);
  for (auto& i : t.aux()) if (i.nonnull()) v.push_back(i);
  return v;
}
// everything the brute-force oracle needs to know about one product of tensors
struct Net {
  int nt = 0;
  std::vector<Index> idx;                       // distinct top-level indices
  std::vector<std::vector<int>> cnt;            // [tensor][index] multiplicity
  std::vector<Index> outer; std::vector<std::vector<int>> protos;  // plain indices and proto-indices
  std::vector<char> vol;
  std::vector<std::vector<char>> open;          // [subset][index]
  std::vector<char> conn;                       // [subset]
};
int id_of(std::vector<Index>& v, const Index& i) {
  for (size_t k = 0; k < v.size(); ++k) if (v[k].full_label() == i.full_label()) return (int)k;
  v.push_back(i); return (int)v.size() - 1;
}
Net make_net(const std::vector<ExprPtr>& ts, const std::function<bool(const Tensor&)>& vol, bool prune) {
  Net n; n.nt = (int)ts.size();
  std::vector<std::vector<int>> ids;
  for (auto& t : ts) { ids.emplace_back(); for (auto& i : slots_of(t->as<Tensor>())) ids.back().push_back(id_of(n.idx, i)); n.vol.push_back(vol && vol(t->as<Tensor>())); }
  int ni = (int)n.idx.size();
  n.cnt.assign(n.nt, std::vector<int>(ni, 0));
  for (int t = 0; t < n.nt; ++t) for (int k : ids[t]) ++n.cnt[t][k];
  for (auto& i : n.idx) { n.protos.emplace_back(); if (i.has_proto_indices()) for (auto& p : i.proto_indices()) n.protos.back().push_back(id_of(n.outer, p)); }
  int S = 1 << n.nt;
  n.open.assign(S, std::vector<char>(ni, 0)); n.conn.assign(S, 1);
  for (int s = 1; s < S; ++s)
    for (int k = 0; k < ni; ++k) {
      int in = 0, out = 0;
      for (int t = 0; t < n.nt; ++t) ((s >> t & 1) ? in : out) += n.cnt[t][k];
      bool single = __builtin_popcount(s) == 1;
      n.open[s][k] = in > 0 && (single || in == 1 || out > 0);
    }
  if (prune) {
    auto linked = [&](int a, int b) { for (int k = 0; k < ni; ++k) if (n.cnt[a][k] && n.cnt[b][k]) return true; return false; };
    auto connected = [&](int s) {
      int r = s & -s;
      for (bool more = true; more;) { more = false; for (int a = 0; a < n.nt; ++a) if (r >> a & 1) for (int b = 0; b < n.nt; ++b) if ((s >> b & 1) && !(r >> b & 1) && linked(a, b)) { r |= 1 << b; more = true; } }
      return r == s; };
    if (connected(S - 1)) for (int s = 1; s < S; ++s) n.conn[s] = connected(s);
  }
  return n;
}
struct Costs {
  const Net& n; std::function<std::size_t(const Index&)> ext; std::function<double(const Index&, std::size_t)> pow;
  // volume of a set of top-level indices
  D volume(const std::vector<char>& in, const std::function<D(int)>& extent) const {
    D v = 1; std::set<int> outer; std::vector<Index> o = n.outer;
    std::set<std::wstring> plain;
    for (size_t k = 0; k < in.size(); ++k) if (in[k]) {
      if (n.protos[k].empty()) { if (plain.insert(std::wstring(n.idx[k].full_label())).second) v *= extent((int)k); }
      else for (int p : n.protos[k]) outer.insert(p);
    }
    for (int p : outer) if (plain.insert(std::wstring(n.outer[p].full_label())).second) v *= (D)ext(n.outer[p]);
    for (size_t k = 0; k < in.size(); ++k) if (in[k] && !n.protos[k].empty()) {
      if (pow) { std::size_t g = 0; for (size_t q = 0; q < in.size(); ++q) if (in[q] && n.idx[q].proto_indices() == n.idx[k].proto_indices()) ++g; v *= (D)pow(n.idx[k], g); }
      else v *= extent((int)k);
    }
    return v == 1 ? 0 : v;
  }
  D vol(const std::vector<char>& in) const { return volume(in, [&](int k) { return (D)ext(n.idx[k]); }); }
  D flops(int a, int b) const { std::vector<char> u(n.idx.size()); for (size_t k = 0; k < u.size(); ++k) u[k] = n.open[a][k] | n.open[b][k]; return vol(u); }
};
struct Opt {
  ObjectiveFunction f; bool prune = true, cse = false;
  double vw = 1, fw = 0, tol = 0, accum = 0; bool ponly = false, has_vol = false; RooflineParams roof{};
  std::set<std::wstring> batchable; std::map<std::wstring, std::size_t> batch;
};
// a binary contraction tree; left is evaluated first
struct Tree { int leaf = -1, set = 0; std::shared_ptr<Tree> l, r; };
using TP = std::shared_ptr<Tree>;
bool volatile_set(const Net& n, int s) { for (int t = 0; t < n.nt; ++t) if ((s >> t & 1) && n.vol[t]) return true; return false; }

struct Judge {
  const Net& n; const Costs& c; const Opt& o;
  std::vector<int> aux;                  // batchable indices
  std::vector<std::vector<D>> size_;     // [B][subset]
  std::map<std::pair<int, int>, D> fl;
  Judge(const Net& n, const Costs& c, const Opt& o) : n(n), c(c), o(o) {
    if (o.f == ObjectiveFunction::DensePeakSizeBatched) for (size_t k = 0; k < n.idx.size(); ++k) if (o.batchable.count(n.idx[k].space().base_key())) aux.push_back((int)k);
    size_.resize(1u << aux.size());
    for (size_t B = 0; B < size_.size(); ++B) {
      size_[B].resize(size_t(1) << n.nt);
      for (int s = 1; s < (1 << n.nt); ++s) size_[B][s] = c.volume(n.open[s], [&](int k) -> D {
        for (size_t q = 0; q < aux.size(); ++q) if (aux[q] == k && (B >> q & 1)) return (D)std::min(c.ext(n.idx[k]), o.batch.at(n.idx[k].space().base_key()));
        return (D)c.ext(n.idx[k]); });
    }
  }
  D sz(int s, int B) const { return size_[B][s]; }
  D loads(int s, int B) const { D r = 0; for (int t = 0; t < n.nt; ++t) if (s >> t & 1) r += sz(1 << t, B); return r; }
  D flops(int a, int b) { auto k = std::make_pair(a, b); auto it = fl.find(k); if (it != fl.end()) return it->second; return fl[k] = c.flops(a, b); }
  // additive cost or (for peak objectives) the secondary cost of one contraction
  D step(int a, int b) {
    int s = a | b;
    if (o.f == ObjectiveFunction::DenseFLOPs) return (o.has_vol && o.vw > 1 && volatile_set(n, s) ? (D)o.vw : 1) * flops(a, b) + (D)o.fw * sz(s, 0);
    if (o.f == ObjectiveFunction::DenseSize) return sz(a, 0) + sz(b, 0) + sz(s, 0);
    D f = flops(a, b), w = o.has_vol && volatile_set(n, s) ? (D)o.vw : 1;
    if (o.roof.machine_balance > 0) {
      D q = sz(a, 0) + sz(b, 0) + sz(s, 0);
      if (o.roof.fast_mem_elems > 0 && o.roof.block_tiles > 0) q = std::max(q, (D)o.roof.block_prefactor * f / std::sqrt((D)o.roof.fast_mem_elems / (D)o.roof.block_tiles));
      f = std::max(f, (D)o.roof.machine_balance * q);
    }
    return w * f;
  }
  D total(const TP& t) { return t->leaf >= 0 ? 0 : total(t->l) + total(t->r) + step(t->l->set, t->r->set); }
  // peak of evaluating t inside batches B; order fixed (left first) or free
  D peak(const TP& t, int B, bool fixed) {
    if (t->leaf >= 0) return sz(t->set, B);
    int a = t->l->set, b = t->r->set;
    int cand = 0;
    for (size_t q = 0; q < aux.size(); ++q) if ((n.open[a][aux[q]] || n.open[b][aux[q]]) && !n.open[t->set][aux[q]]) cand |= 1 << q;
    if (o.ponly && volatile_set(n, t->set)) cand = 0;
    D best = std::numeric_limits<D>::infinity();
    for (int A = 0; A < (1 << aux.size()); ++A) {
      if (A & ~cand) continue;
      int C = B | A;
      D pa = peak(t->l, C, fixed), pb = peak(t->r, C, fixed);
      D form = sz(a, C) + sz(b, C) + sz(t->set, B) + (A ? (D)o.accum * sz(t->set, B) : 0);
      D lf = std::max({loads(b, C) + pa, sz(a, C) + pb, form});
      D rf = std::max({loads(a, C) + pb, sz(b, C) + pa, form});
      best = std::min(best, fixed ? lf : std::min(lf, rf));
    }
    return best;
  }
};
void all_trees(const Net& n, int s, std::map<int, std::vector<TP>>& memo) {
  if (memo.count(s)) return;
  auto& v = memo[s];
  if (__builtin_popcount(s) == 1) { auto t = std::make_shared<Tree>(); t->leaf = __builtin_ctz(s); t->set = s; v.push_back(t); return; }
  if (!n.conn[s]) return;
  std::vector<TP> res;
  for (int a = (s - 1) & s; a; a = (a - 1) & s) {
    int b = s ^ a; if (a < b) continue;
    all_trees(n, a, memo); all_trees(n, b, memo);
    for (auto& x : memo[a]) for (auto& y : memo[b]) { auto t = std::make_shared<Tree>(); t->set = s; t->l = x; t->r = y; res.push_back(t); }
  }
  memo[s] = std::move(res);
}
// reads the output of optimize() as a binary tree over the input tensors
TP read_tree(const ExprPtr& e, const std::vector<ExprPtr>& ts, std::vector<char>& used, bool top, std::string& err) {
  if (e->is<Tensor>()) {
    for (size_t k = 0; k < ts.size(); ++k) if (!used[k] && *ts[k] == *e) { used[k] = 1; auto t = std::make_shared<Tree>(); t->leaf = (int)k; t->set = 1 << k; return t; }
    err = "a tensor that is not one of the input's appears"; return nullptr;
  }
  if (!e->is<Product>()) { err = "unexpected node"; return nullptr; }
  std::vector<ExprPtr> f;
  for (auto& x : e->as<Product>().factors()) { if (x->is<Tensor>() || x->is<Product>()) f.push_back(x); else if (!top) { err = "scalar below the top"; return nullptr; } }
  if (!top && !(e->as<Product>().scalar() == 1)) { err = "prefactor below the top"; return nullptr; }
  if (f.size() != 2) { err = "a product node with " + std::to_string(f.size()) + " tensor operands"; return nullptr; }
  auto t = std::make_shared<Tree>();
  t->l = read_tree(f[0], ts, used, false, err); if (!t->l) return nullptr;
  t->r = read_tree(f[1], ts, used, false, err); if (!t->r) return nullptr;
  t->set = t->l->set | t->r->set;
  return t;
}
bool close(D a, D b) { return std::fabs((double)(a - b)) <= 1e-10 * std::max({(D)1, std::fabs(a), std::fabs(b)}); }
bool le(D a, D b) { return a <= b || close(a, b); }
const char* name(ObjectiveFunction f) {
  switch (f) { case ObjectiveFunction::DenseFLOPs: return "flops"; case ObjectiveFunction::DenseSize: return "size";
    case ObjectiveFunction::DensePeakSize: return "peak"; default: return "peak-batched"; }
}
struct Setup { Opt o; OptimizeOptions opts; std::map<std::wstring, std::size_t> ext; bool powered = false; };
Setup random_setup(Rng& r, bool all = true) {
  Setup s; Opt& o = s.o;
  o.f = std::array{ObjectiveFunction::DenseFLOPs, ObjectiveFunction::DenseFLOPs, ObjectiveFunction::DenseSize, ObjectiveFunction::DensePeakSize, ObjectiveFunction::DensePeakSizeBatched}[r(5)];
  o.prune = !r.chance(1, 3);
  static const std::size_t sizes[] = {1, 2, 3, 5, 7, 10, 40, 100, 1000};
  for (auto l : {L"i", L"a", L"p", L"x", L"m", L"e", L"g", L"o"}) s.ext[l] = sizes[r.chance(1, 12) ? 0 : r.range(1, 8)];
  bool peak = o.f == ObjectiveFunction::DensePeakSize || o.f == ObjectiveFunction::DensePeakSizeBatched;
  if (all && r.chance(1, 2)) { o.has_vol = true; o.vw = std::array{1.0, 2.0, 20.0, 2.5}[r(4)]; }
  if (all && o.f == ObjectiveFunction::DenseFLOPs && r.chance(1, 3)) o.fw = std::array{0.5, 10.0, 300.0}[r(3)];
  if (peak) o.tol = std::array{0.0, 0.0, 0.1, 1.0}[r(4)];
  if (!peak && r.chance(1, 4)) o.cse = true;
  if (peak && r.chance(1, 4)) { o.roof.machine_balance = std::array{0.5, 10.0, 500.0}[r(3)]; if (r.chance(1, 2)) { o.roof.fast_mem_elems = std::array{10.0, 1000.0}[r(2)]; o.roof.block_prefactor = std::array{1.0, 2.0}[r(2)]; } }
  if (o.f == ObjectiveFunction::DensePeakSizeBatched) {
    o.batchable = {L"x"}; if (r.chance(1, 2)) o.batchable.insert(L"p"); if (r.chance(1, 4)) o.batchable.insert(L"a");
    for (auto& b : o.batchable) o.batch[b] = sizes[r(6)];
    o.ponly = r.chance(1, 3);
  }
  OptimizeOptions& p = s.opts;
  p.objective_function = o.f; p.prune_outer_products = o.prune; p.CSE.subnet = o.cse;
  p.idx_to_extent = [e = s.ext](const Index& i) { return e.at(std::wstring(i.space().base_key())); };
  if (o.has_vol) p.batch_policy.is_volatile_leaf = [](const Tensor& t) { auto l = t.label(); return !l.empty() && (l.back() % 2); };
  p.volatile_weight = o.vw; p.footprint_weight = o.fw; p.peak_flops_tolerance = o.tol; p.roofline = o.roof;
  if (o.f == ObjectiveFunction::DensePeakSizeBatched) {
    p.batch_policy.is_batchable_index = [b = o.batchable](const Index& i) { return b.count(std::wstring(i.space().base_key())) > 0; };
    p.batch_policy.batch_target_size = [b = o.batch](const Index& i) { return b.at(std::wstring(i.space().base_key())); };
    p.batch_policy.persistent_only = o.ponly;
  }
  if (r.chance(1, 4)) { s.powered = true; p.inner_pow = [](const Index& i, std::size_t k) { return 2.0 + 3.0 * k + i.proto_indices().size(); }; }
  return s;
}
std::string describe(const Setup& s) {
  std::string d = name(s.o.f);
  d += s.o.prune ? " prune" : " noprune"; if (s.o.cse) d += " cse"; if (s.o.has_vol) d += " volatile*" + std::to_string(s.o.vw); if (s.o.fw) d += " footprint*" + std::to_string(s.o.fw);
  if (s.o.tol) d += " tol " + std::to_string(s.o.tol);
  if (s.o.roof.machine_balance) d += " roofline";
  d += " extents";
  for (auto& [l, x] : s.ext) d += " " + narrow(l) + "=" + std::to_string(x);
  return d;
}
// number of distinct labels among tensors
bool all_labels_differ(const std::vector<ExprPtr>& ts) { std::set<std::wstring> l; for (auto& t : ts) if (!l.insert(std::wstring(t->as<Tensor>().label())).second) return false; return true; }

void one_term(Rng& r, Reporter& rep, GenParams gp, int nb, int nk, int na, ModelParams mp, bool protoext, int maxt) {
  gp.max_tensors = r.chance(2, 3) ? maxt : r.range(1, maxt);
  Gen g(r, gp); Names n; Ext e;
  if (protoext) { int k = r(3); for (int i = 0; i < k; ++i) { e.bra.push_back(n.fresh(L"i")); e.ket.push_back(n.fresh(L"i")); } }
  else e = g.externals(n, nb, nk, na);
  auto ts = g.network_tensors(e, n, std::min(gp.max_tensors, r.range(1, 9)));
  if (r.chance(1, 2))   // distinct labels: no two subnetworks are equivalent
    for (size_t k = 0; k < ts.size(); ++k) { auto& t = ts[k]->as<Tensor>(); ts[k] = ex<Tensor>(L"T" + std::to_wstring(k), bra(t.bra()), ket(t.ket()), aux(t.aux()), t.symmetry(), t.braket_symmetry(), t.column_symmetry()); }
  Setup s = random_setup(r);
  auto f = ts; int nvar = r.chance(1, 3) ? r.range(1, 3) : 0;
  for (int k = 0; k < nvar; ++k) f.insert(f.begin() + r((int)f.size() + 1), r.chance(1, 4) ? ex<Constant>(rational(r.range(2, 5), 3)) : ex<Variable>(k ? L"ω" : L"λ"));
  auto sc = g.scalar(!r.chance(1, 20)); if (r.chance(1, 3)) sc = 1;
  ExprPtr in = make_product(f, sc);
  std::string shown = show(in), before = shown; auto h0 = in->hash_value();
  rep.sample("term", shown);
  if (s.o.f == ObjectiveFunction::DensePeakSizeBatched && r.chance(1, 3)) {
    // an accumulation charge is only defined for at most one batchable index
    std::set<std::wstring> b; for (auto& t : ts) for (auto& i : slots_of(t->as<Tensor>())) if (s.o.batchable.count(std::wstring(i.space().base_key()))) b.insert(std::wstring(i.full_label()));
    if (b.size() <= 1) { s.o.accum = std::array{0.5, 1.0, 2.0}[r(3)]; s.opts.batch_policy.accumulation_factor = s.o.accum; rep.count("accumulation_charged"); }
  }
  std::string what = describe(s);
  ExprPtr out;
  try { out = optimize(in, s.opts); }
  catch (std::exception& ex) { rep.violation(std::string("throws:") + name(s.o.f), "optimize threw " + std::string(ex.what()) + "\n  input " + shown + "\n  " + what); return; }
  rep.count("terms"); rep.count(std::string("objective_") + name(s.o.f));
  if (ts.size() >= 3) rep.distinct("nontrivial", hstr(shown + what));
  if (show(in) != before || in->hash_value() != h0) rep.violation("input-modified", "optimize changed its input\n  before " + before + "\n  after " + show(in));
  // value
  auto ext = sorted(e.all());
  Model m(r.next(), mp); Evaluator ev(m);
  if (ts.size() <= 5) {
    try {
      Arr A = ev.eval(in, ext), B = ev.eval(out, ext);
      rep.count("values_compared");
      if (first_difference(A, B) >= 0) { rep.violation(std::string("value:") + name(s.o.f), "optimize changed the value\n  input " + shown + "\n  output " + show(out) + "\n  " + what); return; }
    } catch (EvalError&) { rep.count("not_evaluated"); }
  }
  // structure
  if (f.size() < 3) { if (!(*in == *out)) rep.violation("short-product-changed", "a product of fewer than three factors changed\n  input " + shown + "\n  output " + show(out)); return; }
  std::string err; std::vector<char> used(ts.size(), 0);
  if (ts.size() < 2) return;
  TP tree = read_tree(out, ts, used, true, err);
  if (!tree || tree->set != (1 << ts.size()) - 1) { rep.violation("not-a-tree", "the result is not a binary tree over the input's tensors: " + err + "\n  input " + shown + "\n  output " + show(out)); return; }
  if (ts.size() < 3 || ts.size() > 6) return;
  // cost
  Net net = make_net(ts, s.opts.batch_policy.is_volatile_leaf, s.o.prune);
  Costs c{net, s.opts.idx_to_extent, s.opts.inner_pow};
  Judge j(net, c, s.o);
  if (j.aux.size() > 4) return;
  std::map<int, std::vector<TP>> memo; all_trees(net, (1 << net.nt) - 1, memo);
  auto& trees = memo[(1 << net.nt) - 1];
  rep.count("trees_enumerated", trees.size()); rep.maximum("tensors", net.nt);
  bool pk = s.o.f == ObjectiveFunction::DensePeakSize || s.o.f == ObjectiveFunction::DensePeakSizeBatched;
  std::string tail = "\n  input " + shown + "\n  output " + show(out) + "\n  " + what;
  // membership in the searched space
  std::function<bool(const TP&)> inside = [&](const TP& t) { return t->leaf >= 0 || (net.conn[t->set] && inside(t->l) && inside(t->r)); };
  if (!inside(tree)) { rep.violation("outer-product-formed", "an outer product was formed although pruning is on" + tail); return; }
  if (!pk) {
    if (s.o.cse && !all_labels_differ(ts)) { rep.count("cse_terms_with_repeats"); return; }
    D best = std::numeric_limits<D>::infinity(); std::set<D> costs;
    for (auto& t : trees) { D v = j.total(t); best = std::min(best, v); if (costs.size() < 50) costs.insert(v); }
    D got = j.total(tree);
    rep.count("optimality_checked"); if (costs.size() > 1) rep.count("choice_mattered");
    if (!close(got, best)) rep.violation(std::string("not-cheapest:") + name(s.o.f) + (s.o.cse ? "-cse" : ""), "cost " + std::to_string((double)got) + ", the cheapest tree costs " + std::to_string((double)best) + tail);
  } else {
    std::vector<std::pair<D, D>> v; D minp = std::numeric_limits<D>::infinity();
    for (auto& t : trees) { v.emplace_back(j.peak(t, 0, false), j.total(t)); minp = std::min(minp, v.back().first); }
    D limit = minp * (1 + (D)s.o.tol), bestf = std::numeric_limits<D>::infinity();
    for (auto& [p, q] : v) if (le(p, limit)) bestf = std::min(bestf, q);
    D p = j.peak(tree, 0, true), q = j.total(tree);
    rep.count("optimality_checked"); std::set<D> ps; for (auto& x : v) ps.insert(x.first); if (ps.size() > 1) rep.count("choice_mattered");
    if (!le(p, limit)) rep.violation(std::string("peak-too-high:") + name(s.o.f), "peak " + std::to_string((double)p) + " exceeds " + std::to_string((double)limit) + " (minimum " + std::to_string((double)minp) + ")" + tail);
    else if (!le(q, bestf)) {
      rep.violation(std::string("secondary-cost:") + name(s.o.f), "work " + std::to_string((double)q) + " although " + std::to_string((double)bestf) + " is possible within the peak limit" + tail);
    }
  }
}
// the same network with one tensor exchanged for another: shares intermediates with the original
std::vector<ExprPtr> variant(Rng& r, std::vector<ExprPtr> f) {
  auto& t = f[r((int)f.size())]; auto& T = t->as<Tensor>();
  t = ex<Tensor>(std::wstring(L"V") + std::to_wstring(r(3)), bra(T.bra()), ket(T.ket()), aux(T.aux()), T.symmetry(), T.braket_symmetry(), T.column_symmetry());
  return f;
}
std::vector<std::string> texts(const ExprPtr& e) { std::vector<std::string> v; if (e->is<Sum>()) for (auto& t : *e) v.push_back(show(t)); else v.push_back(show(e)); return v; }
}  // namespace
int main(int argc, char** argv) {
  Suite s("C08");
  setup_sr();
  ModelParams mp; mp.per_type_spin = 2; mp.per_type = {{1, 1}, {8, 1}}; mp.max_extra = 1;
  auto par = [](Rng& r) { GenParams p; p.spaces = {L"i", L"a"}; if (r.chance(1, 2)) p.spaces.push_back(L"p"); p.n_labels = r.range(1, 4); p.max_dummies = 8; p.traces = r.chance(1, 6); p.allow_bksymm = r.chance(1, 3); return p; };
  s.add("term", 12000, 250000, [&](Rng& r, long, Reporter& rep) { one_term(r, rep, par(r), r(3), r(3), 0, mp, false, 5); });
  s.add("term-6", 700, 15000, [&](Rng& r, long, Reporter& rep) { auto p = par(r); p.max_dummies = 10; one_term(r, rep, p, r(3), r(3), 0, mp, false, 6); });
  s.add("term-aux", 2500, 90000, [&](Rng& r, long, Reporter& rep) { auto p = par(r); p.aux_spaces = {L"p", L"x"}; p.max_aux_dummies = 3; p.max_dummies = 4; one_term(r, rep, p, r(2), r(2), r(3), mp, false, 5); });
  s.add("term-proto", 3000, 60000, [&](Rng& r, long, Reporter& rep) { GenParams p; p.spaces = {L"i", L"a"}; p.proto = true; p.max_dummies = 6; p.n_labels = 2; one_term(r, rep, p, 0, 0, 0, mp, true, 5); });

  // sums, nested sums as factors, reordering, result expressions
  s.add("sum", 2500, 60000, [&](Rng& r, long, Reporter& rep) {
    GenParams p = par(r); p.max_tensors = 4; p.max_dummies = 4; p.allow_bksymm = false;
    Gen g(r, p); Names n; Ext e = g.externals(n, r(2), r(2));
    auto inner = [&](Names& nn, const Ext& x) -> ExprPtr { return g.nested(x, nn, 1); };
    std::vector<ExprPtr> terms; int k = r.range(1, 5);
    std::vector<ExprPtr> base; Names bn = n; if (r.chance(2, 3)) { base = g.network_tensors(e, bn, 3); k += 2; }
    for (int q = 0; q < k; ++q) {
      Names mine = n;
      if (base.size() > 2 && r.chance(2, 3)) terms.push_back(make_product(variant(r, base), g.scalar()));
      else if (r.chance(1, 2)) {   // product with a sum as one of its factors: split a network at one tensor
        auto f = g.network_tensors(e, mine, 2);
        size_t w = r((int)f.size()); auto& t = f[w]->as<Tensor>();
        Ext x; for (auto& i : t.bra()) x.bra.push_back(i); for (auto& i : t.ket()) x.ket.push_back(i);
        // a factor whose own summands contract nothing with themselves
        std::set<Index> dup; bool self = false; for (auto& i : x.bra) dup.insert(i); for (auto& i : x.ket) if (dup.count(i)) self = true;
        if (!self) { auto sm = std::make_shared<Sum>(); for (int z = 0; z < 2; ++z) sm->append(g.nested(x, mine, r(2))); if (sm->size() > 1) f[w] = sm; }
        if (r.chance(1, 3)) f.push_back(g.scalar_factor());
        terms.push_back(make_product(f, g.scalar()));
      } else terms.push_back(inner(mine, e));
      if (terms.back()->is<Sum>() || terms.back()->is_zero()) terms.pop_back();
    }
    if (terms.empty()) throw Discard{};
    auto sum = std::make_shared<Sum>(); for (auto& t : terms) sum->append(t->clone());
    if (sum->size() == 0) throw Discard{};
    ExprPtr in = sum;
    Setup st = random_setup(r, false); st.opts.reorder = r.chance(1, 2) ? ReorderSum::Reorder : ReorderSum::NoReorder;
    std::string shown = show(in), what = describe(st);
    rep.count("sums"); rep.count("summands", sum->size()); rep.distinct("nontrivial", hstr(shown + what)); rep.sample("sum", shown);
    ExprPtr out;
    auto ext = sorted(e.all()); Model m(r.next(), mp); Evaluator ev(m);
    Arr A; try { A = ev.eval(in, ext); } catch (EvalError&) { throw Discard{}; }
    try {
      if (r.chance(1, 4)) {
        ResultExpr re(bra(e.bra), ket(e.ket), aux(e.aux), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm, L"R", in->clone());
        optimize(re, st.opts); out = re.expression(); rep.count("result_expressions");
        bool ok = re.has_label() && re.label() == L"R" && std::equal(re.bra().begin(), re.bra().end(), e.bra.begin(), e.bra.end()) && std::equal(re.ket().begin(), re.ket().end(), e.ket.begin(), e.ket.end());
        if (!ok) rep.violation("result-head-changed", "optimize changed the left-hand side of a result expression\n  " + shown);
      } else out = optimize(in, st.opts);
    } catch (std::exception& ex) { rep.violation("throws:sum", "optimize threw " + std::string(ex.what()) + "\n  input " + shown + "\n  " + what); return; }
    if (show(in) != shown) rep.violation("input-modified", "optimize changed its input\n  before " + shown + "\n  after " + show(in));
    Arr B; try { B = ev.eval(out, ext); } catch (EvalError& ex) { rep.violation("value:sum-malformed", "the result is not a well-formed expression (" + std::string(ex.what()) + ")\n  input " + shown + "\n  output " + show(out)); return; }
    rep.count("values_compared");
    if (first_difference(A, B) >= 0) { rep.violation("value:sum", "optimize changed the value\n  input " + shown + "\n  output " + show(out) + "\n  " + what); return; }
    // terms are optimized one by one and reordering only permutes them
    std::vector<std::string> want; OptimizeOptions single = st.opts; single.reorder = ReorderSum::NoReorder;
    for (auto& t : *sum) want.push_back(show(optimize(t, single)));
    auto got = texts(out); if (!out->is<Sum>()) return;
    bool same = got == want; if (!same) rep.count("orders_changed");
    std::sort(got.begin(), got.end()); auto w2 = want; std::sort(w2.begin(), w2.end());
    rep.count("orders_checked");
    if (got != w2) rep.violation("summands-changed", "the optimized sum is not a permutation of the optimized summands\n  input " + shown + "\n  output " + show(out));
    else if (!same && st.opts.reorder == ReorderSum::NoReorder) rep.violation("reordered", "summands were reordered although reordering is off\n  input " + shown + "\n  output " + show(out));
  });
  // reordering groups: clusters is a partition of the positions
  s.add("clusters", 1500, 30000, [&](Rng& r, long, Reporter& rep) {
    GenParams p = par(r); p.max_tensors = 3; p.max_dummies = 3; p.n_labels = 2;
    Gen g(r, p); Names n; Ext e = g.externals(n, r(2), r(2));
    auto sum = std::make_shared<Sum>(); int k = r.range(1, 6);
    p.max_tensors = 4; auto base = g.network_tensors(e, n, 3);
    for (int q = 0; q < k; ++q) { Names mine = n; sum->append(base.size() > 2 && r.chance(2, 3) ? make_product(variant(r, base), g.scalar()) : g.network(e, mine)); }
    if (sum->size() == 0) throw Discard{};
    OptimizeOptions o; ExprPtr in = optimize(ExprPtr(sum), o); if (!in->is<Sum>()) throw Discard{};
    auto cl = opt::clusters(in->as<Sum>());
    std::vector<size_t> all; for (auto& c : cl) { if (c.empty()) rep.violation("empty-cluster", show(in)); for (auto q : c) all.push_back(q); }
    rep.count("clusters", cl.size()); rep.count("partitions_checked"); if (cl.size() < in->size()) rep.count("shared_intermediates_seen");
    rep.distinct("nontrivial", hstr(show(in)));
    std::sort(all.begin(), all.end());
    bool ok = all.size() == in->size(); for (size_t q = 0; ok && q < all.size(); ++q) ok = all[q] == q;
    if (!ok) rep.violation("clusters-not-a-partition", "clusters() lists " + std::to_string(all.size()) + " positions for a sum of " + std::to_string(in->size()) + "\n  " + show(in));
  });
  // products and sums made of few or no tensors
  s.fixed("degenerate", 24, [&](Rng& r, long i, Reporter& rep) {
    auto x = ex<Variable>(L"x"), y = ex<Variable>(L"y"), z = ex<Variable>(L"z");
    auto t = ex<Tensor>(L"t", bra{L"a_1"}, ket{L"i_1"}), f = ex<Tensor>(L"f", bra{L"i_1"}, ket{L"a_1"});
    std::vector<ExprPtr> c;
    auto prod = [&](std::vector<ExprPtr> v, rational q = 1) { return make_product(v, Constant::scalar_type(q)); };
    c.push_back(prod({x, y, z})); c.push_back(prod({x, y, t}, rational(1, 2))); c.push_back(prod({t, x, y}, -3)); c.push_back(prod({x, t, f, y}));
    c.push_back(prod({x, y})); c.push_back(prod({t})); c.push_back(prod({}, 5)); c.push_back(x); c.push_back(ex<Constant>(rational(2, 3))); c.push_back(t);
    c.push_back(x + y); c.push_back(prod({x, y, z}) + prod({x, x, y})); c.push_back(prod({t, x, y}) + prod({t, z, z}, 2)); c.push_back(x + ex<Constant>(4));
    c.push_back(prod({x + y, y, z})); c.push_back(prod({x + y, t, z})); c.push_back(prod({x + y, t + prod({t}, 2), z})); c.push_back(prod({prod({x, y}), t, f}));
    c.push_back(prod({prod({t, f}), prod({x, y, z}), x})); c.push_back(prod({t, f, x}, 0)); c.push_back(prod({x, ex<Power>(y, 2), z})); c.push_back(prod({ex<Power>(x, 2), t, f}));
    c.push_back(prod({t + prod({t, x}), f, y}) + prod({x, y, z})); c.push_back(prod({prod({x, y}), t, z}));
    auto in = c.at(i);
    auto ext = std::vector<Index>{}; Model m(r.next(), mp); Evaluator ev(m); ext = sorted(ev.free_indices(in));
    for (auto fn : {ObjectiveFunction::DenseFLOPs, ObjectiveFunction::DenseSize, ObjectiveFunction::DensePeakSize}) for (auto ro : {ReorderSum::Reorder, ReorderSum::NoReorder}) {
      OptimizeOptions o; o.objective_function = fn; o.reorder = ro;
      rep.count("degenerate_inputs"); rep.distinct("nontrivial", hstr(show(in)));
      try {
        auto out = optimize(in, o);
        if (first_difference(ev.eval(in, ext), ev.eval(out, ext)) >= 0) rep.violation("value:degenerate", "optimize changed the value\n  input " + show(in) + "\n  output " + show(out));
      } catch (std::exception& e) { rep.violation("throws:degenerate", "optimize threw " + std::string(e.what()) + "\n  input " + show(in)); return; }
    }
  });
  // fusion of two products
  s.add("fusion", 3000, 60000, [&](Rng& r, long, Reporter& rep) {
    GenParams p = par(r); p.max_tensors = 3; p.max_dummies = 4;
    Gen g(r, p); Names n; auto e = g.externals(n, r(2), r(2));
    // common part and two remainders with the same open indices
    auto whole = g.network_tensors(e, n, 2); if (whole.size() < 2) throw Discard{};
    int keep = r.range(1, (int)whole.size());
    std::vector<ExprPtr> common(whole.begin(), whole.begin() + keep), rest(whole.begin() + keep, whole.end());
    auto other = rest;
    for (auto& t : other) { auto& T = t->as<Tensor>(); t = ex<Tensor>(std::wstring(T.label()) + L"'", bra(T.bra()), ket(T.ket()), aux(T.aux()), T.symmetry(), T.braket_symmetry(), T.column_symmetry()); }
    if (r.chance(1, 6)) other = rest; else if (r.chance(1, 4)) { other = rest; if (!other.empty()) { other.pop_back(); if (!rest.empty()) { auto& T = rest.back()->as<Tensor>(); if (T.bra_rank() || T.ket_rank() || T.aux_rank()) other = rest; } } }
    if (rest.empty() && r.chance(1, 2)) other.push_back(ex<Variable>(L"x"));
    bool left = r.chance(1, 2);
    auto cat = [&](std::vector<ExprPtr> a, const std::vector<ExprPtr>& b) { for (auto& x : b) a.push_back(x); return a; };
    auto rs = [&] { rational q(r.range(-6, 6), r.range(1, 6)); if (q == 0 && !r.chance(1, 10)) q = 1; return q; };
    rational q1 = rs(), q2 = rs(); if (q1 == 0 && q2 == 0) q2 = 3;
    ExprPtr A = make_product(left ? cat(common, rest) : cat(rest, common), Constant::scalar_type(q1));
    ExprPtr B = make_product(left ? cat(common, other) : cat(other, common), Constant::scalar_type(q2));
    std::string shown = show(A) + "  +  " + show(B);
    rep.count("fusions"); rep.distinct("nontrivial", hstr(shown)); rep.sample("fusion", shown);
    auto ext = sorted(e.all()); Model m(r.next(), mp); Evaluator ev(m);
    Arr w; try { w = ev.eval(ExprPtr(std::make_shared<Sum>(ExprPtrList{A->clone(), B->clone()})), ext); } catch (EvalError&) { throw Discard{}; }
    opt::Fusion fz(A->as<Product>(), B->as<Product>());
    auto expect_l = *A->as<Product>().factors().front() == *B->as<Product>().factors().front(), expect_r = *A->as<Product>().factors().back() == *B->as<Product>().factors().back();
    if ((fz.left() != nullptr) != expect_l) rep.violation("fusion-left-presence", shown);
    if ((fz.right() != nullptr) != expect_r) rep.violation("fusion-right-presence", shown);
    for (auto& f : {fz.left(), fz.right()}) if (f) {
      rep.count("fused");
      try { if (first_difference(w, ev.eval(f, ext)) >= 0) rep.violation("value:fusion", "the fused expression differs from the sum\n  " + shown + "\n  fused " + show(f)); }
      catch (EvalError& x) { rep.violation("value:fusion-malformed", std::string(x.what()) + "\n  " + shown + "\n  fused " + show(f)); }
    }
    auto a = opt::Fusion::fuse_scalar(q1, q2);
    if (a[0] * a[1] != q1 || a[0] * a[2] != q2) rep.violation("fuse-scalar", "factors do not multiply back");
    using boost::multiprecision::denominator;
    if (denominator(a[1]) != 1 || denominator(a[2]) != 1 || gcd(numerator(a[1]), numerator(a[2])) != 1) rep.violation("fuse-scalar-not-gcd", "the common factor is not the greatest");
  });
  return s.main(argc, argv);
}
