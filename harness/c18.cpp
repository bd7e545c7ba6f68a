// C18: parallel loops are free of data races and give what the sequential
// library gives, for any number of threads and any schedule.
#include "common/mbptx.hpp"
#include <SeQuant/core/eval/eval_expr.hpp>
#include <SeQuant/core/io/latex/latex.hpp>
#include <SeQuant/core/io/shorthands.hpp>
#include <SeQuant/core/math.hpp>
#include <SeQuant/core/optimize/optimize.hpp>
#include <SeQuant/core/runtime.hpp>
#include <SeQuant/core/utility/singleton.hpp>
#include <SeQuant/core/wick.hpp>
#include <SeQuant/domain/mbpt/spin.hpp>
#include <SeQuant/domain/mbpt/utils.hpp>
#include <atomic>
#include <chrono>
#include <mutex>
#include <thread>
using namespace vf;
using namespace sequant;
namespace {
struct Threads { int old = num_threads(); explicit Threads(int n) { set_num_threads(n); } ~Threads() { set_num_threads(old); } };
struct Op { const char* name; std::function<ExprPtr(ExprPtr)> f; };
std::vector<Op> expr_ops() {
  return {{"expand", [](ExprPtr e) { expand(e); return e; }},
          {"canonicalize", [](ExprPtr e) { canonicalize(e); return e; }},
          {"rapid-canonicalize", [](ExprPtr e) { auto b = e->rapid_canonicalize(); return b ? b * e : e; }},
          {"simplify", [](ExprPtr e) { simplify(e); return e; }},
          {"rapid-simplify", [](ExprPtr e) { rapid_simplify(e); return e; }},
          {"expand-canonicalize-twice", [](ExprPtr e) { expand(e); canonicalize(e); canonicalize(e); return e; }},
          {"optimize", [](ExprPtr e) { expand(e); return optimize(e, OptimizeOptions{.reorder = ReorderSum::Reorder}); }},
          {"optimize-in-order", [](ExprPtr e) { expand(e); return optimize(e, OptimizeOptions{.reorder = ReorderSum::NoReorder}); }},
          {"spintrace", [](ExprPtr e) { expand(e); return mb::spintrace(e); }},
          {"screen", [](ExprPtr e) { expand(e); simplify(e); return e; }}};
}
// an expression up to the order of terms and factors (tied ones are ordered by address)
std::wstring unordered(const ExprPtr& e) {
  bool sum = e->is<Sum>(), prod = e->is<Product>(); if (!sum && !prod) return to_latex(e);
  std::multiset<std::wstring> s; for (auto& x : *e) s.insert(unordered(x)); std::wstring o = sum ? L"(" : L"[" + to_latex(Constant(e->as<Product>().scalar()));
  for (auto& x : s) o += (sum ? L" + " : L" ") + x; return o + (sum ? L")" : L"]");
}
void compare(Reporter& rep, const std::string& what, const ExprPtr& in, const ExprPtr& one, const ExprPtr& many, int n) {
  rep.count("compared"); if (one->is<Sum>() && one->size() > 1) { rep.count("compared_sums"); rep.distinct("nontrivial", hstr(what + narrow(to_latex(one)))); rep.maximum("terms", (double)one->size()); }
  if (*one == *many) return;
  if (unordered(one) == unordered(many)) { rep.count("other_order"); return; }
  rep.violation("result:" + what, what + " with " + std::to_string(n) + " threads gives another result\n  " + show(in).substr(0, 1200) + "\n  one: " + show(one).substr(0, 1500) + "\n  many: " + show(many).substr(0, 1500));
}
ExprPtr random_sum(Rng& r, int& nt) {
  GenParams p; p.spaces = {L"i", L"a"}; p.max_tensors = r.range(2, 3); p.max_dummies = 4; p.proto = r.chance(1, 8); if (r.chance(1, 6)) { p.aux_spaces = {L"x"}; p.max_aux_dummies = 2; }
  Names n; Gen g(r, p); int k = r.range(0, 2); auto e = g.externals(n, k, k); nt = r.range(2, 9);
  std::vector<ExprPtr> v; for (int q = 0; q < nt; ++q) v.push_back(r.chance(1, 3) ? g.nested(e, n, 1) : g.network(e, n));
  for (auto& x : v) { long a = 0; x->visit([&](const ExprPtr& y) { a += y->is<Tensor>(); }); if (a > 5) throw Discard{}; }  // optimization and spin tracing are exponential
  return std::make_shared<Sum>(v.begin(), v.end());
}
// the same node in several places, as results of expand() and operator+ have
ExprPtr aliased(Rng& r) {
  int nt; auto s = random_sum(r, nt); std::vector<ExprPtr> v(s->begin(), s->end()); std::vector<ExprPtr> w;
  for (auto& x : v) { auto p = std::make_shared<Product>(); p->append(1, x, Product::Flatten::No); w.push_back(p); }
  auto out = std::make_shared<Sum>(); for (auto& x : w) out->append(x);
  ExprPtr c = ex<Constant>(rational{1, r.range(2, 5)}); for (auto& x : v) if (r.chance(1, 2)) { auto p = std::make_shared<Product>(); p->append(1, c); p->append(1, x, Product::Flatten::No); out->append(p); }
  return out;
}
struct Slow { int us; };  // injected delays
void jitter(unsigned& st) { st = st * 1664525u + 1013904223u; if ((st >> 24) < 40) std::this_thread::sleep_for(std::chrono::microseconds((st >> 16) & 63)); else if ((st >> 24) < 90) std::this_thread::yield(); }
void together(int n, const std::function<void(int)>& f) {
  std::atomic<int> ready = 0; std::atomic<bool> go = false; std::vector<std::thread> t;
  for (int k = 0; k < n; ++k) t.emplace_back([&, k] { ++ready; while (!go) std::this_thread::yield(); f(k); });
  while (ready < n) std::this_thread::yield(); go = true; for (auto& x : t) x.join();
}
struct Held : public Singleton<Held> { friend class Singleton<Held>; int v; private: explicit Held(int x) : v(x) {} };
template <int K> struct Auto : public Singleton<Auto<K>> { friend class Singleton<Auto<K>>; int v = K; static std::atomic<int> made; private: Auto() { ++made; } };
template <int K> std::atomic<int> Auto<K>::made = 0;
}  // namespace

int main(int argc, char** argv) {
  setup_common(); setup_sr();
  { auto isr = get_default_context().mutable_index_space_registry(); isr->retrieve_ptr(L"i")->approximate_size(4); isr->retrieve_ptr(L"a")->approximate_size(9); }
  Suite s("C18");
  s.add("loops", 400, 20000, [](Rng& r, long, Reporter& rep) {
    static const auto ops = expr_ops(); int nt; auto e = r.chance(1, 4) ? aliased(r) : random_sum(r, nt); auto o = r.pick(ops); int n = r.pick(std::vector<int>{2, 3, 4, 8});
    auto run = [&](int th) -> std::pair<ExprPtr, std::string> { Threads t(th); try { return {o.f(e->clone()), ""}; } catch (std::exception& x) { return {nullptr, x.what()}; } };
    rep.sample("loops", std::string(o.name) + " " + show(e).substr(0, 150));
    auto [one, e1] = run(1); auto [many, e2] = run(n); rep.count(std::string("op:") + o.name); rep.count("threads_run", n);
    if (!one || !many) { rep.count("refused"); if (!!one != !!many) rep.violation("refusal:" + std::string(o.name), std::string(o.name) + " throws only with some numbers of threads: " + e1 + e2 + "\n  " + show(e)); return; }
    compare(rep, o.name, e, one, many, n);
  });
  // nodes shared between the terms of the argument itself
  s.add("shared", 250, 10000, [](Rng& r, long, Reporter& rep) {
    static const auto ops = expr_ops(); auto o = r.pick(ops); int n = r.pick(std::vector<int>{2, 4, 8}); auto seed = r.next();
    auto run = [&](int th) -> std::pair<ExprPtr, std::string> { Rng q(seed); auto e = aliased(q); Threads t(th); try { return {o.f(e), ""}; } catch (std::exception& x) { return {nullptr, x.what()}; } };
    Rng q0(seed); auto e = aliased(q0); Index::reset_tmp_index(); auto [one, e1] = run(1); Index::reset_tmp_index(); auto [many, e2] = run(n); rep.count("shared:" + std::string(o.name)); rep.count("threads_run", n);
    if (!one || !many) { rep.count("refused"); if (!!one != !!many) rep.violation("refusal:" + std::string(o.name), std::string(o.name) + " throws only with some numbers of threads: " + e1 + e2 + "\n  " + show(e)); return; }
    compare(rep, o.name, e, one, many, n);
  });
  // Wick's theorem and vacuum averages of sums of operators
  s.add("wick", 120, 5000, [](Rng& r, long, Reporter& rep) {
    PoolParams p; p.max_rank = 2; p.primed = false; int nt = r.range(2, 5), n = r.pick(std::vector<int>{2, 4, 8}); bool low = r.chance(1, 2); ExprPtr e;
    if (r.chance(1, 2)) { namespace op = mb::op; int k = r.range(0, 2); auto T = op::T(2); e = op::H(2); int d = r.chance(1, 4) && !low ? 2 : 1; ExprPtr t = e; for (int q = 0; q < d; ++q) { t = t * T; e = e + t; } if (k) e = op::P(mb::nₚ(k)) * e; }
    else for (int k = 0; k < nt; ++k) { ExprPtr t; int no = r.range(1, low ? 2 : 3); for (int q = 0; q < no; ++q) { auto o = random_op(r, p).op; t = t ? t * o : o; } e = e ? e + t : t; }
    if (e->is<Constant>()) throw Discard{};
    mb::EVOptions<std::wstring> ev; bool topo = r.chance(2, 3); ev.use_topology = topo; if (r.chance(1, 2)) ev.screen = false;
    bool full = r.chance(1, 2); if (e->is<Product>()) expand(e);
    auto run = [&](int th) -> std::pair<ExprPtr, std::string> {
      Threads t(th); Index::reset_tmp_index();
      try {
        if (!low) return {mb::op::vac_av(e->clone(), ev), ""};
        auto x = lowered(e->clone()); expand(x); simplify(x); if (!x->is<Sum>()) return {x, ""};
        FWickTheorem w{x}; w.use_topology(topo).full_contractions(full); auto y = w.compute(); simplify(y); return {y, ""};
      } catch (std::exception& x) { return {nullptr, x.what()}; } };
    auto [one, e1] = run(1); auto [many, e2] = run(n); rep.count(low ? "wick" : "vacuum-average"); rep.count("threads_run", n);
    if (!one || !many) { rep.count("refused"); if (!!one != !!many) rep.violation("refusal:wick", "throws only with some numbers of threads: " + e1 + e2 + "\n  " + show(e)); return; }
    compare(rep, low ? "wick" : "vacuum-average", e, one, many, n);
  });
  // threads of the user's, each with its own expressions
  s.add("users", 60, 3000, [](Rng& r, long, Reporter& rep) {
    static const auto ops = expr_ops(); int n = r.range(2, 8); Threads one(1); std::vector<std::vector<std::pair<int, u64>>> job(n); std::vector<std::vector<std::string>> par(n), seq(n);
    for (auto& j : job) for (int q = r.range(2, 5); q-- > 0;) j.push_back({r((int)ops.size()), r.next()});
    auto go = [&](int k, std::vector<std::string>& out) { for (auto& [o, sd] : job[k]) { Rng q(sd); int nt; try { auto e = random_sum(q, nt); auto x = ops[o].f(e); (void)serialize(x); out.push_back(narrow(unordered(x))); } catch (std::exception& x) { out.push_back(std::string("threw ") + x.what()); } catch (Discard&) { out.push_back("-"); } } };
    together(n, [&](int k) { go(k, par[k]); }); for (int k = 0; k < n; ++k) go(k, seq[k]);
    for (int k = 0; k < n; ++k) for (size_t q = 0; q < seq[k].size(); ++q) { rep.count("user_results"); rep.distinct("nontrivial", hstr(seq[k][q]));
      if (par[k][q] != seq[k][q]) { rep.violation("users:" + std::string(ops[job[k][q].first].name), std::string(ops[job[k][q].first].name) + " gives another result while other threads work on their own expressions\n  alone: " + seq[k][q].substr(0, 1500) + "\n  together: " + par[k][q].substr(0, 1500)); return; } }
  });
  // helpers documented to be usable from several threads
  s.add("helpers", 150, 8000, [](Rng& r, long, Reporter& rep) {
    int n = r.range(2, 8), m = r.range(5, 60); unsigned st0 = (unsigned)r.next();
    switch (r(6)) {
      case 0: {  // temporary indices are all different
        std::vector<std::vector<Index>> got(n); auto sp = get_default_context().index_space_registry()->retrieve(L"i");
        together(n, [&](int k) { unsigned st = st0 + k; for (int q = 0; q < m; ++q) { got[k].push_back(Index::make_tmp_index(sp)); jitter(st); } });
        std::set<std::wstring> u; for (auto& g : got) for (auto& i : g) { rep.count("temporary_indices"); if (!u.insert(std::wstring(i.label())).second) rep.violation("tmp-index", "two threads were given " + narrow(std::wstring(i.label()))); } break; }
      case 1: {  // a factory shared by threads
        std::vector<std::vector<Index>> got(n); IndexFactory f([](const Index& i) { return i.ordinal().value_or(0) % 3 != 0; }, 1); auto isr = get_default_context().index_space_registry(); std::vector<IndexSpace> sp{isr->retrieve(L"i"), isr->retrieve(L"a"), isr->retrieve(L"p")};
        together(n, [&](int k) { unsigned st = st0 + k; for (int q = 0; q < m; ++q) { got[k].push_back(f.make(sp[(q + k) % 3])); jitter(st); } });
        std::map<std::wstring, std::set<long>> u; for (auto& g : got) for (auto& i : g) { rep.count("factory_indices"); long o = (long)i.ordinal().value_or(0); if (o % 3 == 0) rep.violation("factory", "a refused index was returned"); if (!u[std::wstring(i.space().base_key())].insert(o).second) rep.violation("factory", "two threads were given the same index"); }
        for (auto& [k, v] : u) { long want = 0, c = 0; for (long o = 1; c < (long)v.size(); ++o) if (o % 3) { ++c; want = o; } if (*v.rbegin() != want) rep.violation("factory", "ordinals were skipped"); } break; }
      case 2: {  // queries of a registry nobody has asked before
        auto isr = r.chance(1, 2) ? mbpt::make_sr_spaces() : mbpt::make_mr_spaces(); std::vector<std::vector<IndexSpace>> b(n); std::vector<std::vector<IndexSpace::Type>> t(n); std::vector<int> w(n);
        together(n, [&](int k) { unsigned st = st0 + k; jitter(st); if (k % 2) { b[k] = isr->base_spaces(); t[k] = isr->base_space_types(); } else { t[k] = isr->base_space_types(); b[k] = isr->base_spaces(); } for (auto& x : b[k]) w[k] += isr->is_base(x) + isr->is_pure_occupied(x) * 2 + (isr->retrieve(x.base_key()) == x) * 4 + isr->contains_unoccupied(x) * 8; });
        for (int k = 1; k < n; ++k) { rep.count("registry_queries"); if (b[k] != b[0] || t[k] != t[0] || w[k] != w[0]) rep.violation("registry", "threads see different base spaces"); } break; }
      case 3: {  // factorials
        std::atomic<int> bad = 0; int top = r.range(21, 90);
        together(n, [&](int k) { unsigned st = st0 + k; for (int q = 0; q < m; ++q) { int x = (int)((st >> 8) % (top + 1)); jitter(st); auto a = sequant::factorial(x); if (x && a != sequant::factorial(x - 1) * x) ++bad; } });
        rep.count("factorials", (long)n * m); if (bad) rep.violation("factorial", "n! is not n (n-1)!"); break; }
      case 4: {  // singletons
        std::atomic<int> bad = 0; Held* first = nullptr; std::mutex mx; static std::atomic<bool> set{false};
        if (!set.exchange(true)) { std::atomic<int> ok = 0; together(n, [&](int k) { try { auto& h = Held::set_instance(k); ++ok; (void)h; } catch (std::exception&) {} }); if (ok != 1) rep.violation("singleton", std::to_string(ok.load()) + " of several set_instance calls succeeded"); }
        together(n, [&](int k) { try { auto& h = Held::instance(); std::scoped_lock l(mx); if (!first) first = &h; if (first != &h) ++bad; } catch (std::exception&) { ++bad; } auto& a = Auto<3>::instance(); auto& c = Auto<5>::instance(); if (a.v != 3 || c.v != 5) ++bad; });
        rep.count("singletons", n); if (bad || Auto<3>::made != 1 || Auto<5>::made != 1) rep.violation("singleton", "threads see different instances, or several were made"); break; }
      default: {  // the loops themselves: every element once, results reduced, failures delivered
        std::vector<int> v(r.range(0, 200)); std::iota(v.begin(), v.end(), 0); std::vector<std::atomic<int>> hit(v.size()); int failing = r.chance(1, 3) && !v.empty() ? r((int)v.size()) : -1; Threads t(n); bool threw = false;
        try { sequant::for_each(v, [&](int& x) { unsigned st = st0 + x; jitter(st); ++hit[x]; if (x == failing) throw std::runtime_error("x"); }); } catch (std::runtime_error&) { threw = true; }
        if (threw != (failing >= 0)) rep.violation("loop:failure", threw ? "for_each invented an exception" : "for_each lost an exception");
        for (size_t k = 0; k < hit.size(); ++k) { rep.count("loop_elements"); if (hit[k] > 1 || (failing < 0 && hit[k] != 1)) { rep.violation("loop", "element visited " + std::to_string(hit[k].load()) + " times"); break; } }
        long want = 0; for (int x : v) want += (long)x * x + 1; threw = false; long got = 0;
        try { got = sequant::transform_reduce(v, 5L, std::plus<long>{}, [&](int x) { unsigned st = st0 + x; jitter(st); if (x == failing) throw std::runtime_error("x"); return (long)x * x + 1; }); } catch (std::runtime_error&) { threw = true; }
        if (threw != (failing >= 0) || (!threw && got != want + 5)) rep.violation("reduce", "transform_reduce gives " + std::to_string(got) + " instead of " + std::to_string(want + 5));
        std::vector<std::atomic<int>> ids(n); parallel_do([&](int id) { ++ids.at(id); }); for (auto& x : ids) { rep.count("parallel_do"); if (x != 1) rep.violation("parallel_do", "a thread id was used " + std::to_string(x.load()) + " times"); } }
    }
    rep.distinct("nontrivial", hstr(std::to_string(st0)));
  });
  return s.main(argc, argv);
}
